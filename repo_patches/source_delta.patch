From 8f3ccdd8d8f23240153524cbaaed0b24475c8abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 01/17] fix: report a failure to store buffered data when
 closing a written file

---
 src/libiff/iff.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index d2c3942..0a37b3b 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -107,7 +107,14 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
     }
 
     status = IFF_writeFd(file, chunk, chunkRegistry);
-    fclose(file);
+
+    /* Buffered data may only reach the file now, so a failure to close it means that the file is incomplete */
+    if(fclose(file) != 0)
+    {
+        IFF_error("ERROR: cannot write to file: %s\n", filename);
+        status = FALSE;
+    }
+
     return status;
 }
 
-- 
2.43.0


From 433ed13e3cd84df65cfaa604aa49578d8cf9ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 02/17] fix: report a failure to store buffered data when
 writing to the standard output

---
 src/libiff/iff.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/libiff/iff.c b/src/libiff/iff.c
index 0a37b3b..42e440f 100644
--- a/src/libiff/iff.c
+++ b/src/libiff/iff.c
@@ -121,7 +121,18 @@ IFF_Bool IFF_writeFile(const char *filename, const IFF_Chunk *chunk, const IFF_C
 IFF_Bool IFF_write(const char *filename, const IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry)
 {
     if(filename == NULL)
-        return IFF_writeFd(stdout, chunk, chunkRegistry);
+    {
+        IFF_Bool status = IFF_writeFd(stdout, chunk, chunkRegistry);
+
+        /* Buffered data may only reach the standard output now */
+        if(fflush(stdout) != 0)
+        {
+            IFF_error("ERROR: cannot write to the standard output\n");
+            status = FALSE;
+        }
+
+        return status;
+    }
     else
         return IFF_writeFile(filename, chunk, chunkRegistry);
 }
-- 
2.43.0


From 09800303a219aa7d8dbd54fa0c4ec1d5803a6714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 03/17] fix: let iffpp fail if its output cannot be written

---
 src/iffpp/pp.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/iffpp/pp.c b/src/iffpp/pp.c
index 643d28a..3d9202f 100644
--- a/src/iffpp/pp.c
+++ b/src/iffpp/pp.c
@@ -42,7 +42,14 @@ int IFF_prettyPrint(const char *filename, const int options)
             /* Print the file */
             IFF_print(chunk, 0, NULL);
 
-            status = 0;
+            /* Check whether the standard output has accepted everything */
+            if(fflush(stdout) != 0 || ferror(stdout))
+            {
+                fprintf(stderr, "Cannot write to the standard output!\n");
+                status = 1;
+            }
+            else
+                status = 0;
         }
         else
             status = 1;
-- 
2.43.0


From 212b7bd409da41ddef79f6fa7477f2db92a00b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 04/17] fix: do not accept truncated chunks and do not reject
 pipes when skipping unknown bytes

---
 src/libiff/io.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 9d03487..643733d 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -210,17 +210,25 @@ IFF_Bool IFF_skipUnknownBytes(FILE *file, const IFF_ID chunkId, const IFF_Long c
 {
     if(bytesProcessed < chunkSize)
     {
-        long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long bytesToSkip = chunkSize - bytesProcessed;
+        IFF_Long i;
 
-        if(fseek(file, bytesToSkip, SEEK_CUR) == 0)
+        /* Read the bytes instead of seeking: seeking does not work on pipes and does not notice that the file is too short */
+        for(i = 0; i < bytesToSkip; i++)
         {
-            IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
-            IFF_errorId(chunkId);
-            IFF_error("'\n");
-            return TRUE;
+            if(fgetc(file) == EOF)
+            {
+                IFF_error("Unexpected end of file, while skipping bytes of '");
+                IFF_errorId(chunkId);
+                IFF_error("'\n");
+                return FALSE;
+            }
         }
-        else
-            return FALSE;
+
+        IFF_error("Cannot skip: %d bytes in data chunk: '", bytesToSkip);
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
+        return TRUE;
     }
     else
         return TRUE;
-- 
2.43.0


From 77af475980e25cd4ed3be56ccb0c7d5e034b9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 05/17] fix: do not process fields that are bigger than the
 entire chunk

---
 src/libiff/field.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libiff/field.c b/src/libiff/field.c
index 29ccfc8..d605a49 100644
--- a/src/libiff/field.c
+++ b/src/libiff/field.c
@@ -30,7 +30,7 @@ IFF_Bool IFF_deriveSuccess(const IFF_FieldStatus status)
 
 static IFF_Bool fieldDoesNotFitInChunk(const size_t fieldSize, const IFF_Long chunkSize, const IFF_Long bytesProcessed)
 {
-    return bytesProcessed > chunkSize - fieldSize;
+    return chunkSize < bytesProcessed || (size_t)(chunkSize - bytesProcessed) < fieldSize;
 }
 
 static void increaseBytesProcessed(IFF_Long *bytesProcessed, const size_t fieldSize)
-- 
2.43.0


From 4d937da9ddc37628c314a95ef0fe25a372ab2673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:32 +0000
Subject: [PATCH 06/17] fix: recognise group chunks inside a scope that has its
 own chunk types

---
 src/libiff/chunkregistry.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libiff/chunkregistry.c b/src/libiff/chunkregistry.c
index 7de22f7..0b08925 100644
--- a/src/libiff/chunkregistry.c
+++ b/src/libiff/chunkregistry.c
@@ -90,13 +90,14 @@ IFF_ChunkType *IFF_findChunkType(const IFF_ChunkRegistry *chunkRegistry, const I
     {
         /* Search for the requested FORM chunk types */
         const IFF_FormChunkTypes *formChunkTypes = getFormChunkTypes(formType, chunkRegistry);
-        IFF_ChunkType *result;
+        IFF_ChunkType *result = NULL;
 
-        if(formChunkTypes == NULL)
-            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
-        else
+        if(formChunkTypes != NULL)
             result = getChunkType(chunkId, formChunkTypes->chunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
 
+        if(result == NULL)
+            result = getChunkType(chunkId, chunkRegistry->globalChunkTypesNode); /* Search for the chunk type that handles the a chunk with the given chunk id */
+
         if(result == NULL)
             return chunkRegistry->defaultChunkType;
         else
-- 
2.43.0


From efd6f2cfb3e1558e299ad77326d3804777f501f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 07/17] fix: print the number of processed bytes in warnings
 rather than an address

---
 src/libiff/group.c | 2 +-
 src/libiff/list.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index c180a21..1424e9c 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -89,7 +89,7 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
     }
 
     if(*bytesProcessed > group->chunkSize)
-        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated group chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", group->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
diff --git a/src/libiff/list.c b/src/libiff/list.c
index bcc75dd..74f7369 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -102,7 +102,7 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
     }
 
     if(*bytesProcessed > list->chunkSize)
-        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, bytesProcessed);
+        IFF_error("WARNING: truncated LIST chunk! The size specifies: %d but the total amount of its sub chunks is: %d bytes. The parser may get confused!\n", list->chunkSize, *bytesProcessed);
 
     return TRUE;
 }
-- 
2.43.0


From e377f7105906214df99076e90a7a8db30ff5dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 08/17] fix: free intermediate results while searching for
 forms

---
 src/libiff/group.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libiff/group.c b/src/libiff/group.c
index 1424e9c..4de8436 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -262,6 +262,7 @@ IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, con
         IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
 
         forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
+        free(result);
     }
 
     return forms;
-- 
2.43.0


From 3bd699ac68f55baad3135a748355bd194a1fd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 09/17] fix: free the previous data when setting the text of a
 raw chunk

---
 src/libiff/rawchunk.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index b3d281a..ff47001 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -62,6 +62,7 @@ void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
     IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
     memcpy(chunkData, text, textLength);
+    free(rawChunk->chunkData);
     IFF_setRawChunkData(rawChunk, chunkData, textLength);
 }
 
-- 
2.43.0


From bc7d5d25464684d7db117706aeeb3b52025bf9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 10/17] fix: free rejected input files in iffjoin

---
 src/iffjoin/join.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 5b89281..47e4ca7 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -42,6 +42,9 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
         /* Check whether the IFF file is valid */
         if(chunk == NULL || !IFF_check(chunk, NULL))
         {
+            if(chunk != NULL)
+                IFF_free(chunk, NULL);
+
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-- 
2.43.0


From 795c61d3948ff2baa53bdd01c413b4f543c120bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 11/17] fix: report that a chunk cannot be added to a group
 because memory is exhausted

---
 src/iffjoin/join.c |  7 ++++---
 src/iffjoin/main.c |  6 ++++++
 src/libiff/cat.c   | 17 +++++++++++++----
 src/libiff/cat.h   |  6 ++++--
 src/libiff/form.c  |  4 ++--
 src/libiff/form.h  |  3 ++-
 src/libiff/group.c | 27 ++++++++++++++++++++++-----
 src/libiff/group.h |  6 ++++--
 src/libiff/list.c  | 41 +++++++++++++++++++++++++++++++----------
 src/libiff/list.h  |  9 ++++++---
 src/libiff/prop.c  |  4 ++--
 src/libiff/prop.h  |  3 ++-
 12 files changed, 98 insertions(+), 35 deletions(-)

diff --git a/src/iffjoin/join.c b/src/iffjoin/join.c
index 47e4ca7..ec3d32d 100644
--- a/src/iffjoin/join.c
+++ b/src/iffjoin/join.c
@@ -34,13 +34,16 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
     unsigned int i;
     int status = 0;
 
+    if(cat == NULL)
+        return 1;
+
     for(i = 0; i < inputFilenamesLength; i++)
     {
         /* Open each input IFF file */
         IFF_Chunk *chunk = IFF_readFile(inputFilenames[i], NULL);
 
         /* Check whether the IFF file is valid */
-        if(chunk == NULL || !IFF_check(chunk, NULL))
+        if(chunk == NULL || !IFF_check(chunk, NULL) || !IFF_addToCATAndUpdateContentsType(cat, chunk)) /* Add the input IFF chunk to the concatenation */
         {
             if(chunk != NULL)
                 IFF_free(chunk, NULL);
@@ -48,8 +51,6 @@ int IFF_join(char **inputFilenames, const unsigned int inputFilenamesLength, con
             IFF_free((IFF_Chunk*)cat, NULL);
             return 1;
         }
-        else
-            IFF_addToCATAndUpdateContentsType(cat, chunk); /* Add the input IFF chunk to the concatenation */
     }
 
     /* Write the resulting CAT to the output file or standard output */
diff --git a/src/iffjoin/main.c b/src/iffjoin/main.c
index 63f44ae..548fc39 100644
--- a/src/iffjoin/main.c
+++ b/src/iffjoin/main.c
@@ -138,6 +138,12 @@ int main(int argc, char *argv[])
         unsigned int i;
         int status;
 
+        if(inputFilenames == NULL)
+        {
+            fprintf(stderr, "ERROR: Cannot allocate memory!\n");
+            return 1;
+        }
+
         /* Create an array of input file names */
         for(i = 0; i < inputFilenamesLength; i++)
             inputFilenames[i] = argv[optind + i];
diff --git a/src/libiff/cat.c b/src/libiff/cat.c
index bb8db66..d8c567c 100644
--- a/src/libiff/cat.c
+++ b/src/libiff/cat.c
@@ -65,15 +65,24 @@ static void updateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
     }
 }
 
-void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
+IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk)
 {
-    IFF_addToGroup((IFF_Group*)cat, chunk);
+    return IFF_addToGroup((IFF_Group*)cat, chunk);
 }
 
-void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
+IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk)
 {
+    const IFF_ID contentsType = cat->contentsType;
+
     updateContentsType(cat, chunk);
-    IFF_addToCAT(cat, chunk);
+
+    if(!IFF_addToCAT(cat, chunk))
+    {
+        cat->contentsType = contentsType;
+        return FALSE;
+    }
+
+    return TRUE;
 }
 
 IFF_Bool IFF_readCAT(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/cat.h b/src/libiff/cat.h
index 9113b3e..4a604bb 100644
--- a/src/libiff/cat.h
+++ b/src/libiff/cat.h
@@ -110,8 +110,9 @@ IFF_Chunk *IFF_createUnparsedCAT(const IFF_ID chunkId, const IFF_Long chunkSize)
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
+IFF_Bool IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given CAT and updates the contents type.
@@ -121,8 +122,9 @@ void IFF_addToCAT(IFF_CAT *cat, IFF_Chunk *chunk);
  *
  * @param cat An instance of a CAT struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
+IFF_Bool IFF_addToCATAndUpdateContentsType(IFF_CAT *cat, IFF_Chunk *chunk);
 
 /**
  * Reads a concatenation chunk and its sub chunks from a file.
diff --git a/src/libiff/form.c b/src/libiff/form.c
index 788d609..cf22f1d 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -75,9 +75,9 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
     return IFF_createUnparsedGroup(chunkId, chunkSize);
 }
 
-void IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk)
+IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk)
 {
-    IFF_addToGroup((IFF_Group*)form, chunk);
+    return IFF_addToGroup((IFF_Group*)form, chunk);
 }
 
 IFF_Bool IFF_readForm(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/form.h b/src/libiff/form.h
index 74ee595..1f322de 100644
--- a/src/libiff/form.h
+++ b/src/libiff/form.h
@@ -98,8 +98,9 @@ IFF_Chunk *IFF_createUnparsedForm(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param form An instance of a FORM chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
+IFF_Bool IFF_addToForm(IFF_Form *form, IFF_Chunk *chunk);
 
 /**
  * Reads a form chunk and its sub chunks from a file.
diff --git a/src/libiff/group.c b/src/libiff/group.c
index 4de8436..7dc955b 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -57,18 +57,31 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
     return (IFF_Chunk*)IFF_createGroup(chunkId, chunkSize, 0);
 }
 
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    group->chunk = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+    IFF_Chunk **chunks = (IFF_Chunk**)realloc(group->chunk, (group->chunkLength + 1) * sizeof(IFF_Chunk*));
+
+    if(chunks == NULL)
+    {
+        IFF_error("Cannot allocate memory for a sub chunk!\n");
+        return FALSE;
+    }
+
+    group->chunk = chunks;
     group->chunk[group->chunkLength] = chunk;
     group->chunkLength++;
     chunk->parent = group;
+
+    return TRUE;
 }
 
-void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
+IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk)
 {
-    IFF_attachToGroup(group, chunk);
+    if(!IFF_attachToGroup(group, chunk))
+        return FALSE;
+
     group->chunkSize = IFF_incrementChunkSize(group->chunkSize, chunk);
+    return TRUE;
 }
 
 static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
@@ -82,7 +95,11 @@ static IFF_Bool readGroupSubChunks(FILE *file, IFF_Group *group, const IFF_Chunk
             return FALSE;
 
         /* Attach chunk to the group */
-        IFF_attachToGroup(group, chunk);
+        if(!IFF_attachToGroup(group, chunk))
+        {
+            IFF_freeChunk(chunk, group->groupType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/group.h b/src/libiff/group.h
index 6490c74..601d9e0 100644
--- a/src/libiff/group.h
+++ b/src/libiff/group.h
@@ -103,8 +103,9 @@ IFF_Chunk *IFF_createUnparsedGroup(const IFF_ID chunkId, const IFF_Long chunkSiz
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully attached, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given group. This function also increments the
@@ -112,8 +113,9 @@ void IFF_attachToGroup(IFF_Group *group, IFF_Chunk *chunk);
  *
  * @param group An instance of a group chunk
  * @param chunk An arbitrary group or data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
+IFF_Bool IFF_addToGroup(IFF_Group *group, IFF_Chunk *chunk);
 
 /**
  * Reads a group chunk and its sub chunks from a file.
diff --git a/src/libiff/list.c b/src/libiff/list.c
index 74f7369..40060bc 100644
--- a/src/libiff/list.c
+++ b/src/libiff/list.c
@@ -57,34 +57,49 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
     return (IFF_Chunk*)IFF_createList(chunkSize, 0);
 }
 
-static void addPropToList(IFF_List *list, IFF_Prop *prop)
+static IFF_Bool addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    list->prop = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+    IFF_Prop **props = (IFF_Prop**)realloc(list->prop, (list->propLength + 1) * sizeof(IFF_Prop*));
+
+    if(props == NULL)
+    {
+        IFF_error("Cannot allocate memory for a PROP chunk!\n");
+        return FALSE;
+    }
+
+    list->prop = props;
     list->prop[list->propLength] = prop;
     list->propLength++;
     prop->parent = (IFF_Group*)list;
+
+    return TRUE;
 }
 
-void IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
+IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop)
 {
-    addPropToList(list, prop);
+    if(!addPropToList(list, prop))
+        return FALSE;
+
     list->chunkSize = IFF_incrementChunkSize(list->chunkSize, (IFF_Chunk*)prop);
+    return TRUE;
 }
 
-void IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
+IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk)
 {
-    IFF_addToCAT((IFF_CAT*)list, chunk);
+    return IFF_addToCAT((IFF_CAT*)list, chunk);
 }
 
-void IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk)
+IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk)
 {
-    IFF_addToCATAndUpdateContentsType((IFF_CAT*)list, chunk);
+    return IFF_addToCATAndUpdateContentsType((IFF_CAT*)list, chunk);
 }
 
 static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
 {
     while(*bytesProcessed < list->chunkSize)
     {
+        IFF_Bool status;
+
         /* Read sub chunk */
         IFF_Chunk *chunk = IFF_readChunk(file, list->contentsType, chunkRegistry);
 
@@ -93,9 +108,15 @@ static IFF_Bool readListSubChunks(FILE *file, IFF_List *list, const IFF_ChunkReg
 
         /* Add the PROP chunk or arbitrary sub chunk */
         if(chunk->chunkId == IFF_ID_PROP)
-            addPropToList(list, (IFF_Prop*)chunk);
+            status = addPropToList(list, (IFF_Prop*)chunk);
         else
-            IFF_attachToGroup((IFF_Group*)list, chunk);
+            status = IFF_attachToGroup((IFF_Group*)list, chunk);
+
+        if(!status)
+        {
+            IFF_freeChunk(chunk, list->contentsType, chunkRegistry);
+            return FALSE;
+        }
 
         /* Increase the bytes processed counter */
         *bytesProcessed = IFF_incrementChunkSize(*bytesProcessed, chunk);
diff --git a/src/libiff/list.h b/src/libiff/list.h
index 0ed5b02..4e9e0af 100644
--- a/src/libiff/list.h
+++ b/src/libiff/list.h
@@ -116,8 +116,9 @@ IFF_Chunk *IFF_createUnparsedList(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param list An instance of a list struct
  * @param prop A PROP chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
+IFF_Bool IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
 
 /**
  * Adds a chunk to the body of the given list. This function also increments the
@@ -125,8 +126,9 @@ void IFF_addPropToList(IFF_List *list, IFF_Prop *prop);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
+IFF_Bool IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
 
 /**
  * Adds a chunk to the body of the given list.
@@ -136,8 +138,9 @@ void IFF_addToList(IFF_List *list, IFF_Chunk *chunk);
  *
  * @param list An instance of a list struct
  * @param chunk A FORM, CAT or LIST chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
+IFF_Bool IFF_addToListAndUpdateContentsType(IFF_List *list, IFF_Chunk *chunk);
 
 /**
  * Reads a list chunk and its sub chunks from a file.
diff --git a/src/libiff/prop.c b/src/libiff/prop.c
index 87f56d2..ba964e8 100644
--- a/src/libiff/prop.c
+++ b/src/libiff/prop.c
@@ -46,9 +46,9 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
     return IFF_createUnparsedGroup(chunkId, chunkSize);
 }
 
-void IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk)
+IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk)
 {
-    IFF_addToForm((IFF_Form*)prop, chunk);
+    return IFF_addToForm((IFF_Form*)prop, chunk);
 }
 
 IFF_Bool IFF_readProp(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/prop.h b/src/libiff/prop.h
index bfd152c..8eb76c9 100644
--- a/src/libiff/prop.h
+++ b/src/libiff/prop.h
@@ -72,8 +72,9 @@ IFF_Chunk *IFF_createUnparsedProp(const IFF_ID chunkId, const IFF_Long chunkSize
  *
  * @param prop An instance of a PROP chunk
  * @param chunk A data chunk
+ * @return TRUE if the chunk has been successfully added, or FALSE if the memory can't be allocated. In that case, nothing is changed.
  */
-void IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
+IFF_Bool IFF_addToProp(IFF_Prop *prop, IFF_Chunk *chunk);
 
 /**
  * Reads a PROP chunk and its sub chunks from a file.
-- 
2.43.0


From c9fa4e8a1646313f30c77a129b0f3274380215fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 12/17] fix: do not crash or return incomplete results if
 memory is exhausted while searching for forms

---
 src/libiff/form.c  | 17 +++++++++++++
 src/libiff/form.h  |  2 +-
 src/libiff/group.c | 59 +++++++++++++++++++++++++++++++++++++++++-----
 3 files changed, 71 insertions(+), 7 deletions(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index cf22f1d..623bbbd 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -196,8 +196,17 @@ IFF_Form **IFF_mergeFormArray(IFF_Form **target, unsigned int *targetLength, IFF
     unsigned int i;
     unsigned int newLength = *targetLength + sourceLength;
 
+    if(sourceLength == 0)
+        return target;
+
     target = (IFF_Form**)realloc(target, newLength * sizeof(IFF_Form*));
 
+    if(target == NULL)
+    {
+        IFF_error("Cannot allocate memory for an array of forms!\n");
+        return NULL;
+    }
+
     for(i = 0; i < sourceLength; i++)
         target[i + *targetLength] = source[i];
 
@@ -218,6 +227,14 @@ IFF_Form **IFF_searchFormsInForm(IFF_Form *form, const IFF_ID *formTypes, const
         if(form->formType == formType)
         {
             IFF_Form **forms = (IFF_Form**)malloc(sizeof(IFF_Form*));
+
+            if(forms == NULL)
+            {
+                IFF_error("Cannot allocate memory for an array of forms!\n");
+                *formsLength = 0;
+                return NULL;
+            }
+
             forms[0] = form;
             *formsLength = 1;
 
diff --git a/src/libiff/form.h b/src/libiff/form.h
index 1f322de..1a56274 100644
--- a/src/libiff/form.h
+++ b/src/libiff/form.h
@@ -175,7 +175,7 @@ IFF_Bool IFF_compareForm(const IFF_Chunk *chunk1, const IFF_Chunk *chunk2, const
  * @param targetLength Length of the target form array
  * @param source Source form array
  * @param sourceLength Length of the source form array
- * @return A reallocated target form array containing the forms of both the source and target arrays
+ * @return A reallocated target form array containing the forms of both the source and target arrays, or NULL if the memory can't be allocated. In that case, nothing is changed.
  */
 IFF_Form **IFF_mergeFormArray(IFF_Form **target, unsigned int *targetLength, IFF_Form **source, const unsigned int sourceLength);
 
diff --git a/src/libiff/group.c b/src/libiff/group.c
index 7dc955b..57f7769 100644
--- a/src/libiff/group.c
+++ b/src/libiff/group.c
@@ -266,22 +266,69 @@ IFF_Bool IFF_compareGroup(const IFF_Group *group1, const IFF_Group *group2, cons
         return FALSE;
 }
 
+/**
+ * Recursively visits all forms of the given form types in a chunk hierarchy.
+ *
+ * @param chunk A chunk hierarchy
+ * @param formTypes An array of 4 character form type IDs
+ * @param formTypesLength Length of the form types array
+ * @param forms Array in which the visited forms are stored, or NULL to only count them
+ * @return The number of visited forms
+ */
+static unsigned int visitForms(IFF_Chunk *chunk, const IFF_ID *formTypes, const unsigned int formTypesLength, IFF_Form **forms)
+{
+    const IFF_Group *group = (const IFF_Group*)chunk;
+    unsigned int formsLength = 0;
+    unsigned int i;
+
+    if(chunk->chunkId != IFF_ID_FORM && chunk->chunkId != IFF_ID_CAT && chunk->chunkId != IFF_ID_LIST)
+        return 0;
+
+    if(chunk->chunkId == IFF_ID_FORM)
+    {
+        for(i = 0; i < formTypesLength; i++)
+        {
+            if(group->groupType == formTypes[i])
+            {
+                if(forms != NULL)
+                    forms[0] = (IFF_Form*)chunk;
+
+                return 1;
+            }
+        }
+    }
+
+    for(i = 0; i < group->chunkLength; i++)
+        formsLength += visitForms(group->chunk[i], formTypes, formTypesLength, forms == NULL ? NULL : forms + formsLength);
+
+    return formsLength;
+}
+
 IFF_Form **IFF_searchFormsInGroup(IFF_Group *group, const IFF_ID *formTypes, const unsigned int formTypesLength, unsigned int *formsLength)
 {
-    IFF_Form **forms = NULL;
+    IFF_Form **forms;
+    unsigned int length = 0;
     unsigned int i;
 
     *formsLength = 0;
 
     for(i = 0; i < group->chunkLength; i++)
-    {
-        unsigned int resultLength;
-        IFF_Form **result = IFF_searchFormsFromArray(group->chunk[i], formTypes, formTypesLength, &resultLength);
+        length += visitForms(group->chunk[i], formTypes, formTypesLength, NULL);
 
-        forms = IFF_mergeFormArray(forms, formsLength, result, resultLength);
-        free(result);
+    if(length == 0)
+        return NULL;
+
+    forms = (IFF_Form**)malloc(length * sizeof(IFF_Form*));
+
+    if(forms == NULL)
+    {
+        IFF_error("Cannot allocate memory for an array of forms!\n");
+        return NULL;
     }
 
+    for(i = 0; i < group->chunkLength; i++)
+        *formsLength += visitForms(group->chunk[i], formTypes, formTypesLength, forms + *formsLength);
+
     return forms;
 }
 
-- 
2.43.0


From bd0eb9b5b00dcc18505611cecb55c526938420e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 13/17] fix: do not crash if memory is exhausted while
 retrieving chunks from a form

---
 src/libiff/form.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libiff/form.c b/src/libiff/form.c
index 623bbbd..6e5d9a8 100644
--- a/src/libiff/form.c
+++ b/src/libiff/form.c
@@ -341,7 +341,17 @@ IFF_Chunk **IFF_getChunksFromForm(const IFF_Form *form, const IFF_ID chunkId, un
     {
         if(form->chunk[i]->chunkId == chunkId)
         {
-            result = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+            IFF_Chunk **chunks = (IFF_Chunk**)realloc(result, (*chunksLength + 1) * sizeof(IFF_Chunk*));
+
+            if(chunks == NULL)
+            {
+                IFF_error("Cannot allocate memory for an array of chunks!\n");
+                free(result);
+                *chunksLength = 0;
+                return NULL;
+            }
+
+            result = chunks;
             result[*chunksLength] = form->chunk[i];
             *chunksLength = *chunksLength + 1;
         }
-- 
2.43.0


From 0d30d3466923ff83a2121f58f8c998019ed35aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 14/17] fix: do not crash if memory is exhausted while setting
 the text of a raw chunk

---
 src/libiff/rawchunk.c | 12 +++++++++++-
 src/libiff/rawchunk.h |  3 ++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libiff/rawchunk.c b/src/libiff/rawchunk.c
index ff47001..7397a1f 100644
--- a/src/libiff/rawchunk.c
+++ b/src/libiff/rawchunk.c
@@ -56,14 +56,24 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
     rawChunk->chunkSize = chunkSize;
 }
 
-void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
+IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text)
 {
     size_t textLength = strlen(text);
     IFF_UByte *chunkData = (IFF_UByte*)malloc(textLength * sizeof(IFF_UByte));
 
+    if(chunkData == NULL)
+    {
+        IFF_error("Cannot allocate memory for the text of chunk: '");
+        IFF_errorId(rawChunk->chunkId);
+        IFF_error("'\n");
+        return FALSE;
+    }
+
     memcpy(chunkData, text, textLength);
     free(rawChunk->chunkData);
     IFF_setRawChunkData(rawChunk, chunkData, textLength);
+
+    return TRUE;
 }
 
 IFF_Bool IFF_readRawChunk(FILE *file, IFF_Chunk *chunk, const IFF_ChunkRegistry *chunkRegistry, IFF_Long *bytesProcessed)
diff --git a/src/libiff/rawchunk.h b/src/libiff/rawchunk.h
index 9e9b8ab..c72b97b 100644
--- a/src/libiff/rawchunk.h
+++ b/src/libiff/rawchunk.h
@@ -84,8 +84,9 @@ void IFF_setRawChunkData(IFF_RawChunk *rawChunk, IFF_UByte *chunkData, IFF_Long
  *
  * @param rawChunk A raw chunk
  * @param text Text to store in the body
+ * @return TRUE if the text has been set, or FALSE if the memory can't be allocated. In that case, the chunk remains unchanged.
  */
-void IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
+IFF_Bool IFF_setTextData(IFF_RawChunk *rawChunk, const char *text);
 
 /**
  * Reads a raw chunk with the given chunk id and chunk size from a file.
-- 
2.43.0


From adcf1560653c9a543bf49e7e994f35e758369d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 15/17] fix: do not crash if memory is exhausted while writing
 zero filler bytes

---
 src/libiff/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libiff/io.c b/src/libiff/io.c
index 643733d..1dbc1c1 100644
--- a/src/libiff/io.c
+++ b/src/libiff/io.c
@@ -240,11 +240,11 @@ IFF_Bool IFF_writeZeroFillerBytes(FILE *file, const IFF_ID chunkId, const IFF_Lo
     {
         size_t bytesToSkip = chunkSize - bytesProcessed;
         IFF_UByte *emptyData = (IFF_UByte*)calloc(bytesToSkip, sizeof(IFF_UByte));
-        IFF_Bool status = fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
+        IFF_Bool status = emptyData != NULL && fwrite(emptyData, sizeof(IFF_UByte), bytesToSkip, file) == bytesToSkip;
 
         if(!status)
         {
-            IFF_error("Cannot write: %u zero bytes in data chunk: '", bytesToSkip);
+            IFF_error("Cannot write: %u zero bytes in data chunk: '", (unsigned int)bytesToSkip);
             IFF_errorId(chunkId);
             IFF_error("'\n");
         }
-- 
2.43.0


From 335b36178c6b05e04dae2caa785add73bb3a1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 16/17] fix: report that there is not enough memory to read a
 chunk

---
 src/libiff/chunk.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 18d6a48..2aa82da 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -48,7 +48,13 @@ static IFF_Chunk *readChunkBody(FILE *file, const IFF_ID chunkId, const IFF_Long
     IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunkId);
     IFF_Chunk *chunk = chunkType->createExtensionChunk(chunkId, chunkSize);
 
-    if(chunk != NULL)
+    if(chunk == NULL)
+    {
+        IFF_error("Cannot allocate memory for chunk: '");
+        IFF_errorId(chunkId);
+        IFF_error("'\n");
+    }
+    else
     {
         IFF_Long bytesProcessed = 0;
 
-- 
2.43.0


From 97f58d9146df676ff3bac55299e113f8ed5c0274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 17/17] fix: let the conformance check reject chunks with a
 negative size

---
 src/libiff/chunk.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libiff/chunk.c b/src/libiff/chunk.c
index 2aa82da..0420cee 100644
--- a/src/libiff/chunk.c
+++ b/src/libiff/chunk.c
@@ -104,6 +104,13 @@ IFF_Bool IFF_checkChunk(const IFF_Chunk *chunk, const IFF_ID formType, const IFF
 {
     if(!IFF_checkId(chunk->chunkId))
         return FALSE;
+    else if(chunk->chunkSize < 0)
+    {
+        IFF_error("The size of chunk: '");
+        IFF_errorId(chunk->chunkId);
+        IFF_error("' is negative: %d\n", chunk->chunkSize);
+        return FALSE;
+    }
     else
     {
         IFF_ChunkType *chunkType = IFF_findChunkType(chunkRegistry, formType, chunk->chunkId);
-- 
2.43.0

