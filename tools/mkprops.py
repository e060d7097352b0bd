#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so that the long texts stay readable).
import json, os
P=[]
L="src/libiff/"
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("C01","A write that reports success has stored every byte",
 "Writing a hierarchy to a named file, to standard output or to a caller's stream reports success only if the destination accepted exactly the hierarchy's IFF encoding (big-endian IDs and sizes, bodies, zero filler, pad bytes), and for named files and standard output this includes every byte that is still buffered until the final flush or close. If opening, any write, the flush or the close fails, the call reports failure. Without such a failure the write succeeds, and the hierarchy being written is never modified.",
 ["fault_sequences","inputs","configurations"],
 "Every hierarchy, registry and destination kind; every position at which open, write, flush or close can fail (disk full, I/O error, quota reported at close); every stream buffer size.",
 "The write tests store six tiny trees on a healthy disk; no test makes a write, flush or close fail, and a buffered failure only shows at close.",
 [L+"iff.c",L+"chunk.c",L+"io.c",L+"group.c",L+"list.c",L+"rawchunk.c",L+"field.c"],
 [("status propagation of every write step","src/libiff/chunk.c writeChunkBody/IFF_writeChunk"),("primitive writers check the stream result","src/libiff/io.c"),("close of the destination","src/libiff/iff.c IFF_writeFile")],
 ["return value of IFF_write/IFF_writeFile/IFF_writeFd","bytes held by the destination"])

p("C02","Torn, truncated or unreadable input is never accepted",
 "If the input stops anywhere before the last byte of the main chunk (a writer crashed part-way, the file was cut, the stream ended early or a read failed), reading reports failure and hands out no hierarchy. This holds for every cut position, including inside pad bytes, application-defined chunks and the bytes of a chunk that its handler does not understand.",
 ["crash_points","fault_sequences","inputs"],
 "Every well-formed file, every strict prefix of it left by a crashed or failed writer, every position of a read error, every registry and every way to deliver the bytes.",
 "No test reads a truncated file or meets a read error; the crash point ranges over every byte of every file.",
 [L+"chunk.c",L+"io.c",L+"group.c",L+"list.c",L+"rawchunk.c",L+"field.c",L+"iff.c"],
 [("short reads fail the enclosing chunk","src/libiff/chunk.c readChunkBody"),("remaining bytes of a chunk must exist","src/libiff/io.c IFF_skipUnknownBytes"),("pad byte must exist","src/libiff/io.c IFF_readPaddingByte")],
 ["return value of IFF_read/IFF_readFile/IFF_readFd"])

p("C03","A well-formed input is parsed the same however it is delivered",
 "Reading a well-formed IFF input yields the hierarchy its bytes describe - same IDs, sizes, group types, data bytes, PROP and sub chunk order, and parent links - whether the bytes come from a named file, standard input, a seekable stream or a pipe, in pieces of any size and through any stream buffer. The input is never modified, and for any other byte sequence the outcome is likewise the same for every way of delivering it.",
 ["schedules","inputs","configurations"],
 "Every input, every split of the byte stream into read results, seekable and non-seekable sources, every buffer size, with and without application chunk handlers.",
 "Tests only read small regular files that arrive in one piece through the default buffer; none reads from a pipe or standard input with application chunks.",
 [L+"iff.c",L+"chunk.c",L+"io.c",L+"group.c",L+"list.c",L+"rawchunk.c",L+"field.c",L+"chunkregistry.c"],
 [("sequential parser over the stream","src/libiff/chunk.c IFF_readChunk"),("skipping without relying on the stream kind","src/libiff/io.c IFF_skipUnknownBytes"),("byte order conversion","src/libiff/io.c")],
 ["the hierarchy returned by IFF_read/IFF_readFile/IFF_readFd"])

p("C04","A file reads back as the last acknowledged write to it",
 "Over any history of writes, overwrites (shorter over longer included), failed writes, crashes and reads of named files, reading a file whose latest write was acknowledged yields a hierarchy equal to the one written, which writes back to byte-identical contents. After a failed or crashed write a read of that file reports failure or yields the complete hierarchy of that attempt or, if the attempt never touched the file, of the one before - never a mixture - and other files are unaffected.",
 ["histories","crash_points","fault_sequences"],
 "Every interleaved history of writes, failed or crashed writes and reads over several files and hierarchies.",
 "Each test writes one file once and reads it back; no history with overwrites, failures or crashes is exercised.",
 [L+"iff.c",L+"chunk.c",L+"group.c",L+"list.c",L+"rawchunk.c",L+"io.c"],
 [("destination truncated on open","src/libiff/iff.c IFF_writeFile"),("reader rejects incomplete chunks","src/libiff/chunk.c readChunkBody")],
 ["contents of the files","hierarchy returned by a later read"])

p("C05","Damaged or hostile bytes never crash or hang the reader",
 "For any byte sequence - bits flipped, bytes inserted, dropped or rewritten in storage, sizes that are negative, huge or inconsistent - reading terminates after work proportional to the input, without invalid memory access, and either reports failure or returns a hierarchy. On a returned hierarchy checking, comparing, searching, property lookup, printing, writing and freeing are all memory safe and terminate, and a hierarchy whose sizes are inconsistent or negative never passes the conformance check.",
 ["inputs","fault_sequences"],
 "Every stored byte sequence obtained by corrupting valid files or from scratch, every registry whose handlers use the field API, every delivery of the bytes; nesting depth limited by the available stack (see known findings).",
 "Sixteen hand-made invalid files are tested, none with memory checking and none with application chunk handlers.",
 [L+"chunk.c",L+"group.c",L+"list.c",L+"form.c",L+"cat.c",L+"prop.c",L+"rawchunk.c",L+"field.c",L+"io.c",L+"chunkregistry.c"],
 [("size bounded field access","src/libiff/field.c fieldDoesNotFitInChunk"),("chunk type dispatch","src/libiff/chunkregistry.c IFF_findChunkType"),("size check of group chunks","src/libiff/group.c IFF_checkGroupChunkSize")],
 ["process survival, number of steps, results of follow-up operations"])

p("C06","Running out of memory is reported, never fatal",
 "If any memory allocation fails during any library call, the call returns normally and reports the failure (or an empty result where it has no failure value), never touches invalid memory and never returns a partial or wrong result as success. Every hierarchy that existed before the call keeps its contents and can still be used, written and freed.",
 ["fault_sequences","histories"],
 "Every API call on every hierarchy and input, every allocation in it failing alone or together with all later ones.",
 "No test makes an allocation fail; the failing allocation ranges over every allocation site of every call.",
 [L+"chunk.c",L+"rawchunk.c",L+"group.c",L+"list.c",L+"cat.c",L+"form.c",L+"prop.c",L+"io.c"],
 [("allocation results are checked before use","src/libiff/chunk.c IFF_createChunk, src/libiff/rawchunk.c IFF_createRawChunk, src/libiff/group.c IFF_attachToGroup, src/libiff/form.c IFF_mergeFormArray/IFF_getChunksFromForm, src/libiff/io.c IFF_writeZeroFillerBytes")],
 ["return values, state of existing hierarchies, process survival"])

p("C07","Memory and streams are released exactly once on every path",
 "Over any history of library calls, successful or failed by I/O errors, bad input or lack of memory: every stream the library opened is closed exactly once before the call returns, streams owned by the caller are left open, a failed call retains no memory, and freeing the hierarchies and result arrays handed out releases all memory exactly once. Nothing is used after it was released.",
 ["histories","fault_sequences"],
 "Every history of calls and every fault sequence within it.",
 "No test checks for leaks, and error paths that release half-built hierarchies are hardly run.",
 [L+"iff.c",L+"chunk.c",L+"group.c",L+"list.c",L+"form.c",L+"rawchunk.c",L+"io.c","src/iffjoin/join.c","src/iffpp/pp.c"],
 [("release of half-read chunks","src/libiff/chunk.c readChunkBody -> IFF_freeChunk"),("recursive free","src/libiff/group.c IFF_freeGroup, src/libiff/list.c IFF_freeList"),("closing of files","src/libiff/iff.c")],
 ["allocator and stream accounting after each call and at the end of a history"])

p("C08","Edits keep sizes, order and parent links consistent",
 "After any history of creating chunks, adding them to FORM, PROP, CAT and LIST chunks, replacing data or text and recalculating sizes, with additions that fail for lack of memory in between, each group holds exactly the successfully added chunks in order, each with the right parent, and its size equals what its body encodes to (pad bytes included) as soon as the size of the edited chunk and its ancestors was recalculated. Adding with contents type update to a group whose members were all added that way leaves the common group type of all members, or JJJJ if they differ; a failed addition changes nothing.",
 ["histories","fault_sequences"],
 "Every sequence of editing calls on every hierarchy, with any subset of the allocations in it failing.",
 "One test recalculates one size once and two join two files; histories of edits and failed edits are not covered.",
 [L+"group.c",L+"cat.c",L+"list.c",L+"form.c",L+"prop.c",L+"rawchunk.c"],
 [("incremental size bookkeeping","src/libiff/group.c IFF_addToGroup/IFF_incrementChunkSize"),("upward recalculation","src/libiff/group.c IFF_updateChunkSizes"),("contents type","src/libiff/cat.c updateContentsType")],
 ["fields of the chunk structs","encoding written for the hierarchy"])

p("C09","Queries always answer for the current contents",
 "At every point of any history of edits, reads, writes, frees and failed calls on several hierarchies, conformance check, comparison, form search, chunk lookup and shared property lookup give the answer defined by the current contents of their arguments: check accepts exactly the hierarchies meeting the library's IFF rules, comparison is equality of contents, search finds the outermost matching forms in document order, and lookup finds the form's own chunk first and else the nearest enclosing LIST whose PROP of that form type has it. They modify nothing, and repeating a query gives the same answer.",
 ["histories","fault_sequences"],
 "Every history of operations over several hierarchies sharing forms types and chunk IDs, with failed operations interspersed; queries asked at every intermediate state.",
 "Tests ask each query once on one fresh fixed tree; no test queries again after edits, frees, failures or on another tree.",
 [L+"form.c",L+"group.c",L+"list.c",L+"cat.c",L+"prop.c",L+"chunk.c",L+"id.c",L+"rawchunk.c",L+"iff.c"],
 [("parent walk for shared properties","src/libiff/form.c searchProperty"),("recursive search","src/libiff/group.c IFF_searchFormsFromArray"),("recursive check and compare","src/libiff/group.c IFF_checkGroup/IFF_compareGroup")],
 ["query results compared with a reference model after every step"])

p("C10","Independent callers do not influence each other",
 "Several threads that work on their own hierarchies and streams, sharing only the library, chunk registries and read-only input files, each get exactly the results, file contents and diagnostics they would get if run alone, under every interleaving of their steps and whatever faults hit the others. No call leaves behind state that changes a later call on other data.",
 ["schedules","histories","fault_sequences"],
 "Every interleaving, down to single memory accesses, of any caller programs over the public API, with faults in any of them.",
 "All tests are single-threaded single-shot programs.",
 [L+"io.c",L+"field.c",L+"chunk.c",L+"group.c",L+"list.c",L+"form.c",L+"cat.c",L+"prop.c",L+"rawchunk.c",L+"id.c",L+"chunkregistry.c",L+"error.c",L+"iff.c"],
 [("no mutable static state apart from the error callback pointer","src/libiff/error.c"),("constant default registry","src/libiff/defaultregistry.c")],
 ["results of each caller's calls"],
 [dict(name="IFF_errorCallback",meaning="only process-wide mutable state",where="src/libiff/error.c")])

p("C11","A hierarchy can be shared by concurrent readers",
 "While no one edits it, one hierarchy can be checked, compared, searched, looked up and written (to separate destinations) by several threads at once; under every interleaving each call gives the result it gives alone, and the hierarchy is bit-for-bit unchanged afterwards, also when some of the calls fail for lack of memory or by write errors.",
 ["schedules","fault_sequences"],
 "Every interleaving, down to single memory accesses, of read-only calls on one hierarchy by several threads, with faults in any of them.",
 "All tests are single-threaded; a temporary modification that is undone before the call returns is invisible to them.",
 [L+"group.c",L+"list.c",L+"form.c",L+"cat.c",L+"prop.c",L+"chunk.c",L+"rawchunk.c",L+"field.c",L+"io.c"],
 [("const hierarchy arguments","src/libiff/chunk.h"),("local result arrays","src/libiff/form.c IFF_mergeFormArray")],
 ["results of each call, memory of the shared hierarchy"])

p("C12","iffjoin writes the complete concatenation or fails harmlessly",
 "iffjoin exits with 0 only if the output file or standard output received exactly one CAT chunk holding all input files in argument order, with the group type common to all inputs or else JJJJ as contents type. If any input is missing, unreadable, truncated or not conforming, or memory runs out before writing starts, it exits non-zero and the output is neither created nor changed; if the output cannot be written completely it exits non-zero. Inputs are never modified, except that an input may itself be named as the output.",
 ["fault_sequences","inputs","histories"],
 "Every list of input files (valid, invalid, missing, repeated, equal to the output), every open, read, write, flush, close and allocation fault in the run.",
 "Two tests join two small valid files on a healthy disk.",
 ["src/iffjoin/join.c","src/iffjoin/main.c",L+"iff.c",L+"cat.c"],
 [("all inputs read and checked before the output is opened","src/iffjoin/join.c IFF_join"),("exit status from the write","src/iffjoin/join.c IFF_join")],
 ["exit status, contents of all files, standard output"])

p("C13","iffpp prints the whole file or fails",
 "iffpp exits with 0 only if its input (file or standard input) was read completely, conforms to IFF (unless checking is disabled) and the complete textual representation - every chunk with ID, size, type and data in order - reached standard output. If the input is missing, unreadable, truncated or rejected it exits non-zero and prints no representation; if standard output cannot take all of the text it exits non-zero. The input is never modified.",
 ["fault_sequences","inputs","schedules"],
 "Every input file, every delivery of it, every read, write, flush and allocation fault, with and without the check.",
 "Three tests print one fixed file each to a working standard output.",
 ["src/iffpp/pp.c","src/iffpp/main.c",L+"iff.c",L+"chunk.c",L+"group.c",L+"list.c",L+"rawchunk.c",L+"util.c",L+"id.c"],
 [("exit status from read, check and print","src/iffpp/pp.c IFF_prettyPrint")],
 ["exit status, standard output"])

p("C14","Application chunk handlers are driven by one strict protocol",
 "For every chunk that a registry maps to an application handler (by form type and chunk ID, else by global ID, else the default), reading creates it once, lets its reader run once and, if anything in the read fails afterwards, frees it exactly once; write, check, print, compare and free are passed to that same handler. Whatever a handler built on the field functions does - understand fewer or more fields than the chunk holds, or fail at any field - it never gets or writes bytes outside the chunk's declared size, unknown remaining bytes are skipped on reading and zero-filled on writing, and a handler failure makes the whole call report failure.",
 ["programs","fault_sequences","inputs"],
 "Every registry and handler program built on the field API, every chunk size, every point at which a handler or the stream or allocator under it fails.",
 "Tests use two fixed handlers with four fixed chunk sizes and no failing handler.",
 [L+"chunk.c",L+"chunkregistry.c",L+"field.c",L+"io.c",L+"group.c",L+"list.c",L+"defaultregistry.c"],
 [("handler lookup","src/libiff/chunkregistry.c IFF_findChunkType"),("field does not cross the chunk end","src/libiff/field.c fieldDoesNotFitInChunk"),("skip and filler","src/libiff/io.c IFF_skipUnknownBytes/IFF_writeZeroFillerBytes")],
 ["log of handler invocations, values they received, bytes on the stream"])

p("C15","After a fault the next attempt succeeds",
 "Once faults stop, repeating any read, write, edit, query or tool run that failed because of an I/O error, an interrupted call or lack of memory succeeds at the first attempt, within the same number of steps and with the same result as if the failure had never happened (unless the failed attempt had itself begun to overwrite its own input). No fault leaves library state that makes later calls fail, block or behave differently.",
 ["fault_sequences","histories"],
 "Every operation, every fault or burst of faults that hits it, every operation following it.",
 "No test injects any fault, so none observes the call after one.",
 [L+"iff.c",L+"chunk.c",L+"group.c",L+"list.c",L+"form.c",L+"rawchunk.c",L+"io.c","src/iffjoin/join.c","src/iffpp/pp.c"],
 [("no state outlives a call","src/libiff/*.c (no static variables)")],
 ["result and step count of the retried call"])

p("C16","Every failure is diagnosed, and only through the error callback",
 "Whenever reading, writing or checking reports failure - bad input, I/O error, lack of memory - the installed error callback has been called at least once with a well-formed message, before the call returned and in the calling thread. A read or write of a conforming hierarchy that meets no fault and leaves no unread bytes reports nothing, and apart from the print functions the library itself writes nothing to standard output or standard error.",
 ["fault_sequences","inputs","histories"],
 "Every call, input and fault sequence, with the callback replaced at any point of the history.",
 "No test installs an error callback or looks at the diagnostics.",
 [L+"error.c",L+"io.c",L+"iff.c",L+"group.c",L+"list.c",L+"cat.c",L+"form.c",L+"prop.c",L+"id.c",L+"rawchunk.c",L+"chunk.c"],
 [("all messages go through one function","src/libiff/error.c IFF_error"),("error branches report","src/libiff/io.c, src/libiff/iff.c")],
 ["calls of the error callback, standard output and standard error"],
 [dict(name="IFF_errorCallback",meaning="destination of all diagnostics",where="src/libiff/error.c")])

p("C17","Chunks are framed exactly on a shared stream",
 "Writing a chunk to a caller's stream appends exactly its encoding at the current position, and reading a chunk from a caller's stream consumes exactly its header, body and pad byte, so that several chunks and foreign data can follow each other on one stream, seekable or not, and be read back in turn; reading a whole IFF input looks at no more than one byte beyond it. The caller's stream is neither closed nor repositioned otherwise.",
 ["histories","schedules","inputs"],
 "Every sequence of chunks and foreign bytes on one stream, every delivery of the bytes and buffer size, with and without application handlers.",
 "Every test stream holds a single main chunk and is opened and closed by the library.",
 [L+"chunk.c",L+"io.c",L+"group.c",L+"list.c",L+"rawchunk.c",L+"field.c",L+"iff.c"],
 [("bytes processed accounting","src/libiff/group.c readGroupSubChunks"),("skip, pad","src/libiff/io.c")],
 ["stream position and the bytes that the next reader gets"])

p("N01","The conformance check agrees with the EA IFF 85 standard",
 "The conformance check accepts exactly the hierarchies that the EA IFF 85 standard (doc/IFF.asc) allows, for every rule of the standard including all punctuation in FORM types and the position of PROP chunks in a LIST.",
 ["inputs"],"Every hierarchy.","Eighteen sample files.",[L+"id.c",L+"form.c",L+"cat.c",L+"list.c",L+"prop.c"],
 [("rules","src/libiff/form.c IFF_checkFormType, src/libiff/id.c IFF_checkId")],["IFF_check"])
p("N02","Comparison is an equivalence relation",
 "Comparison of hierarchies is reflexive, symmetric and transitive, whatever application handlers compare.",
 ["inputs","programs"],"Every triple of hierarchies.","Only used on equal pairs in tests.",[L+"chunk.c",L+"group.c",L+"list.c"],
 [("recursive comparison","src/libiff/group.c IFF_compareGroup")],["IFF_compare"])
p("N03","Distinct hierarchies have distinct textual representations",
 "Two hierarchies that differ in any ID, size, type or data byte print differently, for any mixture of binary and TEXT chunks.",
 ["inputs"],"Every pair of hierarchies.","One fixed output is compared.",[L+"chunk.c",L+"group.c",L+"rawchunk.c",L+"util.c"],
 [("printer","src/libiff/rawchunk.c IFF_printRaw")],["IFF_print"])
p("N04","Files are identical on every host byte order and platform",
 "The bytes written for a hierarchy and the hierarchy read from bytes do not depend on the host's byte order, word size or compiler.",
 ["configurations"],"Every supported platform and byte order setting.","Tests run on one host.",[L+"io.c",L+"ifftypes.h.in"],
 [("compile-time byte order switch","src/libiff/io.c IFF_BIG_ENDIAN")],["bytes written by a build for another host"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
