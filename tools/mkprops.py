#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
R="crates/hcl-rs/src/"; E="crates/hcl-edit/src/"; C="crates/hcl2json/src/main.rs"

p("C01","Converter success means the complete JSON was delivered",
 "When the HCL-to-JSON converter exits successfully, every byte of the JSON document for its input was accepted by its standard output, in order and exactly once. If any read of the input or write of the output fails, or the output accepts only part of the document, the converter exits with a failure and says why on standard error. Interrupted and short reads and writes change neither the output nor the exit status.",
 ["fault_sequences","inputs"],"every valid or invalid input document, delivered by file or standard input, and every sequence of short, interrupted or failing reads and writes at any byte position",
 "The CLI tests run the binary on a handful of fixtures with a pipe that always accepts everything; no test makes a read or write fail, stop short or get interrupted, so lost output with exit 0 is invisible to them.",
 [C],[("convert / write_json over buffered stdout",C),("read_hcl over a buffered reader",C)])
p("C02","Batch conversion is independent of scheduling and directory order",
 "Converting several files or a directory in one invocation yields exactly the documents that converting each matched file on its own yields, in argument order with directory entries sorted by file name (or keyed by path when asked). The output bytes do not depend on how worker threads are scheduled, how many there are, in which order the directory is listed, or how reads are split.",
 ["schedules","configurations"],"every interleaving of the worker threads, every thread count, every directory listing order and every split of file reads",
 "Tests convert two or three tiny fixtures under whatever schedule the machine happens to pick; they cannot vary thread interleavings or listing order.",
 [C],[("bulk_convert parallel iterator and ordered collect",C),("glob_files walk",C)])
p("C03","A faulty file affects only itself and is always reported",
 "With continue-on-error the batch result contains exactly the files that could be read and parsed, each with the value it has on its own, and each remaining file is named in a warning exactly once. Without it any failing file makes the invocation fail, names a failing file, and writes nothing to standard output. No file content or I/O failure makes the whole batch crash or hang.",
 ["fault_sequences","schedules","inputs"],"every subset of files failing to open, read, decode, parse or simplify, at any point of any read, under every worker interleaving",
 "Tests cover one malformed fixture; they never inject open/read errors, vanishing files or truncated reads, nor combine them with thread schedules.",
 [C,R+"eval/impls.rs"],[("bulk_convert error handling",C),("process_file context",C),("simplify through in-place evaluation",R+"eval/impls.rs")])
p("S01","Deserializing from a stream equals deserializing its bytes",
 "Reading HCL from a byte stream gives exactly the result, value or error, of deserializing the concatenation of the delivered bytes, no matter how the stream is chunked or interrupted, and the value is the one the document denotes. If the stream fails, the call fails with an I/O error carrying the same kind and never returns a value; bytes that are not UTF-8 are rejected. Nothing is left behind that changes a later read.",
 ["fault_sequences","inputs"],"every document, every chunking including one byte at a time inside multi-byte characters, every interleaving of interrupts, end-of-file and read errors at every byte position, and every sequence of reads",
 "Tests read from in-memory slices that arrive whole; chunk boundaries, interruptions and failures mid-stream are never exercised.",
 [R+"de/mod.rs",R+"error.rs",E+"parser/mod.rs"],[("from_reader / from_slice / from_str",R+"de/mod.rs"),("io::Error to Error conversion",R+"error.rs")])
p("S02","Writing to a stream delivers exactly the formatted text or an error",
 "Formatting or serializing into a writer reports success only if the writer accepted exactly the bytes the in-memory variants produce, in order and once. When the writer fails, the call fails with an I/O error of the same kind and the bytes accepted so far are a prefix of that text; short or interrupted writes are invisible. This holds for every formatter configuration and for documents of every construct.",
 ["fault_sequences","inputs","configurations"],"every document, formatter configuration, short-write pattern and failure position (every byte offset), for structures, expressions, templates, values and serializable types",
 "Tests only write into vectors, which accept everything and never fail.",
 [R+"format/mod.rs",R+"format/impls.rs",R+"format/escape.rs",R+"ser/mod.rs"],[("Formatter write path",R+"format/mod.rs"),("escape writer",R+"format/escape.rs"),("Serializer::serialize",R+"ser/mod.rs")])
p("S03","An acknowledged document is recovered unchanged after a crash",
 "If writing a configuration to durable storage was acknowledged and synced, reading it back after any crash yields an equal configuration, through the structural, value, typed and format-preserving interfaces alike. If a crash tears an unsynced write, reading back either fails with an error or yields the old document or one whose complete leading entries equal those written; it never silently alters or invents an earlier entry. Load, modify and store cycles keep this true over any history.",
 ["crash_points","histories","fault_sequences"],"every sequence of store, sync, load, edit and crash steps, every crash point inside a write, every document and every serializable value",
 "Round-trip tests check chosen documents once in memory; none tears a write, restarts, or chains several load-modify-store cycles.",
 [R+"format/impls.rs",R+"ser/mod.rs",R+"structure/ser/mod.rs",E+"encode/structure.rs",E+"parser/structure.rs"],[("formatting and parsing as inverse pair",R+"format/impls.rs"),("number and string escapes",R+"format/escape.rs"),("print of the format-preserving tree",E+"encode/mod.rs")])
p("S04","Damaged documents are rejected or read stably, never crash",
 "For stored or transmitted HCL with flipped, lost, duplicated or reordered bytes, reading terminates without crashing and either fails or yields a document. A failure points at a line and column inside the text that was delivered and shows that line; a success is stable: printing and re-reading the document gives the same document again.",
 ["fault_sequences","inputs"],"every valid document and every sequence of bit flips, truncations, dropped, duplicated or swapped sectors and spliced documents",
 "Tests check a few hand-picked malformed inputs with expected messages; they do not explore arbitrary damage.",
 [E+"parser/mod.rs",E+"parser/error.rs",E+"parser/structure.rs",E+"parser/expr.rs",E+"parser/template.rs",E+"parser/string.rs"],[("parse entry points and error location",E+"parser/error.rs"),("despan",E+"raw_string.rs")])
p("E01","Untouched text survives every edit history byte for byte",
 "Parsing a document with the format-preserving parser and printing it gives the original bytes, comments and whitespace included. After any sequence of edits to parts of the tree, interrupted by printing, reloading or failing output sinks at any point, the printed document equals the original text with exactly the edited parts replaced, and re-reading it gives the edited tree. (A repeated key in an object literal keeps its last value.)",
 ["histories","crash_points","inputs"],"every document in every layout, every sequence of edits at every position and every point at which the history is cut by a reload or a failed print",
 "Tests print a set of sample documents unchanged and a few single edits; they do not compose edits, reloads and interrupted prints.",
 [E+"encode/mod.rs",E+"encode/structure.rs",E+"encode/expr.rs",E+"encode/template.rs",E+"raw_string.rs",E+"repr.rs",E+"structure/body.rs"],[("encode with decor",E+"encode/mod.rs"),("despan of decor into owned text",E+"repr.rs"),("body edit operations",E+"structure/body.rs")])
p("E02","Document containers obey one sequential model over any history",
 "Bodies, objects, arrays, templates and function argument lists behave, over any sequence of insertions, removals, lookups, iteration from either end, entry operations and abandoned iterators, like the ordered list or map they document. A body never holds two attributes of one name, never reorders untouched entries, and reports length, order and content consistently through every accessor. An operation that is rejected or abandoned leaves the container as it was.",
 ["histories"],"every sequence of container operations, with iterators dropped part-way and callbacks that fail or panic mid-operation",
 "Unit tests exercise single operations in isolation; invariants such as attribute uniqueness must hold after every prefix of every history.",
 [E+"structure/body.rs",E+"expr/object.rs",E+"expr/array.rs",E+"template/mod.rs",E+"expr/func_call.rs",R+"structure/iter.rs",R+"structure/body.rs"],[("Body operations and attribute uniqueness",E+"structure/body.rs"),("Object over an ordered map",E+"expr/object.rs"),("iterators",R+"structure/iter.rs")])
p("E03","Visitors reach every node exactly once, in source order",
 "A default traversal of a document, read-only or mutable, calls the hook for every syntax node of every kind exactly once in source order, and the two traversals agree. If a hook stops or fails part-way, exactly the edits already made are visible and the document stays printable and re-readable; resuming the traversal completes the edit as an uninterrupted one would.",
 ["histories","crash_points","inputs"],"every document and every hook invocation at which the visitor is cancelled, panics or rewrites the node",
 "Tests and examples run visitors over single samples and only on some node kinds; no test interrupts one.",
 [E+"visit.rs",E+"visit_mut.rs"],[("Visit default traversal",E+"visit.rs"),("VisitMut default traversal",E+"visit_mut.rs")])
p("V01","Evaluation calls functions in order, once, and reports their failures",
 "Evaluating an expression, template or body calls exactly the user functions its semantics require, in source order, once each, with the evaluated arguments, and yields the value those results determine. If a function fails or a name is undefined, evaluation stops there with an error naming it; no later function is called and nothing panics. Neither the expression nor the context changes, so a repeated evaluation after failures stop gives the fault-free value.",
 ["fault_sequences","histories","inputs"],"every expression and context and every assignment of success, failure or panic to the successive function invocations, over repeated evaluations",
 "Tests evaluate fixed expressions with functions that succeed; they do not fail the n-th callback nor check the call history.",
 [R+"eval/mod.rs",R+"eval/impls.rs",R+"eval/expr.rs",R+"eval/template.rs",R+"eval/func.rs"],[("Evaluate impls",R+"eval/impls.rs"),("context scoping and function lookup",R+"eval/mod.rs"),("argument checks",R+"eval/func.rs")])
p("V02","In-place evaluation loses nothing and completes once faults stop",
 "In-place evaluation replaces a sub-expression only by its value: whatever fails stays in the document, every independent failing attribute is reported, and attributes that can be evaluated are. When it reports success the document equals its plain evaluation. Repeating it after failures stop reaches the same document as a run without failures, and a panic in a user function never loses document content.",
 ["fault_sequences","crash_points","histories"],"every body, every context and every sequence of failing, panicking and succeeding function invocations over repeated in-place evaluations",
 "Tests check two fixed documents; convergence and loss-freedom under failures at arbitrary invocations are never sampled.",
 [R+"eval/impls.rs",R+"eval/error.rs"],[("evaluate_in_place impls and error accumulation",R+"eval/impls.rs"),("Errors",R+"eval/error.rs")])
p("X01","Concurrent, interleaved and nested uses do not affect each other",
 "Any number of parse, print, edit, evaluate, serialize and deserialize tasks, interleaved at every callback or I/O point on one or several threads, or nested inside each other's callbacks, each produce exactly the result they produce alone, also when some of them fail or panic. Sharing documents and contexts between tasks changes nothing.",
 ["schedules","fault_sequences"],"every interleaving of tasks at reader, writer, serializer, function and formatting callbacks, every nesting, and every task failing or panicking at any of these points",
 "All tests are single-threaded and run one operation at a time; hidden per-thread state is never observed under interleaving or re-entry.",
 [R+"ser/mod.rs",R+"expr/ser/mod.rs",R+"structure/ser/mod.rs",R+"eval/mod.rs"],[("internal serialization flag and handle registries",R+"ser/mod.rs"),("shared evaluation context",R+"eval/mod.rs")])
p("X02","A failed serialization or deserialization leaves no trace",
 "If a value's own serialization or a visitor's own deserialization code fails or panics at any point, the call fails with that error, nothing has been written to the output, and every later operation behaves as if the failed one had never run. If nothing fails, serializing and reading back returns an equal value for every supported data shape, with maps, sequences, enums, options and block wrappers placed as documented.",
 ["fault_sequences","histories","inputs"],"every data shape, every callback index at which user code fails or panics, and every history of such calls on one thread",
 "Tests only serialize types whose implementations always succeed.",
 [R+"ser/mod.rs",R+"ser/blocks.rs",R+"structure/ser/mod.rs",R+"expr/ser/mod.rs",R+"value/ser.rs",R+"value/de.rs",R+"expr/de.rs",R+"structure/de.rs"],[("serializers",R+"structure/ser/mod.rs"),("handle registry clean-up",R+"ser/mod.rs")])
# not applicable: pure functions of one input
p("N01","Parsing conforms to the HCL native syntax specification",
 "Every document accepted by the HCL specification is accepted with the meaning the specification gives, and every other document is rejected.",
 ["inputs"],"every input text","Tests sample finitely many documents; the specification's language is infinite.",
 [E+"parser/expr.rs",E+"parser/structure.rs",E+"parser/template.rs"],[("parser",E+"parser/mod.rs")])
p("N02","Number arithmetic and comparison are exact where representable",
 "Arithmetic, comparison, equality and hashing of numbers agree with mathematics whenever the result is representable, independent of the internal representation.",
 ["inputs"],"every pair of numbers","Tests check a handful of pairs.",
 ["crates/hcl-primitives/src/number.rs"],[("Number operators","crates/hcl-primitives/src/number.rs")])
p("N03","Value mapping follows the HCL JSON specification",
 "Converting a body to a value merges repeated and labelled blocks as the HCL JSON specification prescribes and is total.",
 ["inputs"],"every body","Tests sample a few bodies.",[R+"structure/json_spec.rs"],[("IntoJsonSpec",R+"structure/json_spec.rs")])
p("N04","Identifier construction admits exactly the valid identifiers",
 "A string is accepted as an identifier exactly when it is one under Unicode identifier rules plus dash, and sanitizing any string yields a valid identifier.",
 ["inputs"],"every string","Tests sample a few strings.",["crates/hcl-primitives/src/ident.rs"],[("Ident","crates/hcl-primitives/src/ident.rs")])
p("N05","Source spans delimit exactly the text of their node",
 "Every node produced by the parser reports the byte range of exactly its own source text.",
 ["inputs"],"every document","Tests check spans of a few nodes.",[E+"parser/state.rs",E+"repr.rs"],[("Span",E+"repr.rs")])
p("N06","Literal macros denote what the same text parses to",
 "The construction macros produce the value that parsing the equivalent text produces.",
 ["programs"],"every macro invocation","Tests sample a few invocations; macros expand at compile time.",[R+"macros.rs"],[("macros",R+"macros.rs")])
p("N07","Template rendering applies strip markers and heredoc dedent as specified",
 "Whitespace strip markers and indented heredocs remove exactly the whitespace the template specification says.",
 ["inputs"],"every template","Tests sample a few templates.",[R+"eval/template.rs",E+"template/mod.rs"],[("strip_literal",R+"eval/template.rs"),("dedent",E+"template/mod.rs")])
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
