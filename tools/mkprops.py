import json
RS="src/generate_rust.rs"; TS="src/generate_typescript.rs"
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs,state=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None,
      **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
GOLD="The unit tests compare generated text for one fixed schema; the integration tests round-trip a few fixed values over in-memory buffers that never split, stall or fail. "
p("W01","Messages survive delivery over any byte stream",
 "For every schema the tool accepts, a message value serialized by the generated code through any writer that accepts bytes in arbitrary portions, and deserialized from any reader that delivers them in arbitrary portions, comes back as exactly the value that was sent, in Rust and in TypeScript. Transient interruptions of the stream do not change that, and repeating a serialization yields the same bytes.",
 ["inputs","programs","schedules"],"all accepted schemas x all well-typed values x all chunkings/interruptions of the writer and reader x all entry points of the generated API",
 GOLD+"They never chunk a stream, interrupt it, or vary the schema.",
 [RS,TS],[("serializer/deserializer emission per type","generate_rust.rs write_serialization_invocation/write_deserialization_invocation; generate_typescript.rs same"),("atlas computation","write_atlas_calculation")],
 ["value returned by deserialize vs value passed to serialize","bytes written"])
p("W02","Announced sizes are exact, so framed messages never bleed",
 "The size the generated code announces for a message equals the number of bytes it then writes, in both languages. Consequently messages framed by that size and sent back to back on one connection, or into one shared buffer, are each delivered intact: a successful decode of one frame consumes exactly that frame, whatever the receiver recognizes of its contents, and never touches its neighbours.",
 ["inputs","programs","histories"],"all schemas x all sequences of messages on a connection x all chunkings x receivers that ignore fields or take fallbacks",
 GOLD+"They check the size of individual fixed values and never put two messages on one stream.",
 [RS,TS],[("atlas size computation","write_atlas_calculation, write_size_function"),("drain to end of frame after a choice","generated finish()/skip()")],["size()/atlas().size()","stream position after decode"])
p("W03","Generated code speaks the documented wire format",
 "Every message the generated code writes is a valid, canonical encoding according to the binary encoding documented in the README, and every encoding that document allows for a type, including fields in any order, missing optional fields, and fields the reader does not know, is decoded to the value the document assigns to it. So a peer written from the document alone can join a running system in either role.",
 ["inputs","programs","histories"],"all schemas x all values x all legal encodings produced by an independent peer",
 GOLD+"They compare the implementation with itself; no test compares it with an independent implementation of the format.",
 [RS,TS,"README.md"],[("field headers and size modes","generated serialize_field_header/deserialize_field_header"),("special encodings of field values","write_u64_serialization_invocation, write_deserialization_invocation")],["bytes written; values decoded"])
p("W04","Safe schema changes never break a rolling deployment",
 "If two adjacent schema versions differ only by changes the README lists as safe (rename or reorder, add or remove optional or asymmetric fields, asymmetric to or from optional or required, single-required-field struct to or from choice), then every message written under either version is accepted under the other, with every field both versions share preserved and everything else absent or ignored. This holds for any interleaving of upgrades, rollbacks, delayed, duplicated, reordered and stored messages in which every message is read under a version adjacent to or equal to the one that wrote it.",
 ["schedules","histories","programs","inputs"],"all chains of safe schema changes x all upgrade/rollback schedules x all message values",
 "The integration tests include one before/after schema pair with fixed values in one order.",
 [RS,TS,"README.md"],[("unknown fields are skipped","generated skip()/default case"),("rule-dependent presence checks","write_schema (In types)")],["receiver's decoded value vs model projection of the sent value"])
p("W05","Choice fallback picks the first case the reader knows",
 "A choice message carrying a chain of fallbacks is decoded, under any version that knows at least one case of the chain, as the first case of the chain that version recognizes, with that case's payload intact. Readers are given the remaining fallback chain exactly for optional cases and never for others, and ignoring unknown cases never disturbs neighbouring fields, array elements or messages.",
 ["inputs","programs","histories"],"all choices x all fallback chains x all pairs of sender/receiver versions x nesting contexts",
 "The integration tests exercise a handful of fixed two-link chains between one pair of schemas.",
 [RS,TS,"README.md"],[("choice deserializer loop and fallback recursion","write_schema choice deserialize_from_reader_ref / deserializeUnsafe"),("fallback serialization","write_schema choice serialize_with_atlas")],["decoded case, payload and fallback chain"])
p("W06","Rust and TypeScript peers interoperate",
 "For every accepted schema, a message serialized by the generated code of either language is deserialized by the generated code of the other to the same value, and both announce the same size for equal values.",
 ["inputs","programs","histories"],"all schemas x all values x both directions, including mixed clusters relaying messages",
 "No test passes bytes produced by one language to the other; each suite only talks to itself.",
 [RS,TS],[("two independent emitters of one format","generate_rust.rs and generate_typescript.rs")],["decoded value in the other language; announced sizes"])
p("W07","A failed write is never reported as success",
 "If the writer given to generated Rust serialization code fails at any point, or stops accepting bytes, serialization returns an error of that kind, and whatever the writer had accepted is a prefix of the message's encoding. It returns success only if every byte of the message was accepted, and serializing the same message again afterwards to a healthy writer yields the complete message.",
 ["fault_sequences","inputs","programs"],"all write-error kinds x all byte offsets x all short-write patterns x all schemas and values",
 "No test uses a writer that can fail, accept fewer bytes than offered, or return zero.",
 [RS],[("error propagation with ? and write_all in emitted code","write_serialization_invocation, serialize_varint, serialize_field_header")],["io::Result of serialize; bytes accepted by the writer"])
p("W08","A failed read is never reported as success",
 "If the reader given to generated Rust deserialization code fails with an error other than end-of-file before the message has been completely read, deserialization returns an error of that same kind and never a value. Deserializing the same message again from a healthy reader yields the original value.",
 ["fault_sequences","inputs","programs"],"all read-error kinds x all byte offsets x all chunkings x all schemas and values",
 "No test uses a reader that can fail.",
 [RS],[("errors other than UnexpectedEof are propagated from header, element and payload reads","write_deserialization_invocation, generated skip()/finish()")],["io::Result of deserialize"])
p("W09","A truncated message never turns into different data",
 "When a message is cut short at any byte (torn write, lost tail, closed connection), deserialization in either language terminates with either an error or a value in which everything present is what was sent: scalars and cases are equal to the original, strings, bytes and arrays are prefixes of the original, and only optional or asymmetric fields are missing.",
 ["crash_points","inputs","programs"],"all cut points x all schemas and values x same-version and adjacent-version readers",
 "No test feeds a truncated message to either language.",
 [RS,TS],[("end-of-file as end of struct/array","deserialize_from_reader_ref loop; deserializeUnsafe try/catch"),("required-field check","write_schema")],["result of deserialize on every prefix"])
p("W10","Corrupted messages are handled safely",
 "On arbitrary bytes, including stored or transmitted messages with flipped, lost, duplicated or spliced bytes, deserialization in either language terminates after work and memory proportional to the input (types containing arrays of units excepted, as documented) and returns a value or an error: Rust code does not panic, TypeScript code does not throw. The outcome depends only on the bytes, not on how the stream delivered them.",
 ["fault_sequences","inputs","programs"],"all byte strings reachable by corruption of valid messages, and arbitrary bytes x all schemas x all chunkings",
 "No test decodes malformed input.",
 [RS,TS,"README.md"],[("length-limited sub-readers","::std::io::Read::take in emitted code; DataView bounds"),("catch-all in deserialize","generate_typescript.rs write_deserialize_function")],["termination, panics/exceptions, bytes allocated, result"])
p("W11","Local hand-off equals delivery over the wire",
 "In Rust, converting an outgoing message to its incoming form in memory gives exactly the value a same-version receiver would have decoded from the serialized bytes: asymmetric struct fields arrive as present, asymmetric choice cases lose their fallback, optional cases keep theirs. A system that short-circuits local deliveries therefore behaves like one that does not.",
 ["inputs","programs","histories"],"all schemas x all values x any mix of local and remote deliveries",
 "No test calls the conversion; it is only compared as text for one schema.",
 [RS],[("From<XOut> for XIn emission","write_schema, write_into_invocation")],["converted value vs decoded value"])
CLI="The repository's tests only run whole commands on a few fixed, healthy projects (or call internal functions), never with a failing, interrupted or concurrently used file system. "
p("T01","Exit status 0 means every requested artifact is complete",
 "When a run of the tool exits with status 0, every output it was asked for is completely and correctly written, no matter which file system operation failed, was interrupted, or transferred fewer bytes than asked. If a fault makes that impossible the run exits with a non-zero status, and a fault that did not occur leaves a valid request successful.",
 ["fault_sequences","inputs"],"every file system call of every command x errno values, short transfers, EINTR, disk-full at any byte",
 CLI,["src/main.rs","src/schema_loader.rs"],[("every I/O result is mapped to an error","main.rs generate_code/format_schema map_err(...)?"),("exit(1) on error","main.rs main")],["exit status; contents of outputs"])
p("T02","An invalid project never disturbs existing outputs",
 "If any schema in the transitive closure is missing, unreadable, malformed or invalid, the generate command fails and leaves every existing output exactly as it was and creates none. This holds wherever in the closure the defect is and whatever happened in earlier runs.",
 ["histories","inputs","fault_sequences"],"all project histories x all kinds and positions of defects x read faults",
 CLI,["src/main.rs","src/validator.rs","src/schema_loader.rs","src/parser.rs","src/tokenizer.rs"],[("load, then validate, then write","main.rs generate_code")],["output files before/after; exit status"])
p("T03","Commands touch only the files they are asked to write",
 "Generate creates or modifies only the designated output files and missing parent directories of them; format modifies only schema files in the closure; format --check, shell-completion and help modify nothing. Apart from its outputs everything in the project, including schema files, their permissions and unrelated files, is unchanged after any run, whether it succeeds, fails, or is killed at any point.",
 ["crash_points","fault_sequences","histories"],"all commands x all crash points x all faults",
 CLI,["src/main.rs"],[("the only writes are fs::write to option paths or source paths","main.rs generate_code/format_schema")],["directory tree snapshot before/after; mutating system calls"])
p("T04","Output is a deterministic function of the schemas",
 "Generating code for the same schemas gives byte-identical outputs, listings and verdicts regardless of hash seeds, the directory the project lives in, the working directory, how the path is spelled, file times, environment, which outputs are requested together, what earlier runs left behind, and how the operating system portions or interrupts reads and writes.",
 ["schedules","configurations","histories","inputs"],"all projects x all environments and non-fatal I/O schedules",
 CLI+"Each command is run once, in one environment.",["src/main.rs","src/schema_loader.rs","src/generate_rust.rs","src/generate_typescript.rs"],[("ordered maps for everything that reaches output","BTreeMap of schemas, Module.children")],["output bytes, stdout, exit status across perturbed runs"])
p("T05","Re-running generate after a crash yields the right outputs",
 "If the tool is killed, or the machine loses power, at any point during a generate run, then re-running the same command succeeds and leaves exactly the outputs of an undisturbed run on the current schemas. Nothing an earlier run left behind (torn, stale, longer, oddly dated or missing outputs, partially created directories, leftovers) changes that.",
 ["crash_points","histories"],"all crash points x all histories of edits, crashes, clock jumps and re-runs",
 CLI,["src/main.rs"],[("whole-file rewrite of each output","main.rs fs::write"),("create_dir_all","main.rs")],["outputs after the re-run vs a clean run elsewhere"])
p("T06","Interrupting format never damages a schema",
 "If format is killed or a file operation fails at any point, every schema file is left either exactly as it was or completely formatted, every file outside the closure is untouched, and running format again completes the job with the same final result as an uninterrupted run.",
 ["crash_points","fault_sequences","inputs"],"all crash points and write faults during format x all projects",
 CLI,["src/main.rs"],[("rewrite of changed files only","main.rs format_schema fs::write")],["schema file contents after the crash; result of the re-run"])
p("T07","Formatting preserves meaning and converges",
 "Formatting a loadable project never changes what it means: the same types are generated byte for byte, all comment text is kept, and a project that generated successfully still does. Formatting is stable (a second run changes nothing) and converges to the same result whatever sequence of interrupted, partial or per-file format runs led there.",
 ["inputs","histories","crash_points"],"all projects x all sequences of partial/complete/interrupted format runs from any entry schema",
 CLI+"They format a few fixed snippets once.",["src/schema.rs","src/main.rs"],[("pretty printer","schema.rs Display for Schema"),("write only if changed","main.rs format_schema")],["generated outputs, comment words, file contents"])
p("T08","format --check is read-only and truthful",
 "format --check never modifies anything, and exits 0 exactly when running format on the same project state would change no file; in particular it passes right after a successful format and fails after any edit that leaves a file unformatted, anywhere in the closure. A read fault makes it fail rather than pass.",
 ["histories","fault_sequences","inputs"],"all project histories x read faults x position of the unformatted file",
 CLI+"The suite runs it only on already formatted fixtures.",["src/main.rs"],[("check flag guards the write","main.rs format_schema")],["exit status vs effect of format on a copy; tree snapshot"])
p("T09","Exactly the current transitive closure is compiled",
 "A run covers exactly the schemas reachable from the given file through imports, each once, at their current contents, however the imports are spelled, aliased, repeated, circular or reached through symbolic links. It never silently leaves one out, merges distinct files, or uses stale contents: every reachable type is generated under its own path, every reference leads to the type it names, the listing names precisely those files, and distinct files that cannot be told apart in the output are reported as an error.",
 ["histories","inputs"],"all project trees x all edit/move/delete/relink histories",
 CLI+"The loader tests load one fixed tree.",["src/schema_loader.rs","src/generate_rust.rs","src/generate_typescript.rs"],[("depth-first worklist with visited set","schema_loader.rs load_schemas"),("module tree insertion","insert_schema")],["--list-schemas, generated modules and types"],
 [("visited set","files already scheduled for loading","schema_loader.rs load_schemas")])
p("T10","Imports are confined to the base directory",
 "A schema outside the directory that contains the entry schema is never compiled in: an import that leads there through parent references, absolute paths, symbolic links or any combination makes the run fail without opening the outside file and without changing any output. Imports that wander outside and come back are accepted, and relinking directories between runs is always taken into account.",
 ["histories","inputs"],"all import paths x all symlink layouts x relinking histories",
 CLI+"No test imports through a link or a parent directory.",["src/schema_loader.rs"],[("canonicalize and strip_prefix of the base","schema_loader.rs load_schemas")],["exit status; files opened for reading; outputs"])
p("T11","Concurrent runs do not harm each other",
 "When several runs of the tool overlap in any interleaving of their file system operations, runs whose outputs are disjoint each succeed with exactly the output of a solo run, and runs on the same outputs never disturb schemas or leave extra files behind, so that one more undisturbed run yields exactly the right outputs. Directories needed by several runs at once are created without spurious failure.",
 ["schedules"],"all interleavings of system calls of two or more runs",
 CLI+"Nothing is ever run concurrently.",["src/main.rs"],[("create_dir_all tolerates races","main.rs"),("whole-file rewrite of each output","main.rs fs::write")],["exit statuses, outputs, directory tree"])
p("T12","Damaged schema files never crash or hang the tool",
 "Whatever bytes a schema file in the closure contains (torn or lost tails, zero-filled blocks, flipped or duplicated bytes, editor leftovers, invalid UTF-8), every command on it terminates promptly with a success or a reported error, never a panic, signal or hang, and on error changes nothing. A damaged file that is reported as broken works again once its contents are restored.",
 ["crash_points","inputs","fault_sequences"],"all prefixes and corruptions of schema files x all commands",
 CLI+"The parser tests use a fixed set of malformed snippets.",["src/tokenizer.rs","src/parser.rs","src/validator.rs","src/schema_loader.rs","src/error.rs"],[("errors are collected and reported","tokenizer.rs, parser.rs, error_merger.rs")],["exit status, time, tree snapshot"])
p("T13","A run that overlaps edits sees each schema at one moment",
 "When schemas are saved (replaced at once, removed or added) while generate or format --check is running, at any point between its file operations, the run behaves as if every edited schema had had just one of its versions for the whole run: all outputs, the listing, the verdict and the exit status agree with one and the same such state, and a run that fails changes no output. The saved schemas are never lost or overwritten, and one more undisturbed run yields exactly the right outputs.",
 ["schedules","histories"],"all histories of saves x all positions of each save among the file operations of a run",
 CLI+"No file ever changes during a run.",["src/schema_loader.rs","src/main.rs"],[("each schema is read once, and everything is derived from that","schema_loader.rs load_schemas, main.rs generate_code"),("load, validate and generate before the first write","main.rs generate_code")],["outputs, listing, exit status; schemas after the run"])
NA=[]
def na(id,title,stmt,text,why,files,mech,reason):
    p(id,title,stmt,["inputs"],text,why,files,mech,["compiler exit status / tool output"])
    NA.append(dict(property=id,reason=reason))
na("N01","Generated code compiles for every accepted schema",
 "For every schema the tool accepts, including any combination of field, type, file and directory names, the generated Rust compiles without errors and the generated TypeScript type-checks.",
 "all accepted schemas","One schema is compiled.",[RS,TS,"src/identifier.rs"],[("identifier case conversion and keyword escaping","write_identifier")],
 "Pure function of the schema text: no schedule, clock, fault or interleaving can change it. (The wire checks do compile every schema they simulate and report a failure there as a violation of the property under test.)")
na("N02","Identifiers are compared and converted consistently",
 "Two identifiers are considered the same exactly when all their case conversions agree, so accepted schemas never yield clashing names, and every reference resolves regardless of the case style it is written in.",
 "all Unicode identifiers","A fixed list of identifiers is tested.",["src/identifier.rs"],[("split_words/snake_case","identifier.rs")],
 "Pure function of strings; there is no nondeterminism for a simulator to control.")
na("N03","The grammar and validity rules are enforced exactly",
 "A schema is accepted exactly when it follows the documented grammar and rules: unique names, unique indices within the allowed range with gaps marked deleted, resolvable types, no cycles.",
 "all schema texts","A fixed list of snippets is tested.",["src/tokenizer.rs","src/parser.rs","src/validator.rs"],[("validate","validator.rs")],
 "Deciding acceptance of a text is a pure function of its input. What depends on faults and history (rejection never disturbs outputs, damage never crashes the tool) is T02 and T12.")
na("N04","Error messages locate every problem",
 "Every defect of a project is reported in one run with the path and the exact lines where it occurs, and nothing else is reported.",
 "all defective projects","A few fixed messages are compared.",["src/error.rs","src/parser.rs","src/validator.rs"],[("listing","error.rs")],
 "Pure rendering of a parse or validation result; no schedule or fault is involved.")
na("N05","Shell completion scripts match the command line",
 "The completion script printed for each supported shell accepts exactly the documented subcommands and options.",
 "all shells and options","Not tested.",["src/main.rs"],[("clap completion generation","main.rs shell_completion")],
 "Static text produced by the clap dependency; nothing nondeterministic to simulate.")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
json.dump(NA,open('/verif/tools/na.json','w'),indent=1)
