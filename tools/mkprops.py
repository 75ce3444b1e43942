#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

MW = "compiler/src/gen/rust/message.write.template"
MF = "compiler/src/gen/rust/message.from_slice.template"
MO = "compiler/src/gen/rust/message.offsets.template"
UT = "compiler/src/gen/rust/union.template"
SF = "compiler/src/gen/rust/structure.field.template"
ST = "compiler/src/gen/rust/structure.template"
CO = "runtime/src/message/util/common.rs"
LB = "runtime/src/message/util/list_base.rs"
LI = "runtime/src/message/util/list.rs"
AR = "runtime/src/message/util/array.rs"
SR = "runtime/src/message/util/string.rs"
IF = "compiler/src/interface.rs"

prop("C01", "Encoding to a sink is complete or reported",
 "Encoding a message into an output sink returns success exactly when the whole wire form of the message has been accepted by the sink, however the sink splits, interrupts or refuses the writes. In every other case the call returns the sink's own error. What the sink has accepted is always a prefix of the wire form, and after the sink has failed nothing more is offered to it.",
 ["inputs", "fault_sequences"], "every message of every message type, and every sequence of short writes, interruptions, zero-length writes, would-block and hard errors, at any byte",
 "The tests only encode into a Vec<u8>, which never fails, never writes short and is never interrupted.",
 [MW, CO, SR, LB, ST, UT], [("write_all at each leaf, ? at each step", MW), ("list prefix then data", LB)],
 ["std::io::Write implementation handed to write_to", "Result of write_to"])
prop("C02", "The size query predicts exactly what is written",
 "The size reported for a message before it is encoded equals the number of bytes that encoding it produces. A sink with exactly that much room accepts the message and a sink with any less room makes the encode fail.",
 ["inputs", "fault_sequences"], "every message, every sink capacity up to the wire size, every write chunking",
 "No test calls the size query, and no test meets a sink that fills up.",
 ["runtime/src/message/util/size.rs", MW], [("counting sink", "runtime/src/message/util/size.rs")],
 ["size_of", "bounded sink"])
prop("C03", "A union's payload always agrees with its discriminant",
 "Encoding a message whose union value does not belong to the discriminant stored in the message is refused with an invalid-discriminant error, for every case including the cases without payload. Decoding yields the case selected by the discriminant found in the bytes, and a discriminant that selects no case is reported as invalid. After the discriminant has been set from the value, encoding always succeeds and decoding gives the same case and payload back.",
 ["inputs", "histories", "fault_sequences"], "every union value, every discriminant value including ones produced by damage in transit, every order in which value and discriminant are updated",
 "The tests encode each case once with a matching discriminant; no mismatching or unknown discriminant is ever tried.",
 [UT, "compiler/src/gen/rust/union.rs", "compiler/src/compiler/union.rs"], [("match on discriminant when writing", UT), ("match on discriminant when reading", UT), ("set_discriminant", UT)],
 ["union write_to / from_slice / set_discriminant", "message write_to / from_slice"])
prop("C04", "A length prefix or terminator never misstates the content",
 "Encoding a string or list either produces bytes that decode to exactly the same string or list, or is refused with an error. In particular content whose length does not fit the length prefix of the field, and text containing the terminator of a terminated string, are refused and never truncated, wrapped or cut short.",
 ["inputs", "histories"], "every string and every list of any length, for every prefix width, alone or inside larger messages",
 "The tests use short strings and lists of at most four items, far from any prefix limit, and no text with an embedded terminator.",
 [SR, LB, "runtime/src/util/scalar.rs", "compiler/src/compiler/message.rs"], [("prefix width from max_len", "compiler/src/compiler/structure.rs"), ("prefix conversion", "runtime/src/util/scalar.rs")],
 ["write_to result", "decode of the bytes produced"])
prop("C05", "A refused append leaves a list under construction intact",
 "When appending an item to a list under construction is refused because the item itself cannot be encoded, the list keeps exactly the items it had, and it can be appended to and encoded as if the refused append had never been tried. When the buffer behind the list fails or unwinds in the middle of an append, the list's count still covers only whole items and those items still read back unchanged.",
 ["histories", "fault_sequences"], "every sequence of appends (single and batch) in which items are refused, or in which the buffer fails, writes short, is interrupted or panics, at any byte",
 "The tests only append valid items to a Vec<u8>; no append ever fails.",
 [LB, LI, AR], [("write item, then count it", LB)],
 ["write_item / write_items result", "len", "iteration and encoding of the list afterwards"])
prop("C06", "A delivered message decodes to what was sent",
 "Whatever a node encodes, a peer that received all the bytes decodes to the same values, whichever of the two is this implementation and the other an independent implementation of the wire format: declaration order, fields packed from bit 0, the byte and bit order the schema asks for, the string, list, optional and union forms of the schema. Values held through scaled or signed views come back within the resolution of the view, raw values exactly.",
 ["inputs", "programs", "schedules", "fault_sequences"], "every protocol in the supported schema space, every value, every delivery schedule in which the bytes arrive",
 "The tests cover ten small hand-written protocols with a handful of values each, always read back by the same code in one piece.",
 [MW, MF, SF, UT, "runtime/src/codec/bits.rs", "runtime/src/codec/bytes.rs", "runtime/src/codec/arrays.rs", "compiler/src/compiler/structure.rs", "compiler/src/compiler/message.rs", "compiler/src/compiler/protocol.rs"],
 [("field layout", "compiler/src/compiler/structure.rs"), ("bit and byte codecs", "runtime/src/codec/bits.rs")],
 ["encode/decode at both ends of a link"])
prop("C07", "Partly received messages are recognised as incomplete",
 "For a message type whose end is determined by its own content, decoding any proper prefix of a valid message reports truncated input, and decoding the message followed by anything else gives the same values and exactly the message's own size. A receiver that decodes from whatever has arrived so far, or a reader that recovers a log with a torn tail, therefore gets every message exactly once, in order, as soon as its last byte is there, and none that was not sent.",
 ["inputs", "schedules", "crash_points", "fault_sequences"], "every sequence of messages, every way a transport splits, coalesces, delays or cuts the stream, every point where a log is torn and reread",
 "The tests decode complete buffers holding exactly one message; no prefix and no trailing byte is ever offered.",
 [MF, CO, SR, AR, LI, ST, UT], [("length checks before each read", CO), ("size accumulated per field", MF)],
 ["from_slice result, reported size"])
prop("C08", "Damaged or hostile bytes never break the decoder",
 "Decoding any bytes whatsoever, and reading everything reachable from the decoded value, finishes with a value or an error: it never panics, never depends on bytes outside the input, never reports a size beyond the input, and never allocates memory out of proportion to the input. The outcome is the one the wire format prescribes for those bytes.",
 ["inputs", "fault_sequences"], "every byte string for every message type, in particular valid messages with flipped, dropped, duplicated, reordered or truncated parts and with inflated length prefixes",
 "Every decode in the tests is of bytes just produced by the encoder.",
 [MF, MO, CO, SR, AR, LI, UT, ST, SF], [("bounds checks", CO), ("checked size arithmetic", AR), ("utf-8 validation", SR)],
 ["from_slice, from_slice_with_offsets, accessors, iterators"])
prop("C09", "Iterating a damaged list delivers the intact part and ends",
 "Iterating a decoded list, with or without offsets, yields exactly the items that are wholly present and valid, in order, up to the declared count. At the first item that is not, it yields that item's error once and then ends; it never yields more entries than the declared count, however the consumer treats errors.",
 ["inputs", "fault_sequences", "schedules"], "every list message, cut or damaged at any byte, read by consumers that stop, skip or retry on error and that are interleaved with others",
 "The tests iterate only intact lists.",
 [LI], [("remaining count and remaining slice per step", LI)],
 ["list iteration"])
prop("C10", "Field offsets map the message exactly",
 "Decoding with offsets gives the same value, size or error as decoding without. The offsets of a message's fields start at zero, follow each other without gap or overlap in declaration order and end at the message's size, nested messages are mapped the same way relative to their own first byte, and overwriting the bytes of one field at its offsets in a stored message changes that field only, even if the overwrite is torn.",
 ["inputs", "histories", "crash_points", "fault_sequences"], "every message, intact or damaged, every sequence of in-place patches and crashes in the middle of a patch",
 "One test checks the offsets of one message.",
 [MO, "compiler/src/gen/rust/message_offsets.rs", "runtime/src/message/interface.rs", CO, LI], [("start/end recorded around each field", MO)],
 ["from_slice_with_offsets", "iter_offsets"])
prop("C11", "An enumerated field never yields an undeclared variant",
 "Reading a field through an enumeration gives a variant exactly when the stored raw value is the value declared for that variant, and gives nothing for every other raw value the field can hold. Writing a variant and reading it back gives the same variant.",
 ["inputs", "fault_sequences"], "every enumeration, with or without gaps between its values, every raw value including those produced by damage in transit",
 "The only enumerations tested have no gaps, and no test reads a raw value outside them.",
 [SF, "compiler/src/compiler/enum.rs", "compiler/src/gen/base/structure.rs"], [("range check and conversion", SF)],
 ["enum getters and setters"])
prop("C12", "Updating one packed field changes that field only",
 "A field of a packed structure, an item of an array or a nested structure behaves as an independent register: it reads back what was last stored in it (values wider than the field are reduced to its width), and no update of another field, of another item or of a neighbouring structure changes it. Bits that belong to no field, and bytes outside the structure, are never touched.",
 ["histories", "schedules", "crash_points", "programs"], "every layout in the supported schema space, every interleaving of updates by independent owners of the fields, every snapshot and reload of the buffer in between, any initial buffer content",
 "The tests set each field of a few layouts once or twice on a zeroed buffer, and check the neighbours in one of them.",
 [SF, "runtime/src/codec/bits.rs", "runtime/src/codec/bytes.rs", "runtime/src/codec/arrays.rs", AR, "compiler/src/compiler/structure.rs"],
 [("mask and shift", "runtime/src/codec/bits.rs"), ("location of each field", "compiler/src/compiler/structure.rs")],
 ["structure and array getters and setters, raw bytes"])
prop("C13", "Concurrent encoders and decoders do not disturb each other",
 "Independent callers that encode, measure, build lists, decode or update their own data at the same time obtain exactly the results they would obtain alone, whatever the interleaving at the points where the library calls into their sinks and buffers, and also when one of them fails or is torn down in the middle of a call.",
 ["schedules", "fault_sequences"], "every interleaving of several callers at every callback into caller-supplied sinks and buffers, with failures and unwinding in any of them",
 "The tests run each call alone and never re-enter the library.",
 [MW, LB, SR, "runtime/src/message/util/size.rs", "runtime/src/codec/bits.rs"], [("no shared state", "runtime/src")],
 ["results of each caller compared with a solo run"])
prop("C14", "What a node accepts it can pass on",
 "Whatever bytes a decoder accepts as a message, valid, damaged or made up, encoding the decoded message again succeeds, takes exactly as many bytes as the decoder and the size query report, and yields a message that decodes to the same values; passing it on again changes nothing any more, and a message in the form encoders give it goes on byte for byte, however the sink takes it. Bytes that are refused are passed on not even in part.",
 ["inputs", "fault_sequences", "histories"], "every message type, every byte string its decoder accepts after any damage, every chain of relays with damage between them, every short write, interruption and failure of the sinks",
 "The tests encode what they built and decode what they encoded; none encodes a message that was decoded.",
 [LB, SR, MW, "runtime/src/message/util/size.rs", "compiler/src/gen/base/message_from_slice.rs", "compiler/src/gen/base/message_write.rs"], [("decoded lists keep their bytes", "runtime/src/message/util/list_base.rs")],
 ["bytes written by a relay", "values after each hop", "size query of decoded messages"])
prop("C20", "Generated code depends on the schemas alone",
 "Generating code from the same schemas always produces byte-for-byte the same files, whatever the randomisation of hash tables, the order in which independent protocols are loaded, the order of directory entries, the date and the environment variables of the process, unrelated protocols in the same run, earlier generations in the same process, the leftovers in the output directory, or other generations running at the same time.",
 ["schedules", "configurations", "histories"], "every set of schemas, every hash seed, every load order, every interleaving with other generations, every previous content of the output directory",
 "No test generates the same protocol twice or compares generated code with anything.",
 ["compiler/src/gen/rust/mod.rs", "compiler/src/compiler/protocol.rs", "compiler/src/compiler/enum.rs", "compiler/src/gen/template.rs", IF], [("enum variants sorted by value", "compiler/src/compiler/enum.rs"), ("declaration-order vectors beside the name maps", "compiler/src/compiler/protocol.rs")],
 ["files in the output directory"])
prop("C21", "Generation reports success only for complete output",
 "When a generation run returns success, every file it lists for a protocol exists with its complete content and the reported paths point at them. When reading or creating or writing any file fails for good, the run returns that failure as an error instead of success or a panic, and so it does with a failure of the generator itself; interruptions and short writes that the operating system allows are absorbed.",
 ["fault_sequences", "inputs"], "every set of schemas, every sequence of file-system faults (no space, I/O error, permission, short write, interruption) at any file operation",
 "The build script of the test program runs on a disk that never fails.",
 [IF, "compiler/src/gen/mod.rs"], [("map_err(Error::Io)? at each file operation", IF)],
 ["result of generate", "files in the output directory"])
prop("C22", "A generation run can be repeated after a crash or failure",
 "After a generation run was stopped at any point, by a failure or by a crash that tore or lost any part of what it wrote, running it again over the leftovers succeeds and leaves every output exactly as a run in an empty directory would.",
 ["crash_points", "fault_sequences", "histories"], "every stopping point, every combination of torn, truncated, lost or stale files left behind, repeated any number of times",
 "No test ever runs the generator over an existing or damaged output directory on purpose.",
 [IF, "compiler/src/gen/mod.rs"], [("create directory only if missing", IF), ("files truncated and rewritten", "compiler/src/gen/mod.rs")],
 ["result of the second run", "files in the output directory"])
prop("C23", "Concurrent generations into one directory all succeed",
 "When several generation runs write into the same output directory at the same time, on any interleaving of their file operations, each of them succeeds and, once all have finished, every output is exactly as if the runs had happened one after the other.",
 ["schedules", "fault_sequences"], "every number of concurrent runs over the same or overlapping protocols, every interleaving of their file operations, with one of them possibly crashing",
 "The tests generate once, from a single thread.",
 [IF, "compiler/src/gen/mod.rs"], [("existence check and directory creation", IF)],
 ["results of each run", "files in the output directory"])
prop("C24", "A failed load leaves the loader as it was",
 "When loading or importing a schema fails, because the file cannot be read or because what was read is not a valid schema, the error is returned and the loader is unchanged: other schemas already loaded still compile to the same output, and a later successful load of the same file gives the same result as if the failure had never happened. Interruptions and short reads that the operating system allows do not make a load fail or change its result.",
 ["histories", "fault_sequences"], "every sequence of loads and imports with failing, torn, short or interrupted reads in between",
 "The tests only load intact files once.",
 [IF], [("parse before push", IF)],
 ["results of load/import", "output generated afterwards"])
prop("C25", "Damaged schema files are refused, never crashed on",
 "Loading, compiling and generating from a schema file that was torn, truncated or otherwise damaged ends with an error or with output; it never panics and never runs on without end, and nothing outside the output directory is written.",
 ["inputs", "fault_sequences"], "every damage (truncation, lost or duplicated blocks, flipped bytes, changed numbers and names) to every schema file",
 "The tests compile only intact, valid schemas.",
 ["compiler/src/compiler/structure.rs", "compiler/src/compiler/union.rs", "compiler/src/compiler/message.rs", "compiler/src/gen/base/structure.rs", "compiler/src/gen/template.rs", IF],
 [("validation while lowering the model", "compiler/src/compiler")],
 ["results of load, compile and generate"])
prop("C26", "The entry file names exactly the outputs selected in this run",
 "The entry file generated for a protocol includes exactly the output files that this run selected and produced, each once, under the protocol's name, whatever selection earlier or crashed runs used in the same directory. Outputs that are switched off are neither produced nor included.",
 ["histories", "crash_points", "configurations"], "every sequence of runs with different selections over one directory, with crashes in between",
 "The tests always use one selection in a fresh directory.",
 [IF, "compiler/src/gen/rust/mod.rs"], [("filter by file type", IF), ("entry file from the list of files written", "compiler/src/gen/rust/mod.rs")],
 ["entry file and directory content"])
prop("C27", "Readers of the output directory see whole files",
 "At every moment while generation runs write into an output directory, and also after any of them failed or was killed, a reader finds under the name of an output either nothing where there was nothing, or what was there before the runs, or the complete content one of the runs gives it: never a part of it, and what was there never vanishes. Whenever an entry file written by a run can be read, every file it includes can be read as well.",
 ["schedules", "crash_points", "fault_sequences", "histories"], "every moment of every interleaving of generation runs, with failures and kills (without loss of power) in any of them, over any previous content",
 "The tests look at the output only after the build script is over.",
 [IF, "compiler/src/gen/mod.rs"], [("outputs written beside and renamed into place", "compiler/src/gen/mod.rs"), ("entry file written last", IF)],
 ["content of the output directory after every file operation"])
prop("C28", "Generation changes nothing but its own outputs",
 "A generation run never changes, moves or removes a file or directory that is not one of the generator's outputs: neither the schemas, nor other files in the output directory and in the folders of the protocols, nor anything elsewhere. When the run returns, with success or with an error, nothing of it remains except outputs and their folders, unless the file system refused to remove it.",
 ["fault_sequences", "crash_points", "histories", "schedules"], "every previous content of the output directory and its surroundings, every failure or kill at any file operation, any number of runs at the same time",
 "The tests never look at anything but the generated code.",
 [IF, "compiler/src/gen/mod.rs"], [("temporary file removed when writing fails", "compiler/src/gen/mod.rs"), ("only listed files written", IF)],
 ["content of the output directory and its surroundings during and after the run"])
prop("C29", "Build scripts tell Cargo of every complete protocol and of no other",
 "The entry point of build scripts tells Cargo, in a line cargo::rustc-env=BP3D_PROTOC_<NAME>=<path> of its standard output, the path of the entry file of each protocol it generates (NAME: the protocol's name in upper case), and of no other. At the moment such a line is out, the entry file and every file it includes are complete, so that this also holds for scripts that fail or are killed later. The script succeeds only if all of its lines were taken whole, however the standard output splits or interrupts them; if loading, compiling, generating or the standard output fails, the script fails.",
 ["fault_sequences", "crash_points", "histories", "schedules"], "every sequence of partial, interrupted and failed writes to files and to the standard output, every kill, every previous content of the output directory, any number of runs of the script at the same time",
 "The tests' own build script runs once, into an empty directory, with a standard output that takes everything at once.",
 ["compiler/src/build_script.rs", IF], [("lines printed after generation returns", "compiler/src/build_script.rs")],
 ["standard output of the script, with the output directory at each line", "end of the script"])
# not claimed -----------------------------------------------------------------
prop("C30", "Code generated for any accepted schema compiles",
 "For every schema the compiler accepts, the generated code compiles.",
 ["programs"], "every schema", "Ten schemas are compiled by the tests.",
 ["compiler/src/gen/rust", "compiler/src/compiler"], [("templates", "compiler/src/gen/rust")])
prop("C31", "Ill-formed schemas are rejected with the matching error",
 "Schemas that reference undefined types, use unsupported sizes, place variable-sized fields after a payload or use invalid union discriminants are rejected with the error describing that defect.",
 ["programs"], "every ill-formed schema", "No test compiles an ill-formed schema.",
 ["compiler/src/compiler"], [("validation while lowering", "compiler/src/compiler")])
prop("C32", "The Swift runtime speaks the same wire format",
 "The Swift runtime encodes and decodes the same bytes as the Rust runtime for the same schema.",
 ["inputs", "programs"], "every message", "The Swift tests are not run with the Rust ones and cover no message.",
 ["Swift/BP3DProto", "compiler/src/gen/swift"], [("mirrored codecs", "Swift/BP3DProto/codec")])
prop("C33", "Templates substitute every variable and nothing else",
 "Rendering a template replaces each variable by its value, keeps all other text, and reports unknown fragments, variables and functions.",
 ["inputs"], "every template", "One test renders one template.",
 ["compiler/src/gen/template.rs"], [("tokeniser", "compiler/src/gen/template.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
