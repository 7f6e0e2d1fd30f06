#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

PR = "src/types/profile.rs"
prop("C01", "Opening arbitrary content as a profile is total",
 "Opening any path holding any bytes as a profile (through either entry point) returns success or an error in bounded time: it never panics, overflows, aborts or hangs. The same holds for every query on a profile that did open: tag count, tag signature at any index (an index that is not below the tag count gives the default signature), equality and debug output.",
 ["inputs"], "every byte sequence as file content (truncated at any byte, mutated, hostile counts, offsets, sizes, dates), every path kind, every tag index",
 "The tests open one well-formed file; a crash needs hostile field values or a truncation they never contain.",
 [PR, "src/types/icc_header.rs", "src/types/tag_entry.rs", "src/types/date_time_number.rs"],
 [("Profile::read_header_thr validates each field before use", PR), ("Profile::get_tag_signature bounds check", PR)],
 [("tag_count", "number of accepted directory entries, at most 100", PR)],
 ["return value of Profile::open_from_file and open_from_file_thr", "panics, signals, CPU time per call"])
prop("C02", "Header fields are reported as stored in the profile",
 "A profile that opened reports, for version, device class, colour space, PCS, rendering intent, flags, manufacturer, model, attributes, creator, creation date and time and profile ID, exactly the value that the ICC layout places at that field's offset, big endian (the profile ID as raw bytes). Bytes of other fields never influence a field.",
 ["inputs"], "every 128-byte header with the ICC magic and a valid date",
 "The one test profile has zero in six of the fields and its values do not separate neighbouring fields.",
 [PR, "src/types/icc_header.rs", "src/types/profile_id.rs"],
 [("ICCHeaderConverter::from_bytes / swap_endianness", "src/types/icc_header.rs"), ("field copies in read_header_thr", PR)],
 [("ICCHeader", "repr(C) image of the 128 header bytes", "src/types/icc_header.rs")],
 ["the opened Profile (fields via hook, or debug output)"], "cfg lcms2_vp=\"probe\": Profile::vp_probe")
prop("C03", "The tag directory holds exactly the in-bounds entries, in order",
 "The tags of an opened profile are the entries of the file's directory, in file order and with the stored signature, offset and size, without those whose offset + size (in exact arithmetic) exceeds the smaller of the header's size field and the real file length. No entry that lies inside those bounds (ending exactly at the end included) is ever lost, and slots past the tag count stay at their defaults.",
 ["inputs"], "every directory of 0..=100 entries: any mix of in-bounds, out-of-bounds, touching, zero-sized and overflowing entries; header size below, at and above the file length; files past 4 GiB",
 "The test file has nine regular, in-bounds entries; boundaries, skipping and overflow are never exercised.",
 [PR, "src/types/tag_entry.rs"], [("sanity check of offset + size in read_header_thr", PR), ("TagEntryConverter::from_bytes", "src/types/tag_entry.rs")],
 [("tag_names, tag_offsets, tag_sizes", "accepted entries, parallel arrays", PR)],
 ["Profile::get_tag_count, get_tag_signature; offsets and sizes via hook"], "cfg lcms2_vp=\"probe\": Profile::vp_probe")
prop("C04", "A file opens for reading exactly when it is a well-formed profile",
 "Opening for reading succeeds if and only if the content has a complete 128-byte header with the 'acsp' magic and an existing calendar date and time (month, day, hour, minute and second in range), a tag count of at most 100, and that many complete 12-byte directory entries. In every other case, and for paths that cannot be read, the result is an error of the matching kind (unexpected end of file where bytes are missing, invalid data where something that is present is wrong, the system's error where the path cannot be read), never a partially read profile. A profile that opened has its I/O handler attached. With the little-endian option the same holds for the image whose numbers are all stored the other way round.",
 ["inputs"], "every file content; every prefix of it; every date; every tag count",
 "Only acceptance of one good file is tested; no rejection is tested at all.",
 [PR, "src/types/date_time_number.rs", "src/types/signatures.rs"],
 [("validation steps of read_header_thr", PR)], [], ["Ok / Err of Profile::open_from_file and open_from_file_thr"])
prop("C05", "Tags that share data are linked, and looking up tags terminates",
 "In an opened profile a tag is linked exactly when an earlier tag has the same offset and size, and its link names the last such earlier tag. Searching a signature without following links finds the first tag with it or nothing; searching with links always terminates and ends at an unlinked tag with the same offset and size as the tag the search started from whenever all signatures are distinct.",
 ["inputs"], "every tag directory, including many aliases, chains and duplicate signatures",
 "The test file shares no data between tags and lookup has no test.",
 [PR], [("link search in read_header_thr", PR), ("Profile::search_tag / search_one_tag", PR)],
 [("tag_linked", "signature of the earlier tag with the same data", PR)],
 ["links of the opened profile, and the result of a search"], "cfg lcms2_vp=\"search\": Profile::vp_search_tag, vp_tags")
prop("C06", "An opened profile is a function of the file's content alone",
 "Opening the same content always gives the same outcome: equal profiles, or the same kind of error, whatever the path, the entry point (global or explicit context), the context's user data and everything opened before. Two opened profiles are equal exactly when all recorded header fields and their tag lists (signatures, offsets, sizes, links) agree.",
 ["inputs", "histories"], "every pair of contents, every single-bit change of a content, every order and number of earlier opens",
 "Tests open each profile once, in a fresh context, and never compare two different profiles.",
 [PR, "src/types/profile_id.rs"], [("Profile::new gives fresh state per open", PR), ("PartialEq for Profile", PR)], [],
 ["PartialEq of opened profiles, error kinds"])
prop("C07", "Concurrent opens do not interfere",
 "When any number of threads open (good or malformed) profiles through the shared global context or through contexts of their own, every call returns exactly what it would return alone, none deadlocks, and no failed open makes a later one fail. There is no data race.",
 ["schedules", "histories"], "every interleaving of concurrent opens and drops over a mix of good, malformed and missing files",
 "Tests run each open once and never concurrently on the same global context.",
 [PR, "src/state/context.rs"], [("GLOBAL_CONTEXT mutex", "src/state/context.rs"), ("open_from_file locks it and delegates", PR)],
 [("GLOBAL_CONTEXT", "process-wide default context", "src/state/context.rs")],
 ["results of concurrent Profile::open_from_file calls; ThreadSanitizer and Miri reports"])
prop("C08", "Opening for reading never changes the file system",
 "Opening a path for reading, whether it succeeds or fails, creates no file, and leaves the bytes, length and modification time of the opened file and of its neighbours as they were. No later use or drop of the profile changes them either.",
 ["inputs", "histories"], "every content, existing and missing paths, read-only files, symbolic links, repeated opens and drops",
 "No test looks at the file after an open.",
 [PR], [("open mode selection in open_from_file_thr", PR)], [], ["the directory's files before and after", "flags and writes seen at the system-call boundary"])
prop("C09", "Opening for writing yields an empty writable profile",
 "Opening a path for writing in an existing directory succeeds whatever was there before, leaves an empty file at exactly that path, and returns a profile with no tags, an attached I/O handler, default header fields and the time of the open (UTC) as its creation date. If the file cannot be created the result is the system's error, and no other file is touched.",
 ["inputs", "histories"], "every earlier content at the path (none, profile, garbage), every path, both entry points, sequences of write and read opens",
 "Write mode has no test.",
 [PR], [("AccessMode::Write branch of open_from_file_thr", PR)], [("is_write", "profile was opened for writing", PR)],
 ["Ok / Err, get_tag_count, get_io_handler, the file afterwards"], "cfg lcms2_vp=\"probe\": Profile::vp_probe")
prop("C10", "Every rejection is reported once, with the right code, to its context",
 "Opening content with a complete header that lacks the magic number, has an impossible date or claims more than 100 tags calls the error handler of the context in use exactly once, on that context itself (no copy of it), with the code of a defect that is present (bad signature, range, corruption detected); rejecting a plugin chain calls it exactly once with the unknown-extension code and the returned text. Successful operations never call it, and no other context's handler is ever called.",
 ["inputs", "histories"], "every content and plugin chain, every interleaving of operations over several contexts",
 "The default handler does nothing and no test installs one.",
 [PR, "src/state/context.rs", "src/state/chunks/error_handler.rs"],
 [("Context::signal_error", "src/state/context.rs"), ("signal_error calls in read_header_thr and init_plugin", PR)],
 [("error_handler", "function called with (context, code, text)", "src/state/context.rs")],
 ["calls of an installed handler"], "cfg lcms2_vp=\"errors\": Context::vp_set_error_handler")
prop("C11", "File and memory handlers behave as one byte stream",
 "For every sequence of reads, writes, seeks, position and size queries, a file handler and a memory handler (growable or fixed) give the results of a plain byte array with a cursor: a read returns exactly the bytes last written there and advances by its length, a write changes exactly its range (an empty write beyond the end may also move the end there), seeking is relative to start, end or position, and querying the size leaves the position alone. An operation that cannot be done in full (reading past the end, writing past a fixed buffer, seeking before byte 0) is an error, and a failed seek keeps the position.",
 ["histories", "inputs"], "every history of operations over every handler kind, buffer length and offset",
 "Tests do one operation each on five bytes; interplay of position, gaps, overwrites and failed operations is never tested.",
 ["src/io/file_mem.rs", "src/io/file_file.rs", "src/io/io_handler.rs"],
 [("IOHandler for FileMem", "src/io/file_mem.rs"), ("IOHandler for File", "src/io/file_file.rs"), ("IOHandler::reported_size", "src/io/io_handler.rs")],
 [("cursor", "position in the in-memory buffer", "src/io/file_mem.rs")], ["results of the IOHandler methods; final bytes"])
prop("C12", "The null handler keeps position and size like a file and reads zeros",
 "For every sequence of operations the null handler reports the position and size that a file of the same writes would have (size is the end of the furthest write; whether an empty write beyond the end counts is left open), a read of any length at any position succeeds, as long as the resulting position is representable, fills the whole buffer with zeros and advances by that length without changing the size. Seeking before byte 0 is an error that keeps the position.",
 ["histories"], "every history of reads, writes, seeks (all three origins, negative and huge offsets), position and size queries",
 "One doc-test does four operations.",
 ["src/io/file_null.rs", "src/io/io_handler.rs"], [("IOHandler for FileNull", "src/io/file_null.rs")],
 [("pointer, used_space", "position and furthest byte written", "src/io/file_null.rs")], ["results of the IOHandler methods"])
prop("C13", "Typed integer and float I/O is exact, big endian and self-inverse",
 "Writing any u8, u16, u32, u64 or f32 (any bit pattern, NaNs included) or any u16 array through any handler puts exactly its big-endian bytes at the position (in array order) and advances by exactly their number; reading any bytes back gives the value with exactly those bits. With the little-endian option the same holds with little-endian bytes.",
 ["inputs", "configurations"], "all values of u8, u16, u32 and f32 bit patterns, u64 values, array lengths, positions, handlers; both byte-order configurations",
 "Doc-tests use the value 42; signs, NaN payloads, high bits and partial positions are not covered.",
 ["src/io/io_handler.rs", "src/io/big_endian.rs", "src/io/little_endian.rs"],
 [("IOHandler::read_*/write_*", "src/io/io_handler.rs"), ("adjust_endianness_*", "src/io.rs")], [], ["bytes in the handler, values returned, position"])
prop("C14", "Fixed-point numbers are read exactly and written to the nearest value",
 "Reading any 32-bit pattern as a signed 15.16 number gives exactly pattern / 65536 as a float, for every pattern, most negative included. Writing a float stores the nearest representable value, up to the rounding of one double-precision operation (an exact half rounds up, out-of-range values saturate), so writing a value that was read restores its bytes; an XYZ triple is three such numbers in the order X, Y, Z.",
 ["inputs"], "all 2^32 patterns; every grid point, midpoint and neighbouring float; out-of-range, infinite values; all positions of a triple",
 "Doc-tests use three values (2.5, 4096.125, -1.25).",
 ["src/io/io_handler.rs", "src/types/cie_xyz.rs"],
 [("s15f16_to_f64, f64_to_s15f16", "src/io/io_handler.rs"), ("read_xyz, write_xyz", "src/io/io_handler.rs")], [], ["values and bytes"])
prop("C15", "Typed helpers pass on every handler failure and fabricate nothing",
 "For any handler, if one of the operations a typed read, typed write, array, XYZ or size helper needs fails, the helper returns that error, does no further data transfer, and never returns a value; if all succeed it transferred exactly the documented number of bytes, in order. A size query that returns successfully gives the stream's length and leaves the position unchanged.",
 ["fault_sequences", "inputs"], "every helper, every operation index at which a user-defined handler fails, every error kind, every starting position",
 "No test uses a handler that fails.",
 ["src/io/io_handler.rs"], [("default methods of IOHandler", "src/io/io_handler.rs")], [], ["results of helpers over a recording, failing handler"])
prop("C16", "Operating-system faults surface as errors, short transfers do not",
 "If any system call fails while a profile is being opened, or while a file handler reads, writes, seeks or reports its position or size, that call returns an error and never a profile or value that differs from the fault-free one. Transfers that are merely short or interrupted are completed, with the same result as undisturbed ones. (The system call that closes a descriptor is not part of this: no operation waits for its result.)",
 ["fault_sequences"], "every system call of an operation, failed in turn with each of several errors; every pattern of short and interrupted transfers",
 "Tests run on a healthy disk where each transfer completes at once.",
 ["src/io/file_file.rs", PR], [("read_exact / write_all in IOHandler for File", "src/io/file_file.rs"), ("? on each step of read_header_thr", PR)], [],
 ["results under injected faults at the system-call boundary"])
prop("C17", "Closing a file handler makes its data durable or reports an error",
 "When closing a file handler returns success, all bytes written through it had been handed to the file and a data sync of that file completed successfully after the last write and before the descriptor was closed; the descriptor is closed exactly once. If the sync fails, closing returns that error; a memory or null handler closes successfully.",
 ["histories", "fault_sequences"], "every history of writes before closing, sync succeeding or failing with any error",
 "The close test only checks that a later open reads the data back, which the page cache answers.",
 ["src/io/file_file.rs", "src/io/file_mem.rs", "src/io/file_null.rs"], [("close for File: sync_data then drop", "src/io/file_file.rs")], [],
 ["order of write, sync and close calls at the system-call boundary", "result of close"])
prop("C18", "Byte-order helpers convert exactly and undo themselves",
 "For every value, each big-endian helper turns a native value into the one whose native bytes are the value's big-endian bytes, the array form does the same on bytes, applying a helper twice gives back the input, and the little-endian helpers do so for little endian. The helpers re-exported by the I/O module are the big-endian ones, or the little-endian ones when that option is chosen.",
 ["inputs", "configurations"], "all 16- and 32-bit values, 64-bit values; both configurations",
 "The helpers are only used in passing with the value 42, and never with the option on.",
 ["src/io.rs", "src/io/big_endian.rs", "src/io/little_endian.rs"], [("adjust_endianness_*", "src/io/big_endian.rs")], [], ["values"])
prop("C19", "Signature conversions agree and lose nothing",
 "A signature built from a 32-bit number, from four bytes, from a byte slice or from text holds the first four bytes, padded on the right with spaces when there are fewer, and equals any other signature with the same four bytes and no other. Converting it to a number or to bytes gives them back; converting it to text gives the same four bytes when they are valid UTF-8 and four spaces otherwise; debug output never fails and differs for different signatures.",
 ["inputs"], "all 2^32 signatures, all slice lengths, all texts including multi-byte characters cut at byte 4",
 "Tests convert 'GRAY', 'RGB', 'xy', 'a' and one invalid sequence.",
 ["src/types/signature.rs"], [("From impls of Signature", "src/types/signature.rs")], [], ["conversions, equality, debug output"])
prop("C20", "ICC dates and calendar dates convert both ways without loss",
 "For every valid date and time, in years 0 to 65535, converting an ICC date-time number to a calendar date-time gives the same year, month, day, hour, minute and second, and converting back gives the original number. Converting a calendar date-time of those years keeps its fields down to the second and drops fractions of a second; the order of dates is preserved.",
 ["inputs"], "every day of years 0 to 65535, every second of a day, leap years, leap seconds in the fraction",
 "No test converts a date except the single one in the test profile.",
 ["src/types/date_time_number.rs"], [("From impls of DateTimeNumber", "src/types/date_time_number.rs")], [], ["converted values"])
PC = "src/plugins/para_curve.rs"
prop("C21", "Parametric curves follow their lcms2 formulas",
 "For each built-in curve type (1 to 8, 108, 109 and their negatives) the default evaluator returns, for all parameters and inputs, the value of the formula that lcms2 documents for that type with its guards (zero for a negative base, degenerate coefficients below 0.0001, segments switching at the documented breakpoint), up to rounding; an unknown type gives zero. It never panics when given the number of parameters the type declares.",
 ["inputs"], "every type, every parameter vector (degenerate, negative, huge, non-finite), every input including breakpoints and neighbours",
 "The evaluator has no test.",
 [PC], [("default_eval_parametric_fn", PC)], [], ["ParametricCurves::default().evaluator"])
prop("C22", "Reversed parametric curves undo the forward ones",
 "For every built-in curve type and all regular parameters (the forward curve is defined and strictly monotonic; where it has two segments, both increase and it does not step down between them; type 8 has a positive scale), evaluating the reversed type on the forward result gives back the input for every non-negative input, up to rounding, on every segment of the curve that is not constant. The S-shaped type (108) maps 0 to 0 and 1 to 1, the sigmoid type (109) maps 0, 1/2 and 1 to themselves.",
 ["inputs"], "every type, regular parameter vectors, inputs on every segment away from breakpoints",
 "The evaluator has no test.",
 [PC], [("default_eval_parametric_fn, positive and negative types", PC), ("sigmoid_factory, inverted_sigmoid_factory", PC)], [], ["composition of the two evaluations"])
prop("C23", "Curve-set lookup finds exactly the declared types",
 "Looking up a curve type in a set returns the position of the first entry declared with that type, treating a negative type as its positive one, and nothing when no entry has it, for every integer and every set of non-negative types. The default set declares types 1 to 8, 108 and 109 with the parameter counts of lcms2, and for each of them, and its reversed type, the evaluator needs no more parameters than declared, ignores any further ones, and each declared parameter has an influence on the curve.",
 ["inputs", "configurations"], "all 2^32 type numbers; arbitrary sets with duplicates, zero and extreme ids; each declared type",
 "Curve sets have no test.",
 [PC], [("ParametricCurves::is_in_set, Default for ParametricCurves", PC)], [("curves", "declared (type, parameter count) pairs", PC)], ["is_in_set, curves"])
prop("C24", "A plugin chain is accepted exactly when every plugin in it is valid",
 "Registering a plugin chain succeeds if and only if each plugin of the chain, the last included, has the plugin magic, needs no newer version than the library's and has a known plugin type. Otherwise it fails with a text that describes the first offending plugin, and the context stays usable and unchanged for later registrations.",
 ["inputs", "histories"], "every chain length, every position of one or more defects, every version around the library's, every type signature, sequences of registrations on one context",
 "Registration has no test.",
 ["src/state/context.rs", "src/plugins/plugin.rs", "src/types/signatures/plugin_type.rs"], [("Context::init_plugin", "src/state/context.rs")], [], ["result of Context::init_plugin"])
prop("C25", "Contexts are independent and keep their user data",
 "A context returns exactly the user data it was created with, for its whole life, whatever is opened, registered or reported with it or with any other context. A clone starts with the same data and configuration and is independent from then on; dropping one context never affects another.",
 ["histories"], "every history of creation, cloning, dropping, opening, registration and error reports over several contexts and threads",
 "No test creates a context with data, clones one or uses two.",
 ["src/state/context.rs"], [("Context::new, get_user_data, derive(Clone)", "src/state/context.rs")], [("user_data", "caller's bytes", "src/state/context.rs")], ["get_user_data and debug output of every live context"])
prop("C26", "Opens and handlers leak nothing, and memory is bounded",
 "Every open, successful or not, holds at most one file descriptor, and after its profile (or file handler) is dropped or closed no descriptor and no heap memory remains. The memory used while opening stays below a fixed bound that does not depend on the file's length or on any count, size or offset claimed inside it.",
 ["histories", "inputs"], "every mix of successful and failed opens, drops and closes; contents with hostile counts and sizes; huge files",
 "A leak or an oversized allocation is invisible to an assertion on one result.",
 [PR, "src/io/file_file.rs"], [("Profile owns its handler in a Box", PR), ("no allocation from file-controlled sizes", PR)], [], ["descriptor table, live and peak heap bytes of a counting allocator"])
prop("C27", "The safe API has no undefined behaviour",
 "No sequence of calls to the library's safe functions, on any input, performs undefined behaviour: no out-of-bounds, misaligned or use-after-free access, no read of uninitialised memory, no invalid value, no data race.",
 ["inputs", "histories", "schedules"], "every use of the unsafe code (byte/struct conversions, number conversions, profile ID) from safe code",
 "Undefined behaviour need not change a result that a test asserts.",
 ["src/types/icc_header.rs", "src/types/tag_entry.rs", "src/types/profile_id.rs", "src/io/io_handler.rs"],
 [("unions and transmutes between plain-old-data types of equal size", "src/types/icc_header.rs")], [], ["Miri, AddressSanitizer and MemorySanitizer reports"])
prop("C28", "Header and tag-entry images convert both ways without loss",
 "Decoding any 128 bytes as a header, or any 12 bytes as a tag entry, and encoding the result gives the same bytes back, and encoding any value and decoding it gives the same value. Each decoded field is the big-endian number at its ICC offset (little endian with the little-endian option), for all fields including CMM type, platform, illuminant and the reserved bytes.",
 ["inputs", "configurations"], "all byte images and all field values; both configurations",
 "Only one direction of one image is exercised by a test.",
 ["src/types/icc_header.rs", "src/types/tag_entry.rs"], [("ICCHeaderConverter, TagEntryConverter", "src/types/icc_header.rs")], [], ["converted values and bytes"], "cfg lcms2_vp=\"convert\"")
prop("C29", "Published constants equal those of lcms2",
 "Every published signature (tags, tag types, colour spaces, profile classes, platforms, technologies, stages, curve segments, plugin types, markers), error code number, limit and default (version, table sizes, infinities, alarm codes, adaptation state) equals the constant of the same meaning in the lcms2 2.13 headers. Within each group two different names share a value only where lcms2's do.",
 ["configurations"], "each of the published constants",
 "Tests use four of the constants; a wrong one makes tags of real files unrecognisable.",
 ["src/types/signatures.rs", "src/types/signatures/tag.rs", "src/types/signatures/tag_type.rs", "src/types/signatures/color_space.rs", "src/types/signatures/technology.rs", "src/types/signatures/profile_class.rs", "src/types/signatures/platform.rs", "src/types/signatures/stage.rs", "src/types/signatures/plugin_type.rs", "src/state/chunks/error_handler.rs", "src/types.rs", "src/lib.rs"],
 [("constants", "src/types/signatures.rs")], [], ["values of the constants"])
prop("C30", "Plain values compare and print by their whole content",
 "Two headers, tag entries, dates, XYZ numbers, signatures or profile IDs are equal exactly when all their fields are (reserved bytes and all sixteen bytes of an ID included, through whichever view it was filled; floating-point fields as floats), whatever the values: comparing is symmetric, a copy equals its original unless it holds a NaN. Printing one for debugging never fails, equal values print the same (zeros of different sign aside) and different ones differently (NaNs aside). Error codes compare and are ordered as their numbers.",
 ["inputs"], "all pairs of values: equal ones, ones that differ in any single bit of any field, exchanged fields and bytes, extreme values",
 "No test compares two headers, entries or IDs that differ; equality of profiles rests on these.",
 ["src/types/icc_header.rs", "src/types/tag_entry.rs", "src/types/profile_id.rs", "src/types/date_time_number.rs", "src/types/encoded_xyz_number.rs", "src/types/cie_xyz.rs", "src/types/signature.rs", "src/state/chunks/error_handler.rs"],
 [("PartialEq and Debug of ProfileID", "src/types/profile_id.rs"), ("derive(PartialEq, Debug) of the other values", "src/types/icc_header.rs")], [], ["results of ==, != and debug output"])
prop("C31", "Plugin data says of which kind it is",
 "For every plugin data, whatever its content (numbers of functions, empty or long descriptions, either form of a transform factory) and whatever was registered with it, exactly the predicate of its own kind is true and all others are false.",
 ["inputs"], "all kinds of plugin data with all contents; before and after registration",
 "The predicates have no test.",
 ["src/plugins/plugin.rs"], [("PluginType::is_interpolation and the other eight", "src/plugins/plugin.rs")], [], ["results of the nine predicates"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
