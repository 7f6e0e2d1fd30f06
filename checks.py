"""The table of checks: property -> runs of the harness, level, rule, assumptions, technique, level note."""


class R:
    """One run of the harness: a variant, a cargo profile and arguments."""

    def __init__(self, variant, profile="checked", args=(), timeout=None, props=None, tiers=("quick", "thorough"), tier=None, threads=None, env=None, sanitizer_only=False, parallel=False):
        self.variant, self.profile, self.args, self.props, self.tiers = variant, profile, list(args), props, tiers
        self.tier, self.threads, self.env, self.parallel = tier, threads, env or {}, parallel
        self.sanitizer_only = sanitizer_only
        self.timeout = timeout

    def name(self):
        return self.variant + "/" + self.profile + ("/full" if "--full" in self.args else "") + ("/" + self.props if self.props else "")


def both(variant, scale=40):
    """With every debug assertion and overflow check on, and a smaller number of cases as users build it."""
    return [R(variant), R(variant, "release", ["--scale", str(scale)])]


def full(variant):
    return [R(variant, "release", ["--full"], tiers=("thorough",))]


CHECKS = {}
TRUST = "The oracle is a model written from the ICC layout and the lcms2 sources, not from the code under test; "
DICT = "the integers, floats and texts that occur as literals in the library's source are mixed into the inputs, next to fixed boundary values; "


def c(prop, technique, note, runs, rule, assumes, level="exploration", **kw):
    CHECKS[prop] = dict(runs=runs, level=level, rule=rule, assumes=assumes, technique=technique, note=note, **kw)


ENV = "The kernel's file system behaves as documented (scratch files live in /dev/shm)."
X86 = "Run on x86-64 (64-bit usize, little endian); other targets are not observed."
PROFILE = (
    "Each case is one profile file: noise, truncations and byte mutations of the repository's own test profile, and structured files "
    "(valid or defective header, tag count 0..100 and hostile counts, entries inside, at and beyond the bounds, sums that only fit modulo 2^32, aliased entries, "
    "sparse files beyond 4 GiB); " + DICT + "a case is distinct by the hash of content and length. "
)

c("C01", "panic/abort/hang monitor over generated profiles (debug-checked and optimised builds)",
  "Runtime observation: every open and query of some million generated files is bracketed by a panic catcher, a crash record and a per-thread processor-time watchdog. Assurance is for the inputs executed; assumes the generator reaches the interesting branches (counters in the evidence).",
  both("plain") + [R("le", args=["--scale", "20"])], PROFILE + "Plus every prefix of well-formed files, and unusual paths (missing, directories, empty, embedded NUL, devices, sockets; a good profile under dozens of names: odd extensions, not UTF-8, of maximal length, words of the source). Both entry points; all queries at indices around the tag count, powers of two and the maximum.", [ENV, X86])
c("C02", "online comparison of probed header fields with an independent decoder",
  "Every header field of opened profiles is read through a guarded probe and compared with an independent big-endian decoder; single-byte sweeps check that other bytes have no influence.",
  both("probe"), PROFILE + "Plus sweeps of every value of every header byte, and pairs of profiles that differ in one header byte.", [ENV, X86, "The guarded probe (cfg lcms2_vp=\"probe\") copies the fields faithfully."])
c("C03", "online comparison of the recorded tag directory with an independent model in exact arithmetic",
  "The complete tag table (all 100 slots) of opened profiles is compared with a model that uses 64-bit arithmetic.",
  both("probe"), PROFILE + "Sizes and lengths cluster at the bounds.", [ENV, X86, "The guarded probe copies the table faithfully."])
c("C04", "online comparison of accept/reject and error kind with an independent recogniser",
  "Every open is judged by an independent recogniser of well-formed profiles, both for success and for the kind of error.",
  both("plain") + [R("le", args=["--scale", "20"])], PROFILE + "Plus: all month/day, hour/minute/second combinations, all tag counts up to 130 with files cut around the end, all prefixes, all single-bit and single-byte changes of the magic number, all values of each header byte. Hundreds of paths that the system cannot read (missing, below files, loops, too long, sockets, directories, forbidden ones as another user, words of the source) are compared with the system's own error.", [ENV, X86])
c("C05", "online comparison of tag links and searches with an independent model",
  "Links and all searches (with and without following links) of opened profiles are compared with a model; termination is watched per case.",
  both("search"), PROFILE + "Most effort goes into directories with aliased entries (same offset and size, offset only, size only) and repeated signatures.", [ENV, X86, "The guarded accessors (cfg lcms2_vp=\"search\") only call the library's own search."])
c("C06", "differential monitor: the same content opened again, elsewhere, by other contexts and after other opens",
  "Pairs and histories of opens are compared with each other and with the model's equality.",
  both("plain") + [R("le", args=["--scale", "10"])], PROFILE + "Each case opens two contents (equal, or differing by one change whose effect on the recorded fields the model knows) by different entry points, contexts, paths, links and after different histories; for one file all single-bit changes are tried. Half of the later opens use one of some sixty names of the file (extensions, hidden, maximal, not UTF-8, words of the source, deep, relative and winding paths), contexts carry user data, and other library calls (write opens, failed opens, registrations, reports, clones) come in between. Some opens happen while others hold locks on the files, and thousands of profiles are held at once. The same files are also opened by child processes under other environments (variables, those that the source names among them, users, umask, time zone, resource limits, working directories) and with other times and modes, and after modifications that restore the time stamps.", [ENV, X86])
c("C07", "stress with injected delays and faults-free system-call noise, ThreadSanitizer, and comparison with the sequential result",
  "Up to 16 threads open good and malformed files through the global context and contexts of their own, with barriers, delays injected at system calls, and under ThreadSanitizer; every result is compared with what the call gives alone. Interleavings are sampled, not enumerated.",
  [R("plain"), R("plain", "release", ["--scale", "60"]), R("sys", args=["--scale", "60"]), R("tsan", args=["--scale", "12"])],
  "A case is one round: all threads leave a barrier together and make 24 opens each (all on one file, mostly malformed, mixed, while holding profiles, with write opens); distinct by round and thread scripts; half of the opens use relative paths or files of the same name in other directories. The counters show how many calls were inside the library at once. Bursts of fresh processes race their first uses of the library (lazily initialised state).",
  [ENV, X86, "Race detection is ThreadSanitizer's happens-before detection on the executed schedules."], functional_too=True)
c("C08", "file-system snapshot monitor around opens, uses and drops",
  "A complete snapshot (names, types, bytes, lengths, modification times, link targets) of the directory is taken before and after; one variant also records every system call of the process that changes a file system anywhere; the home and temporary directories are compared at the end.",
  both("plain") + [R("sys", args=["--scale", "40"])], PROFILE + "Directories with neighbours whose names lie close to the opened one; missing paths, directories, links, read-only files; opens by root and by an unprivileged user.", [ENV])
c("C09", "file-system snapshot monitor and probe of the returned profile for write opens",
  "The directory is compared with the expected one after every write open, and the returned profile with the defaults; its creation date has to lie in the time span of the open, in UTC (the process runs in another time zone).",
  both("probe"), "Each case is one write open: over nothing, files of any content and length, links, directories, missing parents, refused permissions, over-long names, loops, sockets; files with modes that do not bind the privileged, or in use or locked by others; histories on the same path; distinct by path kind and previous content.", [ENV])
c("C10", "trace checker over recorded error-handler calls of every context",
  "Every handler records its calls; after each operation the record is compared with the defects the model finds in the input.",
  both("errglob"), PROFILE + "The global context's handler is recorded too. Rejections by opening and by registering plugins, on the global and on other contexts, clones included; one handler replaces itself in the context it is given, which shows whether that is the context in use.", [ENV, "The guarded setter (cfg lcms2_vp=\"errors\") only installs the recording handler."])
c("C11", "model-based histories of reads, writes, seeks and size queries against a byte array",
  "Random histories (with 64-bit extremes) on files, growable and fixed memory handlers, compared step by step with a byte-array model.",
  both("plain", 60), "Each case is a history of up to 60 operations; contents, positions and results are compared after every step; distinct by the operations. One in some hundred moves megabytes at a time. Also files beyond 4 GiB.", [ENV, X86, "After an operation that fails half way the model re-reads the file; how much of a failed transfer happened is not specified."])
c("C12", "model-based histories on the null handler, all short ones included",
  "Random histories with 64-bit extremes, and every history of five (thorough: six) operations from a set of fifteen, compared with a model.",
  both("plain", 60), "Each case is one history; distinct by its operations; the short ones are enumerated completely.", [X86])
c("C13", "byte-exact comparison of typed reads and writes with an independent encoding",
  "All 16-bit values and samples (thorough: all 2^32 patterns) of 32-bit values, and random 64-bit values and arrays, through file and memory handlers, in the default and the little-endian build.",
  both("plain", 60) + both("le", 30) + full("plain") + full("le"), "Each case is one value written or read; distinct by value and helper (enumerated blocks are distinct by construction).", [X86])
c("C14", "comparison of fixed-point reads and writes with exact arithmetic",
  "Samples (thorough: all 2^32) of the bit patterns are read and restored; written floats are compared with exact integer rounding.",
  both("plain", 60) + [R("le", args=["--scale", "30"])] + full("plain"), "Each case is one pattern or one float (ties, neighbours of ties, saturation, infinities, NaN); distinct by bits.", [X86, "One rounding of a double-precision operation is allowed, as the property says."])
c("C15", "fault injection at every handler operation of every typed helper, with a recording handler",
  "For every helper, every operation its undisturbed run makes is failed in turn (once, from then on, and after a partial transfer; 30 kinds of error and all numbers of the operating system); the record of the handler is checked.",
  both("plain", 60) + [R("le", args=["--scale", "30"])], "Each case is one helper, one argument, one failing operation and one way to fail; the operations of each helper are enumerated completely.", [X86], level="fault_enumeration")
c("C16", "system-call fault injection at every call, and short or interrupted transfers",
  "Every system call of every operation is failed in turn with several error numbers, once and from then on; random short and interrupted transfers must not change the result.",
  both("sys", 60), "Each case is an operation (open, read, write, seek, size and typed helpers on files), the number of the system call that fails, and the error; a failing stat call may go unnoticed only if the result is the undisturbed one; the calls of each operation are enumerated completely.", [X86, "Wrappers replace the C library's read, write, pread, pwrite, readv, writev, lseek, fsync, fdatasync, open, openat, close, fcntl (duplication), dup and the stat family; calls made in other ways would not be disturbed."], level="fault_enumeration")
c("C17", "trace checker over the recorded system calls around a close, with failing syncs",
  "The record of write, sync and close calls on the descriptor is checked for the order write, successful sync, one close; failing syncs must surface, whatever their error number.",
  both("sys", 60), "Each case is a history of writes, seeks and queries followed by a close, undisturbed, with short and interrupted calls, or with a failing sync, in many circumstances of the file (opened for appending or synchronously, read-only, unlinked, renamed, linked, cut or extended by others, locked); distinct by history and fault.", ["A successful fsync or fdatasync makes data durable."])
c("C18", "comparison of all helpers with independent byte shuffles, complete for 16 bits",
  "All 16-bit values, samples (thorough: all 2^32) of 32-bit values, random 64-bit values and arrays, in both builds of the option.",
  both("plain", 60) + both("le", 60) + full("plain") + full("le"), "Each case is a value through one helper and back; distinct by value.", [X86])
c("C19", "comparison of signature conversions with an independent model",
  "Numbers (thorough: all 2^32), byte slices, texts with characters cut at byte four, and debug outputs compared for injectivity.",
  both("plain", 60) + full("plain"), "Each case is one number, slice or text through every conversion; all 115 million signatures that are well-formed UTF-8 with a character of more than one byte are enumerated, and so are the debug outputs of all four-byte strings over 28 interesting bytes.", [X86])
c("C20", "comparison of date conversions with an independent calendar, over every day of 65536 years",
  "Every valid day of the years 0 to 65535, every second of chosen days and random calendar times with fractions are converted both ways.",
  [R("plain", "release"), R("plain", args=["--scale", "30"])], "Each case is one date and time converted both ways; days are enumerated completely.", [X86])
c("C21", "interval-checked comparison of the curve evaluator with the lcms2 formulas",
  "Each evaluation is compared with an independent implementation of the lcms2 formula that carries an error bound; comparisons whose outcome lies within rounding are skipped and counted.",
  both("plain", 60), "Each case is a type, parameters (regular, degenerate, hostile, from the literals) and an input (uniform, at and next to the breakpoints, extreme); distinct by bits. Unknown types are sampled over all integers.", [X86, "The formulas are those of lcms2 2.13 (checked once against the C library, see DESIGN.md)."])
c("C22", "round-trip monitor with propagated error bounds",
  "The reversed type is evaluated on the forward result and compared with the input, within a bound that propagates the conditioning of the curve.",
  both("plain", 60), "Each case is a type with regular parameters and an input on a non-constant segment (clustered at the breakpoints and at zero); distinct by bits.", [X86, "Inputs whose propagated error bound is larger than the value are skipped and counted."])
c("C23", "comparison of curve-set lookups with a linear search, and an observing evaluator for the parameter counts",
  "Lookups over random sets and integers (thorough: all 2^32 integers on the default set); for each declared type the parameters are shown to be enough, needed and the only ones used.",
  both("plain", 60) + full("plain"), "Each case is a set (up to 2000 types, a few with more than a million) and a type, or a type with parameters varied one at a time; distinct by bits.", [X86])
c("C24", "comparison of plugin-chain verdicts with an independent validity check",
  "Chains with zero, one and two defects at every position, all plugin types with all kinds of data, versions around the library's, chains of up to 70 000 plugins, shared tails, on contexts that see many registrations.",
  [R("plain"), R("plain", "release", ["--scale", "60"]), R("errors", args=["--scale", "40"])], "Each case is one chain registered on a context with a history; distinct by the chain's fields.", ["The known plugin types are the nine of lcms2."])
c("C25", "model-based histories over several contexts, threads included",
  "Histories of new, clone, drop, register, open and report on up to eight contexts; after every step all of them are compared with their models.",
  [R("errors"), R("plain", args=["--scale","60"]), R("plain", "release", ["--scale", "40"])], "Each case is one history of up to 27 operations; distinct by its script. Also tens of thousands of contexts alive at once, chains of clones, and user data of many megabytes.", [ENV])
c("C26", "descriptor and heap accounting around every operation (counting allocator)",
  "A counting allocator and the descriptor table are read before and after every open, drop and close; the peak during an open is bounded.",
  both("plain") + [R("le", args=["--scale", "20"])], PROFILE + "Hostile counts, sizes and lengths; up to 40 profiles held at once; opens (of small and of very large files) with a single free descriptor; handlers of all kinds.", [ENV, "The bound for one open is 256 KiB."])
# how many times the basic number of cases a quick run makes, where the basic one takes little time
for _p, _f in dict(C01=2, C03=2, C05=2, C06=2, C07=2, C08=3, C09=3, C10=3, C11=10, C12=8, C13=6, C14=5, C15=15, C17=40, C18=4, C19=5, C21=4, C22=2, C23=5, C24=8, C25=2, C28=1).items():
    CHECKS.get(_p, {})["boost"] = _f
ALL = "C01,C04,C06,C07,C08,C11,C12,C13,C14,C15,C18,C19,C20,C21,C22,C23,C24,C25,C26,C30,C31"
MIRI = "C01 C04 C06 C07 C11 C12 C13 C14 C15 C18 C19 C20 C21 C22 C23 C24 C25 C30 C31".split()
c("C27", "AddressSanitizer, MemorySanitizer, ThreadSanitizer and the Miri interpreter over the workloads of the other properties",
  "All workloads run under ASan, MSan and TSan builds (standard library included for the latter two), and small ones under Miri, which also sees invalid values, aliasing and alignment. Only reports of these tools and crashes count.",
  [R("asan", args=["--scale", "2"], props=ALL, tier=None, sanitizer_only=True),
   R("msan", args=["--scale", "1"], props=ALL, sanitizer_only=True),
   R("tsan", args=["--scale", "3"], props="C01,C06,C07,C24,C25", sanitizer_only=True),
   R("asanconv", args=["--scale", "5"], props="C28", sanitizer_only=True)]
  + [R("miri", args=["--budget", "14"], props=p, tier="mini", threads=1, sanitizer_only=True, parallel=True, tiers=("quick",)) for p in MIRI]
  + [R("miriconv", args=["--budget", "14"], props="C28", tier="mini", threads=1, sanitizer_only=True, parallel=True, tiers=("quick",))]
  + [R("miri", args=["--budget", "240"], props=p, tier="mini", threads=1, sanitizer_only=True, parallel=True, tiers=("thorough",)) for p in MIRI]
  + [R("miriconv", args=["--budget", "240"], props="C28", tier="mini", threads=1, sanitizer_only=True, parallel=True, tiers=("thorough",))],
  "The cases of the other properties at reduced scale; distinct as there.", [X86, "The sanitizers see the executions made; uses of the crate's unsafe functions are outside the property."])
c("C28", "round-trip and field-by-field comparison of header and tag-entry images",
  "Random, structured and single-bit-changed images are decoded, compared field by field with an independent decoder and encoded again, in both builds of the byte-order option.",
  both("convert", 60) + both("leconvert", 40), "Each case is one image or one value; distinct by its bytes.", [X86, "The guarded accessors (cfg lcms2_vp=\"convert\") only call the library's own conversions."])
c("C29", "comparison of every published constant with a table of the lcms2 headers",
  "Complete over the published constants: each is read at run time and compared with a table.",
  [R("consts")], "Each case is one constant; the set is complete.", ["The table was written from lcms2 2.13's headers; what the repository's own static C library contains was compared with it."])
c("C30", "pairwise comparison monitor: equality and debug output against the bytes the values were built from",
  "Values are built from byte images; two values have to be equal, and print alike, exactly when the images are. Every single bit of every field is changed on many values.",
  both("plain", 60), "Each case is a pair of byte images taken as every kind of value: equal, differing in one bit (each of the 1024 bits of a header), in one byte, by exchanged bytes or fields, by changes that keep sums and parities, or at random; " + DICT + "distinct by the images.", [X86])
c("C31", "monitor of the nine predicates on plugin data whose kind is known",
  "Every predicate is asked of every data generated, before and after a registration.",
  both("plain", 60), "Each case is one plugin data; distinct by kind and content. Six of the nine kinds can be built from outside the library.", [X86, "Data for tags, tag types and multi-process elements cannot be built through the public interface; their predicates are only seen to be false for other data."])
CHECKS["C31"]["boost"] = 4
