"""What each check builds and runs."""
SAN = ["-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,shift-base,vptr", "-fno-sanitize-recover=all"]

VARIANTS = {
    # debug mode: assertions on
    "asan14": {"cxx": "clang++", "flags": ["-std=c++14", "-O1"] + SAN, "defs": []},
    # release mode, C++17, without the optional platform features
    "asan17": {"cxx": "clang++", "flags": ["-std=c++17", "-O1", "-DNDEBUG"] + SAN, "defs": ["-DV_NO_MEMMEM", "-DV_NO_MMAP"]},
    # as the project builds it
    "rel": {"cxx": "g++", "flags": ["-std=c++14", "-O2", "-DNDEBUG", "-fstack-protector-all"], "defs": []},
    "rel17": {"cxx": "g++", "flags": ["-std=c++17", "-O2", "-DNDEBUG"], "defs": ["-DV_NO_MEMMEM", "-DV_NO_MMAP"]},
    # under valgrind's memcheck, for uses of uninitialised memory
    "memcheck": {"cxx": "g++", "flags": ["-std=c++14", "-O1", "-include", "memcheck.hpp"], "defs": [],
                 "tool": ["valgrind", "-q", "--tool=memcheck", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no", "--num-callers=10"]},
    "tsan": {"cxx": "g++", "flags": ["-std=c++14", "-O1", "-fsanitize=thread"], "defs": []},
}
WRAPS = ("open open64 openat creat close read write pread pwrite lseek mmap munmap msync ftruncate truncate fsync fdatasync dup fdopen fopen fclose "
         "fwrite fflush fseek ftell fstat stat rename renameat link symlink unlink remove mkstemp mkostemp fchmod chmod").split()
WRAP = ["-Wl,--wrap=" + w for w in WRAPS]
DRIVERS = {
    "strhist": {}, "arrhist": {}, "hashtab": {}, "b64": {}, "cstrings": {}, "stream": {},
    "streamio": {"link": WRAP}, "atomic": {"link": WRAP},
    "giant": {}, "threads": {}, "wipe": {}, "wipethr": {}, "owners": {}, "oom": {"link": ["-Wl,--wrap=malloc", "-Wl,--wrap=free"]}, "textio": {},
    "tclcmd": {"tcl": True, "link": ["-ltcl8.6"]}, "tclvar": {"tcl": True, "link": ["-ltcl8.6"]},
    "tcleval": {"tcl": True, "link": ["-ltcl8.6"]}, "tcllife": {"tcl": True, "link": ["-ltcl8.6", "-Wl,--wrap=Tcl_CreateInterp"]}, "tclsoak": {"tcl": True, "link": ["-ltcl8.6"]},
}
CHECKS = {}


def J(driver, variant, quick, thorough, mode="-", **kw):
    d = {"driver": driver, "variant": variant, "quick": quick, "thorough": thorough, "mode": mode}
    d.update(kw)
    return d


def C(pid, level, rule, jobs, **kw):
    d = {"level": level, "rule": rule, "jobs": jobs}
    d.update(kw)
    CHECKS[pid] = d


STR = ("A case is a random history of 8-57 operations on 2-6 strings (alphabets from two letters to all bytes, lengths 0 to thousands), "
       "each string with a reference std::string; distinct counts pairs (content, owners and capacity before the step, operation).")
ARR = (" An array case is such a history on arrays of int, String, Array<int> or a class that tracks its own lifetime, each with a reference "
       "vector; distinct counts pairs (elements, owners and capacity before the step, operation).")
BIG = " Further cases work on values of more than 2^32 bytes, where any narrowing of a length or position shows."
LIFE = ["lifetime", "leak", "exception"]
READS = ["content", "arg-changed", "index", "iter", "riter", "iterator", "slice", "capacity", "reuse", "reusex", "cstr", "dup", "copy", "tostd", "fromstd"]
SEARCH = ["find", "rfind", "ifind", "rifind", "compare", "equal"]
TOK = ["split", "join", "newsplit", "trim", "chomp", "sub", "subst"]
RANGE = ["range-accepted", "range-rejected"]
NOTE = ["Holds for the executions run, not for all; the reference std::string/vector is the specification."]


def strjobs(mode, w=1.0):
    return [J("strhist", "asan14", int(80000 * w), int(1600000 * w), mode), J("strhist", "asan17", int(40000 * w), int(800000 * w), mode),
            J("strhist", "rel", int(2200000 * w), int(40000000 * w), mode)]


def giant(mode):
    """lengths beyond 2^32; left out where there is not enough memory"""
    return [J("giant", "rel", 1, 8, mode, shards=1, cpu=400, optional=True, env={"MALLOC_PERTURB_": "0"})]


def arrjobs(mode, w=1.0):
    return [J("arrhist", "asan14", int(30000 * w), int(1000000 * w), mode), J("arrhist", "rel", int(360000 * w), int(10000000 * w), mode)]


C("C01", "exploration", STR + ARR, strjobs("XEV", .7) + arrjobs("XEP", .7), keys=LIFE + READS + ["pop", "shift"], assumptions=NOTE)
C("C02", "exploration", STR + BIG, giant("E") + strjobs("BE"), keys=LIFE + READS + ["trim", "chomp"], assumptions=NOTE)
C("C04", "exploration", STR + BIG, giant("S") + strjobs("S"), keys=LIFE + SEARCH, assumptions=NOTE)
C("C05", "exploration", STR + ARR, strjobs("EXO", .6) + arrjobs("EXO", .6), keys=LIFE + ["hash", "key"], assumptions=NOTE)
C("C06", "exploration", STR + BIG, giant("V") + strjobs("OVX"), keys=LIFE + READS, assumptions=NOTE)
C("C07", "exploration", STR + ARR + BIG, giant("L") + strjobs("V", .6) + arrjobs("V", .6), keys=LIFE + READS, assumptions=NOTE)
C("C08", "exploration", STR + BIG, giant("T") + strjobs("T"), keys=LIFE + TOK + ["content", "arg-changed"], assumptions=NOTE)
C("C09", "exploration", STR + ARR + " Positions are drawn around and far beyond both ends." + BIG, giant("R") + strjobs("I", .6) + arrjobs("I", .6), keys=LIFE + RANGE + ["content", "arg-changed"], assumptions=NOTE)
C("C10", "exploration", ARR.strip(), arrjobs("PEX", 2) + [J("arrhist", "asan17", 16000, 1000000, "PEX")], keys=LIFE + READS + SEARCH + RANGE + ["pop", "shift", "join"], assumptions=NOTE)
C("C03", "exploration", STR + ARR + " Hash table, base64, C string, stream, file, text and Tcl drivers are run as for their own properties. The oracles are AddressSanitizer, "
  "LeakSanitizer, UndefinedBehaviorSanitizer, valgrind's memcheck (uninitialised memory), the library's own assertions, the element lifetime tracker and the growth of the heap over thousands of equal operations.",
  [J("strhist", "asan14", 16000, 1000000, "-"), J("strhist", "asan17", 16000, 1000000, "-"), J("arrhist", "asan14", 12000, 800000), J("arrhist", "asan17", 8000, 800000),
   J("hashtab", "asan14", 6000, 300000), J("hashtab", "asan17", 3000, 300000), J("b64", "asan14", 20000, 1000000), J("b64", "asan17", 10000, 500000), J("cstrings", "asan14", 20000, 1000000), J("cstrings", "asan17", 10000, 1000000),
   J("stream", "asan14", 12000, 500000), J("stream", "asan17", 8000, 500000), J("textio", "asan14", 6000, 200000), J("streamio", "asan14", 400, 20000), J("streamio", "asan17", 400, 20000)]
  + [J(d, "memcheck", n, 50 * n, cpu=900) for d, n in (("strhist", 1200), ("arrhist", 800), ("hashtab", 160), ("b64", 1200), ("cstrings", 2400), ("stream", 1600), ("streamio", 240), ("textio", 1200),
                                                        ("tclcmd", 64), ("tclvar", 64), ("tcleval", 64), ("tcllife", 64))]
  + [J(d, "asan14", n, 50 * n, noleak=True) for d, n in (("tclcmd", 600), ("tclvar", 1500), ("tcleval", 1500), ("tcllife", 1200))] + [J("tclsoak", "rel", 380, 19000, noleak=True)],
  keys=["lifetime", "leak", "bounds", "decode-reads-past", "memory-grows", "left-allocated"],
  assumptions=["ASan sees an access outside the allocated block and use after free; a read of spare capacity inside the block only shows in the content oracles of the other properties."])
C("C11", "exploration", "A case is a random history of 10-80 operations on 2-4 tables of String or int keys, hashed normally or into very few buckets, each with a reference std::map; distinct counts pairs (table content, operation).",
  [J("hashtab", "asan14", 6000, 500000), J("hashtab", "asan17", 3000, 250000), J("hashtab", "rel", 60000, 3000000)], assumptions=NOTE)
C("C12", "exploration", "A case encodes and decodes random bytes (all lengths modulo 3, random and standard alphabets) and hostile texts placed against guard bytes and exact allocations, against an independent base64; distinct counts inputs." + BIG,
  giant("B") + [J("b64", "asan14", 40000, 2000000), J("b64", "asan17", 20000, 1000000), J("b64", "rel", 600000, 10000000)], assumptions=NOTE)
C("C13", "exploration", "A case is a random history of 10-69 operations on 2-4 streams against a byte buffer with a cursor; distinct counts triples (content, cursor, operation)." + BIG,
  giant("F") + [J("stream", "asan14", 80000, 2000000), J("stream", "asan17", 40000, 1000000), J("stream", "rel", 800000, 16000000)], assumptions=NOTE)
C("C14", "fault_enumeration", "A case saves or loads one stream; the run is repeated with each of its system calls failing (and with short counts), and every call is recorded; distinct counts (operation, content, failing call, outcome)." + BIG,
  giant("F") + [J("streamio", "asan14", 6000, 400000), J("streamio", "asan17", 6000, 400000), J("streamio", "rel", 20000, 1500000),
   J("streamio", "rel", 1600, 100000, "D", shards=4), J("streamio", "asan14", 400, 20000, "D", shards=4),
   J("oom", "asan14", 4000, 200000, "S"), J("oom", "asan17", 4000, 200000, "S"), J("oom", "rel", 16000, 800000, "S")],
  assumptions=["System calls are intercepted at link time (--wrap) in the library's own object files.", "A file growing or shrinking while it is loaded is not exercised."])
C("C15", "fault_enumeration", "A case commits (or not) one atomic file; the target is inspected after every system call, the process is killed at every call, and each call is made to fail in turn; distinct counts (target state, mode, finish, failing call).",
  [J("atomic", "asan14", 1200, 60000, "T"), J("atomic", "rel", 16000, 600000, "T")],
  assumptions=["Durability is judged from the order of the recorded calls (write, permissions, fsync, rename), not from a real power failure."])
C("C16", "fault_enumeration", "A case is a history of open, write, commit, abort, reopen and destroy on atomic files with system calls failing in turn, then inspection of the directory, the descriptors and the reported results; distinct counts (history, failing call).",
  [J("atomic", "asan14", 2400, 100000, "U"), J("atomic", "rel", 16000, 1000000, "U")],
  assumptions=["When removing the temporary file itself is made to fail, a remaining temporary file is accepted."])
C("C17", "exploration", "A case starts 2-6 threads that edit, copy, slice, hash, convert and destroy their own handles of shared buffers, in free-running histories (H) or in rounds released together by a barrier (R); every handle is compared with its reference; "
  "distinct counts the combinations of operations that ran on one buffer in one round.",
  [J("threads", "tsan", 1500, 60000, "H", par=3, shards=6, det=False), J("threads", "tsan", 1500, 60000, "R", par=3, shards=6, det=False),
   J("threads", "asan14", 1500, 60000, "H", par=3, shards=6, det=False), J("threads", "asan14", 1500, 60000, "R", par=3, shards=6, det=False),
   J("threads", "rel", 6000, 400000, "H", par=3, shards=6, det=False), J("threads", "rel", 6000, 400000, "R", par=3, shards=6, det=False)],
  assumptions=["ThreadSanitizer judges the happens-before order of the schedules that ran.", "C-string views of elements inside one shared array storage, taken from several threads, are out of scope."])
C("C18", "exploration", "A case is a random history of strings holding secret marker bytes; every buffer given back to the allocator is searched just before it is freed; distinct counts (length, capacity, view, way of destruction). In further cases 2-4 threads give up their owners of one buffer at the same moment, 400 times each." + BIG,
  giant("W") + [J("wipe", "rel", 200000, 12000000), J("wipe", "asan14", 40000, 2000000), J("wipe", "rel17", 100000, 6000000),
   J("wipethr", "rel", 240, 12000, par=2, shards=6, det=False), J("wipethr", "asan14", 60, 3000, par=2, shards=4, det=False)],
  assumptions=["A buffer given up by growing or assigning is not covered: the library only promises wiping on destruction.", "operator delete is where storage is given back; a change to another allocation function would have to be followed."])
C("C19", "exploration", "A case calls one helper with sources, destinations and sizes around each other's lengths, in exact allocations between guard bytes, against a direct specification; distinct counts (helper, lengths, size)." + BIG,
  giant("C") + [J("cstrings", "asan14", 60000, 3000000), J("cstrings", "rel", 1200000, 20000000)], assumptions=NOTE)
C("C24", "exploration", "A case mixes formatted constructions (lengths around every power of two to 65536), outputs of owned, shared, sliced and temporary strings, and word/line input from whole or chunked streams in lock step with std::string; distinct counts (kind, length or text, step).",
  [J("textio", "asan14", 40000, 2000000), J("textio", "rel", 400000, 12000000)], assumptions=["Output with a field width and input with width or noskipws are not specified and not exercised."])
C("C25", "fault_enumeration", "A case is a history in which every operation is attempted with its 1st, 2nd, ... allocation failing until it succeeds; distinct counts (operation, failing allocation).",
  [J("oom", "asan14", 48000, 2400000), J("oom", "rel", 600000, 12000000)], assumptions=["Failures come from operator new; elements whose own copying throws are out of scope."])
C("C26", "exploration", "A case is a history of copies, slices, drops, edits and destructions of strings and arrays; after each step the reported owners of every value are compared with the values whose storage is the same registered block; distinct counts (grouping, operation).",
  [J("owners", "asan14", 60000, 3000000), J("owners", "rel", 1000000, 24000000)], assumptions=NOTE)


TCLNOTE = ["Tcl 8.6 itself is trusted; strings with NUL bytes are not exercised."]


def tcljobs(driver, a, r):
    return [J(driver, "asan14", a, a * 50, noleak=True), J(driver, "rel", r, r * 50, noleak=True)]


C("C20", "exploration", "A case registers commands over every parameter and result type in a fresh interpreter and calls them from scripts in random forms (qualified, renamed, aliased, nested, from procs) with values around each type's limits and "
  "right and wrong argument counts; each handler records what it received; distinct counts (command, form, arguments).", tcljobs("tclcmd", 6000, 16000), assumptions=TCLNOTE)
C("C21", "exploration", "A case is a history of links, relinks, unlinks, script reads and writes (direct, upvar, incr, append, array elements, from procs) and program writes over linked variables of every type, with hooks recording old and new values; "
  "distinct counts (type, operation, value).", tcljobs("tclvar", 8000, 24000), assumptions=TCLNOTE)
C("C22", "exploration", "A case is a history of evaluated scripts with known results, loaded script files and stored callbacks invoked with hostile argument texts; distinct counts (operation, script or argument texts).",
  tcljobs("tcleval", 16000, 50000), assumptions=TCLNOTE)
C("C23", "exploration", "A case is a history of creating, replacing, renaming, deleting and calling the same command and variable names in several interpreters, from outside and inside running commands, then destroying them; "
  "handlers, Tcl interpreters and blocks still allocated are compared with a model; operations repeated thousands of times must not take more memory each round; distinct counts (model state, operation).", tcljobs("tcllife", 8000, 24000) + [J("tclsoak", "rel", 570, 28500, noleak=True)], assumptions=TCLNOTE)
