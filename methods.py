"""Technique and assurance per property, for MANIFEST.json."""
S = "Exploration: the property held on every execution run; nothing is proved about others. "
F = "Every fault point of every explored case is injected in turn; the cases themselves are sampled. "
R = "Trusts the reference model in the driver and the compilers' sanitizers."
M = "runtime monitoring: random histories on the real code under ASan/UBSan/LSan and as built for release, "
METHODS = {
    "C01": (M + "online comparison of every live value with a reference value after each step", S + R),
    "C02": (M + "online comparison with std::string", S + R),
    "C03": ("sanitizers (ASan, LSan, UBSan, library assertions, element lifetime tracker) over every driver's hostile workload, debug and release, with and without platform features", S + "Sees what the sanitizers see; reads inside a block's spare capacity are left to the content oracles."),
    "C04": (M + "search and comparison results against a direct specification", S + R),
    "C05": (M + "hash of each value against the hash of a fresh equal value and a history-wide table", S + R),
    "C06": (M + "C-string views, copies and iterations against the reference bytes", S + R),
    "C07": (M + "slices against a 128-bit reference of the documented rule", S + R),
    "C08": (M + "token operations against direct specifications, CPU-time watchdog for termination", S + R),
    "C09": (M + "exceptions against position validity, unchanged state after a throw", S + R),
    "C10": (M + "online comparison with std::vector and an element lifetime monitor", S + R),
    "C11": (M + "online comparison with std::map, colliding hash functions", S + R),
    "C12": (M + "independent base64 codec, guard bytes and exact allocations", S + R),
    "C13": (M + "online comparison with a buffer-and-cursor model", S + R),
    "C14": ("runtime monitoring with system-call interception: each call fails in turn, contents, results, permissions and descriptors checked", F + "Trusts the link-time interception to see the library's calls."),
    "C15": ("runtime monitoring with system-call interception: target inspected after every call, crash at every call, each call fails in turn, order of fsync/chmod/rename checked online", F + "Durability is judged by call order, not by power loss."),
    "C16": ("runtime monitoring with system-call interception: histories with each call failing in turn, then directory, descriptors and results checked", F + R),
    "C17": ("ThreadSanitizer, ASan and release stress with barrier-released rounds; per-handle reference values", S + "Schedules are sampled; TSan judges happens-before on those that ran."),
    "C18": ("runtime monitoring: allocator hook searches every released buffer for the secret bytes", S + "Observes operator delete; storage given up by growth is outside the promise."),
    "C19": (M + "exact allocations between guard bytes, direct specification", S + R),
    "C24": (M + "lock-step comparison with vsnprintf and std::string stream input/output", S + R),
    "C25": ("fault injection: every allocation of every operation fails in turn; values, leaks and usability checked", F + R),
    "C26": (M + "owner counts against values whose storage is the same registered heap block", S + R),
    "C20": (M + "recorded handler calls and results against a model of the conversions", S + R),
    "C21": (M + "script and program views of linked variables and recorded hook calls against a model", S + R),
    "C22": (M + "results, error texts and words received by callbacks against a model", S + R),
    "C23": (M + "several interpreters against a model of each one's registry, live-object and allocation balance", S + R),
}
NOT_APPLICABLE = {}
