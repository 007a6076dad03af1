"""property -> (check, cargo features, assumptions, technique)"""
from . import runners, laws, measurers, allocator, ring, units, reports, tale

A = ["user closures are scripts that spend virtual time and allocate through the global allocator",
     "elapsed time is what the interposed monotonic clock says"]
T = "TLA+ specification of the %s (TLC); its behaviours replayed on the real code, recorded traces validated by TLC against it"
L = ["measurements exactly on the border of two classes may get either", "logarithms of sizes that aren't powers of two are enclosed to a thousandth"]
R = ["threads interleave at atomic operations, between which they run alone (what they may see of each other's memory is the matter of C17)",
     "references to delivered elements are used before other elements overwrite them"]
STD, ASY, CRUD = T % "synchronous runner", T % "asynchronous runner", T % "CRUD runner"
CHECKS = {
    "C01": (runners.c01, (), A, STD),
    "C02": (runners.c02, (), A, T % "synchronous and asynchronous runners"),
    "C03": (runners.c03, (), A, ASY),
    "C04": (runners.c04, (), A, ASY),
    "C05": (measurers.c05, (), ["closures of the measurers are scripted"], T % "custom measurers"),
    "C06": (runners.c06, (), A, CRUD),
    "C07": (runners.c07, (), A, CRUD),
    "C08": (runners.c08, (), A, CRUD),
    "C09": (runners.c09, (), A, CRUD),
    "C10": (laws.c10, (), L, T % "growth laws, in exact arithmetic"),
    "C11": (laws.c11, (), L, T % "growth laws, in exact arithmetic"),
    "C12": (allocator.c12, (), ["requests for nearly the whole address space are the ones the system refuses"], T % "metered allocator"),
    "C13": (allocator.c13, (), ["single threaded: see C14 for concurrency"], T % "metered allocator and its save points"),
    "C14": (ring.c14, (), ["threads interleave at atomic operations", "weaker-than-sequential outcomes of relaxed atomic operations aren't executed"],
            T % "metered allocator, one atomic step at a time, and of the histories its users may see"),
    "C15": (ring.c15, (), R, T % "ring buffer, one atomic step at a time, and of the histories its users may see"),
    "C16": (ring.c16, (), R, T % "ring buffer, one atomic step at a time, and of the histories its users may see"),
    "C17": (ring.c17, (), ["weaker-than-sequential outcomes of relaxed atomic operations aren't executed: their lack of synchronization is what gets judged"] + R[1:], T % "ring buffer, with the happens-before its atomic operations establish"),
    "C18": (runners.c18, (), A, T % "synchronous, asynchronous and CRUD runners with failing closures"),
    "C19": (reports.c19, (), ["what was in use when a pass started or ended is within its extremes", "passes of at least one element"], T % "contents of reports, in exact arithmetic"),
    "C20": (runners.c20, (), A, CRUD),
    "C21": (units.c21, (), ["values are non-negative and finite; durations, shorter than three months"], T % "presentation of quantities, in exact arithmetic"),
    "C22": (tale.c22, (), A + ["other combinations of the features behave as the ones that are built"], T % "runners and of what they tell, for each build"),
    "C23": (tale.c23, (), A + ["texts are reduced to the pieces of information they hold"], T % "runners and of what they tell"),
}

# reach private parts of the crate
HOOKED = {"C04", "C05", "C14", "C15", "C16", "C17", "C21"}
