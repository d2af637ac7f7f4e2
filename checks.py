"""Which binaries decide which property."""

MODEL = ["harness/model.c"]
PBT = "property-based testing (generated inputs, reference model, shrinking)"
NOTE = ("Every generated case is decided by an independent oracle; absence of a violation covers the cases explored, "
        "not all. Trusted: the reference model, clang's address sanitizer, and the stand-in allocator.")


def asan(pid, **kw):
    b = {"src": "props/%s.c" % pid.lower(), "mode": "asan"}
    b.update(kw)
    return b


CHECKS = {}


def add(pid, binaries, level="exploration", technique=PBT, note=NOTE, assumptions=()):
    CHECKS[pid] = {"level": level, "technique": technique, "note": note, "binaries": binaries, "assumptions": list(assumptions)}


add("C01", [asan("C01", **{"with": MODEL})])
add("C02", [asan("C02", **{"with": MODEL})])
add("C03", [asan("C03", **{"with": MODEL})])
add("C04", [asan("C04", **{"with": MODEL})])
add("C05", [asan("C05", **{"with": MODEL})])
add("C06", [asan("C06", **{"with": MODEL})])
add("C07", [asan("C07", **{"with": MODEL})])
add("C08", [asan("C08", **{"with": MODEL})])
add("C09", [asan("C09", **{"with": MODEL})])
add("C10", [asan("C10", **{"with": MODEL})])
add("C12", [asan("C12")])
add("C13", [asan("C13")])
add("C14", [asan("C14")])
add("C15", [asan("C15", **{"with": MODEL})])


def plain(src, **kw):
    b = {"src": src, "mode": "plain", "opt": "-O3"}
    b.update(kw)
    return b


add("C16", [asan("C16"), plain("props/c16long.c")])
add("C17", [asan("C17"), plain("props/c16long.c", cflags=["-DCLIENT_QUEUE"])])
add("C18", [asan("C18")])


MT_NOTE = ("Threads of the library run as coroutines under a generated schedule: every memory access and synchronization call may switch. "
           "Explored schedules are a sample, sequentially consistent with happens-before tracking on top. Trusted: the scheduler's model of "
           "mutexes, conditions and atomics, and the sequential reference model.")
MT = "property-based testing of programs and schedules (controlled scheduler, linearizability and happens-before oracles, shrinking)"


def mt(src, **kw):
    b = {"src": src, "mode": "mt"}
    b.update(kw)
    return b


add("C19", [mt("props/c19.c")], technique=MT, note=MT_NOTE)
add("C20", [mt("props/c20.c")], technique=MT, note=MT_NOTE)
add("C11", [mt("props/c11.c")], technique=MT, note=MT_NOTE)
add("C21", [mt("props/c21.c")], technique=MT, note=MT_NOTE)
add("C43", [mt("props/c43.c")], technique=MT, note=MT_NOTE)
add("C32", [mt("props/c32.c")], technique=MT, note=MT_NOTE)
add("C22", [asan("C22"), mt("props/c22mt.c")], technique=MT, note=MT_NOTE)
add("C23", [asan("C23"), mt("props/c23mt.c")], technique=MT, note=MT_NOTE)
add("C24", [asan("C24"), plain("props/c24big.c", opt="-O2", libflags=["-fwrapv"])])
add("C25", [asan("C25"), plain("props/c25big.c")])
add("C26", [asan("C26", opt="-O2")])
add("C27", [asan("C27")])
add("C28", [asan("C28"), mt("props/c28mt.c")], technique=MT, note=MT_NOTE)
add("C29", [asan("C29")])
add("C30", [asan("C30", **{"with": MODEL})], level="fault_enumeration")
add("C33", [asan("C33", **{"with": MODEL})])
add("C34", [asan("C34")])
add("C35", [asan("C35"), mt("props/c35mt.c")], technique=MT, note=MT_NOTE)
add("C36", [asan("C36", opt="-O2")])
add("C37", [asan("C37", **{"with": MODEL})])
add("C38", [asan("C38")])
add("C39", [asan("C39", **{"with": MODEL})])
add("C40", [asan("C40")])
add("C41", [asan("C41")])
add("C42", [asan("C42", **{"with": MODEL})])
add("C44", [asan("C44", **{"with": MODEL})])
add("C31", [asan("C31")])
