"""What each check builds and how much it simulates."""

COMPONENTS = {
    "real": ["every noarr header included by the harness, from /repo/include, compiled with access instrumentation",
             "oneTBB headers (parallel_for, partitioners, combinable, concurrent containers), libstdc++ parallel "
             "algorithms (PSTL), compiler-generated OpenMP code, libstdc++ containers and streams"],
    "stub": ["libtbb (task spawning, stealing, waiting, contexts, isolation, allocator)", "libgomp (teams, loop "
             "schedules, barriers)", "thread scheduling, mutexes, malloc/free"],
}

def tiers(quick_runs, thorough_runs, quick_time=240, thorough_time=2400):
    return {"quick": {"runs": quick_runs, "time": quick_time}, "thorough": {"runs": thorough_runs, "time": thorough_time}}

CHECKS = {
    "C02": dict(src=["c02.cpp"], parts=8, level="exploration", **tiers(180000, 3000000)),
    "C03": dict(src=["c03.cpp"], parts=8, level="exploration", **tiers(120000, 2000000)),
    "C04": dict(src=["c04.cpp"], parts=8, level="exploration", **tiers(150000, 2500000)),
    "C05": dict(src=["c05.cpp"], parts=8, level="exploration", **tiers(150000, 2500000)),
    "C06": dict(src=["c06.cpp"], parts=8, level="exploration", **tiers(180000, 3000000)),
    "C07": dict(src=["c07.cpp"], parts=8, level="exploration", **tiers(180000, 3000000)),
    "C08": dict(src=["c08.cpp"], parts=8, level="exploration", **tiers(150000, 2500000)),
    "C09": dict(src=["c09.cpp"], parts=4, flags=[], level="exploration", **tiers(180000, 3000000)),
    "C10": dict(src=["c10.cpp"], parts=8, flags=[], level="exploration", **tiers(180000, 3000000)),
    "C11": dict(src=["c11.cpp"], parts=8, flags=[], level="exploration", **tiers(180000, 3000000)),
    "C12": dict(src=["c12.cpp"], parts=8, flags=[], level="exploration", **tiers(120000, 2000000)),
    "C13": dict(src=["c13.cpp"], parts=8, flags=[], level="exploration", **tiers(180000, 3000000)),
    "C14": dict(src=["c14.cpp"], parts=8, flags=[], level="exploration", **tiers(90000, 1500000)),
    "C15": dict(src=["c15.cpp"], parts=3, flags=[], level="exploration", **tiers(180000, 3000000)),
    "C16": dict(src=["c16.cpp"], parts=8, level="exploration", **tiers(90000, 1500000)),
    "C17": dict(src=["c17.cpp"], parts=8, level="exploration", **tiers(90000, 1500000)),
    "C18": dict(src=["c18.cpp"], parts=8, level="exploration", **tiers(120000, 2000000)),
    "C19": dict(src=["c19.cpp"], parts=8, level="exploration", **tiers(120000, 2000000)),
    "C01": dict(src=["c01.cpp"], parts=8, level="exploration", **tiers(180000, 3000000)),
}

NOT_APPLICABLE = {
    'N01': 'a pure function of a structure and an index (compile-time arithmetic), with no schedule, fault, I/O or shared state to simulate; only its use by concurrent workers is decided, by C05 and C11',
    'N02': 'sequential and deterministic by construction; which indices are visited, under any schedule, is decided by C01 and C02',
    'N03': 'a pure function of a structure and an index (compile-time arithmetic), with no schedule, fault, I/O or shared state to simulate; only its use by concurrent workers is decided, by C01, C02 and C05',
    'N04': 'a pure function of a structure and an index (compile-time arithmetic), with no schedule, fault, I/O or shared state to simulate; only its use by concurrent workers is decided, by C01, C05 and C09',
    'N05': 'pure queries of a type and a state that no worker acts upon; nothing to schedule or fail (the queries that workers address memory with, stride_along and offset_along, are decided by C19)',
    'N06': 'a pure value type without shared state; the states that cross thread boundaries are decided by C14 and C16',
    'N07': 'a property of constant evaluation by the compiler; there is no execution to simulate',
    'N08': 'a compile-time property of types; there is no execution to simulate',
    'N09': 'a compile-time property of overload availability; there is no execution to simulate',
}

NOTES = ("No hooks in /repo: the library is header-only and every seam (task runtimes, scheduler, allocator, streams, CUDA "
         "coordinates, memory accesses) lies outside it and is replaced at link time or by compiler instrumentation. "
         "Replay a violation with: python3 check.py PROPERTY --replay FILE")
