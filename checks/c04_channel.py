"""Shared memory channel between processes and the allocator below it."""
TECHNIQUE = "runtime monitoring: two-process stress with sequence/content monitors on every entry, killed peers, allocator shadow model, ASan/UBSan/TSan, leftover monitor on shm_open/shmget"
NOTE = ("Both directions of a channel pair under random bursts, sizes from 1 byte to 300 kB around the border between the allocator and SysV "
        "segments, failing callbacks, slow sides and killed processes; allocator with up to 3 threads and 3 collections.")


def check(ctx):
    base = ctx.seed * 1000
    n = ctx.scale(6, 60)
    ctx.harness("mmch", [("chan", base + i, ctx.scale(4000, 8000)) for i in range(n)], timeout=200)
    ctx.harness("mmch", [("kill", base + i, 5000) for i in range(ctx.scale(20, 200))], timeout=100)
    ctx.harness("mmch", [("alloc", base + i, ctx.scale(30000, 120000), i % 2, i % 3 + 1) for i in range(ctx.scale(12, 96))], timeout=200)
    ctx.harness("mmch", [("alloc", base + 500 + i, ctx.scale(5000, 20000), i % 2, 3) for i in range(ctx.scale(4, 24))],
                variants=("tsan",), timeout=200)
    ctx.rule = "one evaluation per channel entry read and per allocation or free; distinct: workloads"
    for k, v in (("channel_entries_read", 20000), ("channel_full", 1), ("channel_callback_errors", 20), ("sysv_segments", 50),
                 ("channel_killed", 10), ("allocations", 50000), ("maintenance", 100)):
        ctx.require(k, v)
