"""Message broker: exactly-once, in-order, unmodified delivery under stress."""
TECHNIQUE = "runtime monitoring: delivery reconciliation of recorded emissions/deliveries under stress, ASan/UBSan/LSan and TSan builds"
NOTE = ("Observes random topologies and schedules of the real broker; a fault that needs a schedule or topology not "
        "reached is missed. Trusts the harness' recording callbacks and the sanitizers.")


def check(ctx):
    ctx.rule = ("one evaluation = one random topology (sources, forwarders, readers; FIFO or slot outputs, duplicated or "
                "shared; event driven or polled with random amounts; buses with backstop) run with real threads to "
                "quiescence and reconciled message by message; distinct = distinct topologies")
    s = ctx.seed * 1000
    ctx.harness("broker", [(s + i, ctx.scale(100, 800), 400) for i in range(8)], leaks=True, timeout=ctx.scale(240, 800))
    ctx.harness("broker", [(s + 50 + i, ctx.scale(8, 60), 3000) for i in range(4)], leaks=True, timeout=ctx.scale(240, 800))
    ctx.harness("broker", [(s + 100 + i, ctx.scale(60, 400), 300) for i in range(8)], variants=("tsan",), timeout=ctx.scale(240, 800))
    ctx.require("rounds", 100)
    ctx.require("deliveries", 50000)
    ctx.require("bus_rounds", 5)
