"""Exhaustive check of spec/ProcessPolicy.tla (values of NUM_CPUS and when they are looked up; panic policies installed one after the other; panics of
every payload on the main thread, other threads and tasks) to a bounded depth plus random longer histories, each run in a process of its own on the real
bd-rt and bd-panic: number of threads, whether the process lives on, its exit code, what is logged and shown."""
import vk, ws

MATCH = """Match(a, b) == b.alive = a.alive /\\ b.r = a.r /\\ b.logs = a.logs /\\ b.shown = a.shown
               /\\ (IF ~a.alive THEN b.n = a.n ELSE IF a.n = -1 THEN TRUE ELSE IF a.n = 0 THEN b.n = b.d ELSE b.n = a.n)"""


def run(ctx):
    drv = ws.build(["drv-base"])["drv-base"]
    c = dict(Cfgs=("tla", "{[x |-> 0]}"), Max=4096, MaxOps=8)
    tests = vk.explore(ctx, "ProcessPolicy", c, ctx.pick(2, 3), limit=ctx.pick(1000, 20000))
    tests += vk.behaviours(ctx, "ProcessPolicy", c, ctx.pick(300, 4000), 8)
    ev = vk.run_driver(ctx, drv, tests, shards=8, args=["process"])
    vk.conform(ctx, "ProcessPolicy", c, ev, "threads and panics", match=MATCH)
