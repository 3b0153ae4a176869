"""Exhaustive check of spec/System.tla (the complete SDK built by LoggerBuilder and driven through LoggerHandle, against a server: configurations, flush
requests, connection losses, restarts and kills, re-entrant calls) to a bounded depth plus random longer histories, replayed on the real SDK on a
paused clock; every log the server gets is compared in full with what was logged."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-system"])["drv-system"]
    conf = lambda c="", t="", met="", fire="": dict(c=c.split(), t=t.split(), met=met.split(), fire=fire.split())

    def part(name, what, confs, fam, tags, depth, limit, sim):
        c = dict(Cfgs=("tla", "{[x |-> 0]}"), Confs=("tla", vk.tla(confs)), Tags=set(tags), Fam=set(fam) if fam else ("tla", "{}"))
        tests = vk.explore(ctx, "System", c, depth, limit=limit, name="MC" + name)
        tests += vk.behaviours(ctx, "System", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["sys", vk.json.dumps(confs)])
        vk.conform(ctx, "System", c, ev, what, name="TR" + name, parallel=8)

    part("a", "deliveries", [conf("a", "a b", "b"), conf("*", "", "a"), conf("b", "a c *", "", "c")], ["start"], "abc",
         ctx.pick(4, 5), ctx.pick(350, 40000), (ctx.pick(80, 6000), 25))
    part("b", "public calls", [conf("* a", "a", "b sdk"), conf("sdk upd shot", "* b", "a", "c")], ["log", "call", "state"], "abc",
         ctx.pick(3, 4), ctx.pick(350, 40000), (ctx.pick(80, 6000), 25))
    part("c", "all of it", [conf("a b sdk", "b c upd screen", "b upd", "c"), conf("*", "a", "a b"), conf("a", "", "b"), conf("", "*", "", "c a")],
         ["start", "log", "call", "state"], "abcd", 2, ctx.pick(120, 400), (ctx.pick(80, 20000), 40))
