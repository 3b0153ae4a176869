"""Exhaustive check of spec/GrpcCodec.tla (two streams, every cut of the bytes at the positions that matter,
frames that cannot be decoded) to a bounded depth plus random longer histories with three streams and larger
messages, replayed on real encoders and decoders that share a thread.  Message contents are sampled."""
import vk, ws

MATCH = "Match(a, b) == TRUE\nMatchOp(op, a, b) == Match1(op, a, b)"


def run(ctx):
    drv = ws.build(["drv-codec"])["drv-codec"]

    def part(name, what, cfgs, lens, sent, bad, depth, limit, sim):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(dict(enc=e, dec=d, init=i)) for e, d, i in cfgs) + "}"), Lens=set(lens), MaxSent=sent, Bad=set(bad))
        tests = []
        if depth:
            tests += vk.explore(ctx, "GrpcCodec", c, depth, limit=limit, name="MC" + name)
        if sim:
            tests += vk.behaviours(ctx, "GrpcCodec", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8)
        vk.conform(ctx, "GrpcCodec", c, ev, what, name="TR" + name, match=MATCH, parallel=8)

    allbad = ["garbage", "crc", "block", "proto", "zproto"]
    part("a", "one stream, every cut", [(["less"], [True], 3), (["none"], [False], 0), (["ful"], [True], 99)], {0, 1, 97, 98}, 3, {"crc"},
         ctx.pick(4, 5), ctx.pick(2500, 30000), None)
    part("b", "two streams", [(["less", "less"], [True, True], 2), (["less", "none"], [True, False], 99)], {3, 150}, 2, {"crc", "garbage"},
         ctx.pick(4, 6), ctx.pick(2500, 30000), None)
    part("c", "three streams", [(["less", "less", "ful"], [True, True, True], 5), (["none", "less", "less"], [True, True, False], 9), (["ful", "less", "none"], [True, True, True], 20)],
         {0, 1, 2, 96, 97, 98, 99, 127, 128, 1000, 16383, 16384, 70000}, 12, set(allbad), None, None, (ctx.pick(1500, 10000), ctx.pick(30, 50)))
    part("d", "large messages", [(["none", "less"], [True, True], 3), (["none", "ful"], [False, True], 9)], {0, 3, 65535, 1100000, 2500000}, 5, {"crc"}, None, None,
         (ctx.pick(25, 300), 12))
