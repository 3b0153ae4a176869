"""Exhaustive check of spec/SdkMetadata.tla over platforms and colliding application keys, all cases replayed
on the real trait, plus random application maps.  The configuration version is the published one."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-base"])["drv-base"]
    keys = {"config_version", "os", "kind", "sdk_version", "app_id", "OS", "os ", "sdk-version", ""}
    c = dict(Cfgs=("tla", "{[x |-> 0]}"), Keys=keys, Values={"v", ""})
    tests = vk.explore(ctx, "SdkMetadata", c, 2)
    r = ctx.rng
    pool = sorted(keys) + ["model", "locale", "os_version", "app_version", "app_version_code", "device_id", "ünï", "kind2", "sdk_version_", "mobile"]
    for _ in range(ctx.pick(500, 10000)):
        ks = r.sample(pool, r.randint(0, len(pool)))
        tests.append({"cfg": {"x": 0}, "ops": [{"op": "collect", "platform": r.choice(["android", "ios", "pulse", "other"]),
                      "os": r.choice(["linux", "", "ios", "android"]), "kind": r.choice(["server", "", "mobile"]),
                      "version": r.choice(["1.0", "", "0.0.1-beta", "26"]), "app": [[k, r.choice(["", "a", "26", "ios", "\u00fc"])] for k in ks]}]})
    ev = vk.run_driver(ctx, drv, tests, args=["metadata"])
    vk.conform(ctx, "SdkMetadata", c, ev, "SDK metadata",
               match="Match(a, b) == a = {b[i] : i \\in 1 .. Len(b)} /\\ Len(b) = Cardinality(a)")
