"""mutual pointers"""
import random
import vf
import scn


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    exe = vf.harness("mutual")
    r = random.Random(vf.SEED)
    s = vf.generate("MutualPtrMC", "MutualPtrMC", ctx, workers=6, timeout=500)
    lines = []
    for q in scn.pick(r, scn.maximal(s, lambda o: (o["op"], o["a"], o["b"])), 20000 if deep else 3000):
        lines += ["reset"] + [f"{o} {a} {b}" for o, a, b in q]
    ops = ["construct", "destroy", "pair", "unpair", "mconstruct", "massign"]
    for _ in range(2000 if deep else 200):
        lines.append("reset")
        for _ in range(40):
            a, b = (r.choice([1, 2, 3, 4, 5, 11, 12, 13, 14]) for _ in range(2))
            op = r.choices(ops, [3, 1, 4, .5, 1, 2])[0]
            lines.append(f"{op} {a} {r.randint(1, 19) if op == 'construct' else b}")
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return vf.record(ctx, exe, [], trace, stdin="\n".join(lines) + "\n")
    vf.validate(ctx, "MutualPtrTrace", "MutualPtrTrace", rec(), parts=8, rerecord=rec)
    ctx.require(*ops)
