"""shared vertices"""
import random
import vf
import scn

OPS = "new copy assign destroy smooth share record connect eat nnew ncopy nassign nnull ndestroy".split()
W = [4, 2, 1, 1, 1, 1, 1, 3, 3, 2, 1, 1, .5, 1]


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    exe = vf.harness("vertex")
    r = random.Random(vf.SEED)
    vf.model_check("VertexMergeMC", "VertexMergeMC" if deep else "VertexMergeQuick", ctx, workers=6, timeout=500)
    s = vf.generate("VertexMergeMC", "VertexMergeGenDeep" if deep else "VertexMergeGen", ctx, workers=6, timeout=500)
    lines = []
    for q in scn.pick(r, scn.maximal(s, lambda o: (o["op"], o["a"], o["b"], o["c"])), 20000 if deep else 4000):
        lines += ["reset"] + [" ".join(map(str, o)) for o in q]
    for _ in range(3000 if deep else 300):
        lines.append("reset")
        for _ in range(50):
            o = r.choices(OPS, W)[0]
            hi = 4 if o[0] == "n" and o != "new" else 6
            a, b, c = r.randint(1, hi), r.randint(1, 6), r.randint(-50, 50)
            if o == "new":
                b, c = r.randint(0, 1), r.randint(-9000, 9000)
            if o == "smooth":
                b = r.randint(0, 1)
            if o == "share":
                b = r.randint(-20, 20)
            lines.append(f"{o} {a} {b} {c}")
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return vf.record(ctx, exe, [], trace, stdin="\n".join(lines) + "\n")
    vf.validate(ctx, "VertexTrace", "VertexTrace", rec(), parts=8, rerecord=rec)
    ctx.require(*OPS)
