"""surface geometry"""
import itertools
import random
import vf

SCALES = [1, 1, .125, .015625, 8, 64, 1024, .01, 30]


def pt(p):
    return " ".join(map(str, p))


def simplex(r, n, big, w):
    a = [r.randint(0, big) for _ in range(n)]
    v = [a]
    for _ in range(n - 1):
        v.append([min(big, max(0, x + r.randint(-w, w))) for x in a])
    r.shuffle(v)
    return v


def queries(r, n, big, k, near, verts):
    out = []
    for _ in range(k):
        p = [r.randint(0, big) for _ in range(n)]
        if r.random() < .55:
            m = r.choice([-1, -1, -1, 0, 1, 2, 3, 5, 2 * big])
            out.append(f"near {pt(p)} {m} {r.choice([-1, -1, .01, .3, 1, 2.5, 100])}")
        else:
            q = [r.randint(0, big) for _ in range(n)]
            if verts and r.random() < .6:  # through a vertex
                p = r.choice(verts)
            if r.random() < .5:  # along the axes or the diagonals
                d = r.choice([x for x in itertools.product((-1, 0, 1), repeat=n) if any(x)])
                q = [a + b for a, b in zip(p, d)]
            if q == list(p):
                q[r.randrange(n)] += 1
            out.append(f"inter {pt(p)} {pt(q)}")
    return out


def scenario(r, n, many, k):
    big, w = (20, 2 if n == 3 else 3) if many else (8, 8)
    off = [r.choice([0, 0, -3.5, .7, 100]) for _ in range(n)]
    sc = r.choice(SCALES)
    comps, verts = [], []
    n_comp = 1 if many else r.choice([1, 1, 2, 3])
    for _ in range(n_comp):
        kind = "simp" if many else r.choice(["simp", "simp", "sphere"] + ["curve"] * (n == 2))
        if n == 1:
            kind = "sphere"
        if kind == "sphere":
            c = [r.randint(0, big) for _ in range(n)]
            comps.append(f"sphere {pt(c)} {r.randint(1, 4)}")
            verts.append(c)
        elif kind == "curve":
            c = [[r.randint(0, big), r.randint(0, big)]]
            for _ in range(r.randint(1, 8)):
                c.append([min(big, max(0, x + r.randint(-3, 3))) for x in c[-1]])  # may repeat a point
            comps.append(f"curve {len(c)} " + " ".join(map(pt, c)))
            verts += c
        else:
            s = [simplex(r, n, big, w) for _ in range(r.choice([101, 150, 240]) if many else r.choice([1, 1, 2, 4, 9]))]
            comps.append(f"simp {len(s)} " + " ".join(pt(v) for x in s for v in x))
            verts += [v for x in s for v in x]
    nest = r.choice([0, 0, 1, 2])
    return [f"reset {n} {sc} {pt(off)} {nest} {n_comp} " + " ".join(comps)] + queries(r, n, big, k, w, verts)


def run(ctx):
    deep = vf.TIER == "thorough"
    k = 10 if deep else 1
    exe = vf.harness("geom")
    vf.model_check("SimplexTreeMC", "SimplexTreeDeep" if deep else "SimplexTreeMC", ctx, need_actions=("Descend",), workers=4, timeout=800)
    r = random.Random(f"{vf.SEED}-geom")
    scns = []
    for _ in range(250 * k):
        scns.append(scenario(r, r.choice([1, 2, 2, 3, 3]), False, 30))
    for _ in range(30 * k):
        scns.append(scenario(r, r.choice([2, 3]), True, 40))
    r.shuffle(scns)
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return vf.record(ctx, exe, [], trace, stdin="".join("\n".join(s) + "\n" for s in scns))
    vf.validate(ctx, "SurfGeomTrace", "SurfGeomTrace", rec(), parts=8, rerecord=rec)
    ctx.require("near", "inter")
