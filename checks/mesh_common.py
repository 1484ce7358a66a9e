"""scenarios for the mesh harness (harness/mesh.cpp): seeded random histories of mesh operations"""
import random


def f(x):
    return f"{x:.6g}"


def geom(r, nd, root, orig, kind=None):
    """a surface and a point from which to flood fill"""
    kind = kind or r.choice(["plane", "sphere", "sphere", "compound"] + (["poly"] * 2 if nd == 2 else []) + (["tri"] if nd == 3 else []))
    if nd == 1 and kind == "sphere":
        kind = "plane"
    if kind == "plane":
        d = r.randrange(nd)
        x = orig[d] + root * r.choice([.25, .4, .55, .62, .7, .81])
        start = [o + root * .013 for o in orig]
        return f"plane {d} {f(x)}", start
    if kind == "sphere":
        c = [o + root * r.uniform(.2, .8) for o in orig]
        rad = root * r.uniform(.08, .35)
        return "sphere " + " ".join(map(f, c)) + f" {f(rad)}", [o + root * .007 for o in orig]
    if kind == "compound":
        a, _ = geom(r, nd, root, orig, "sphere" if nd > 1 else "plane")
        b, _ = geom(r, nd, root, orig, r.choice(["sphere", "plane"]) if nd > 1 else "plane")
        return f"compound 2 {a} {b}", [o + root * .007 for o in orig]
    if kind == "poly":
        n = r.choice([3, 4, 5, 6])
        import math
        c = [o + root * r.uniform(.3, .7) for o in orig]
        ph = r.uniform(0, 6.28)
        pts = [[c[0] + root * r.uniform(.1, .3) * math.cos(ph + 6.2832 * i / n), c[1] + root * r.uniform(.1, .3) * math.sin(ph + 6.2832 * i / n)] for i in range(n)]
        pts.append(pts[0])
        return f"poly {n + 1} " + " ".join(f(x) for p in pts for x in p), [o + root * .007 for o in orig]
    if kind == "tri":  # a tetrahedron
        c = [o + root * r.uniform(.35, .65) for o in orig]
        s = root * r.uniform(.12, .3)
        v = [[c[0] + s, c[1] + s, c[2] + s], [c[0] - s, c[1] - s, c[2] + s], [c[0] - s, c[1] + s, c[2] - s], [c[0] + s, c[1] - s, c[2] - s]]
        tri = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]
        return "tri 4 " + " ".join(f(x) for t in tri for i in t for x in v[i]), [o + root * .007 for o in orig]
    raise ValueError(kind)


def header(r, nd, rs=None, gap=1):
    root = r.choice([1., 1., .7, 2.5, 1.3])
    orig = [r.choice([0., 0., -.3, .17, -1.1]) for _ in range(nd)]
    rs = rs or r.choice([2, 2, 3])
    return f"reset {nd} {rs} {f(root)} " + " ".join(map(f, orig)) + f" {gap}\ntree\n", root, orig


def update(r, pref=None, punref=None, maxl=4, boost=0):
    return f"update hash {r.randrange(1 << 30)} {r.choice([0, 10, 25, 40]) if pref is None else pref} {r.choice([0, 20, 50, 80]) if punref is None else punref} {maxl} {boost}\n"


def tree_history(r, nd, steps, maxl):
    s, root, orig = header(r, nd)
    s += f"update hash 1 100 0 {r.choice([1, 2, 2, 3]) if nd < 3 else r.choice([1, 2])} 0\n"
    for _ in range(steps):
        if r.random() < .25:
            s += f"lock hash {r.randrange(1 << 30)} {r.choice([0, 5, 20, 60])}\n"
        s += update(r, maxl=maxl)
        if r.random() < .1:
            s += "cleanup\n"
    return s


def surface_history(r, nd, pre, post, maxl, extra=(), kind=None, gap=1):
    s, root, orig = header(r, nd, gap=gap)
    base = {1: 3, 2: 3, 3: 2}[nd]
    for _ in range(base):
        s += f"update hash 1 100 0 {base} 0\n"
    for _ in range(pre):
        s += update(r, maxl=maxl)
    g, start = geom(r, nd, root, orig, kind)
    s += f"surface {g} " + " ".join(map(f, start)) + "\n"
    for _ in range(post):
        x = r.random()
        if x < .2:
            s += f"lock hash {r.randrange(1 << 30)} {r.choice([0, 5, 20, 60])}\n"
        if x > .85:
            s += "cleanup\n"
        s += update(r, maxl=maxl, boost=r.choice([0, 0, 30, 60]))
        for e in extra:
            if r.random() < .5:
                s += e(r) if callable(e) else e
    return s


def points_history(r, nd, updates=0):
    """surface cells chosen at random around one vertex of a grid, so that every pattern of existing, missing, coarse and fine
    cells meets there"""
    import itertools
    s = f"reset {nd} 2 4 " + "0 " * nd + "0\ntree\n" + "update hash 1 100 0 2 0\n" * 2
    corner = [r.choice([1, 2, 3]) if nd < 3 else 2 for _ in range(nd)]
    around = [tuple(c - o for c, o in zip(corner, off)) for off in itertools.product((0, 1), repeat=nd)]
    split = [c for c in around if r.random() < (.25 if nd == 3 else .35)]
    keep = set()
    if r.random() < .4:  # two cells that may be left are opposite to each other
        a = r.choice(around)
        axes = r.sample(range(nd), r.choice([nd, nd, 2]) if nd > 1 else 1)
        b = tuple(2 * c - 1 - x if d in axes else x for d, (c, x) in enumerate(zip(corner, a)))
        keep = {a, b}
        split = [sorted(keep)[r.randrange(2)]] if r.random() < .75 else [c for c in keep if r.random() < .5]
    if split:
        s += f"update list {len(split)} " + " ".join("2 " + " ".join(map(str, c)) for c in split) + " 0\n"
    prob = .95 if keep else r.choice([.4, .6, .75])
    pts = []
    for c in around:
        if c in keep:
            continue
        if c in split:
            for off in itertools.product((0, 1), repeat=nd):
                if r.random() < prob * r.choice([0, .4, 1]):
                    pts.append([x + (o + .5) / 2 for x, o in zip(c, off)])
        elif r.random() < prob:
            pts.append([x + (.5 if r.random() < .6 else r.choice([.25, .75])) for x in c])
    if not pts:
        pts = [[x + .5 for x in next((c for c in around if c not in split), around[0])]]
    s += f"surface points {len(pts)} " + " ".join(f(x) for p in pts for x in p) + " .01" * nd + "\n"
    for _ in range(updates):
        s += update(r, maxl=3)
    return s


def opposite_history(r, k):
    """two cells of different size which touch at a corner only, in every orientation"""
    pts = [[2.5, 1.75, 1.75], [2.5, 2.5, 1.5], [2.5, 1.5, 2.5], [1.5, 2.5, 1.5], [1.5, 1.5, 2.5], [1.5, 2.5, 2.5]]
    perm = r.sample(range(3), 3)

    def turn(p):
        p = [p[i] for i in perm]
        return [4 - x if k >> i & 1 else x for i, x in enumerate(p)]
    fine = [1 if k >> i & 1 else 2 for i in range(3)]
    return ("reset 3 2 4 0 0 0 0\ntree\n" + "update hash 1 100 0 2 0\n" * 2 + "update list 1 2 " + " ".join(map(str, fine)) + " 0\n"
            + "surface points 6 " + " ".join(f(x) for p in pts for x in turn(p)) + " .01 .01 .01\n")


def rng(seed, what):
    return random.Random(f"{seed}-{what}")


def of_model(nd, scn, rs=2, gap=0):
    """harness input for a history generated by MeshAdaptMC"""
    s = f"reset {nd} {rs} 1 " + "0 " * nd + f"{gap}\ntree\n"

    def cells(xs):
        return f"{len(xs)} " + " ".join(f"{x[0]} " + " ".join(map(str, x[1])) for x in xs)
    for op, a, b in scn:
        s += f"update list {cells(a)} {cells(b)}\n" if op == "update" else f"lock list {cells(a)}\n"
    return s


def freeze(x):
    return tuple(freeze(y) for y in x) if isinstance(x, list) else x


def model_histories(ctx, deep, n, cfgs=((1, "MeshAdaptMC1"), (2, "MeshAdaptMC2"), (3, "MeshAdaptMC3"))):
    """explores MeshAdaptMC exhaustively (checking its invariants) and returns harness inputs for a sample of its histories"""
    import concurrent.futures as cf
    import vf
    import scn
    r = rng(vf.SEED, "model")
    out = []
    with cf.ThreadPoolExecutor(max_workers=3) as ex:
        jobs = [(nd, ex.submit(vf.generate, "MeshAdaptMC", c, ctx, workers=3, timeout=700)) for nd, c in cfgs]
        for nd, j in jobs:
            m = scn.maximal(j.result(), lambda o: (o["op"], freeze(o["a"]), freeze(o["b"])))
            out += [of_model(nd, q) for q in scn.pick(r, m, n)]
    return out


def play(ctx, inputs, spec, parts=8, exe=None, what="", timeout=700, threads="2"):
    import concurrent.futures as cf
    import vf
    exe = exe or vf.harness("mesh")
    trace = f"{ctx.dir}/trace{what}.ndjson"

    def rec():
        # in several processes; the trace is the concatenation
        k = max(1, min(4, len(inputs)))
        with cf.ThreadPoolExecutor(max_workers=k) as ex:
            js = [ex.submit(vf.record, ctx, exe, [], f"{trace}.{i}", stdin="".join(inputs[i::k]), env={"OMP_NUM_THREADS": threads}) for i in range(k)]
            return [x for j in js for x in j.result()]
    return vf.validate(ctx, spec, spec, rec(), parts=parts, rerecord=rec, what=what, timeout=timeout)


def file_history(r, nd, surf, maxl, post, relax=False):
    """a mesh history with a file written and read somewhere; the mesh that was read goes on in parallel"""
    s = surface_history(r, nd, r.choice([0, 1]), r.choice([0, 1, 2, 3]), maxl, extra=("relax 0.5\n",) if relax else ()) if surf else tree_history(r, nd, r.choice([0, 1, 2, 3]), maxl)
    s = s.replace("\ncleanup", "")
    geo = ""
    for ln in s.split("\n"):
        if ln.startswith("surface"):
            geo = " ".join(ln.split()[1:len(ln.split()) - nd])
    if r.random() < .7:
        s += f"adjust {r.randrange(1000)}\n"
    s += "lock hash 0 0\n"  # locks are not stored
    s += f"twin 1 {geo}\n" if geo else "twin 0\n"
    for _ in range(post):
        if r.random() < .2:
            s += f"lock hash {r.randrange(1 << 30)} {r.choice([0, 5, 20, 60])}\n"
        s += update(r, maxl=maxl, boost=r.choice([0, 0, 30, 60]))
    return s
