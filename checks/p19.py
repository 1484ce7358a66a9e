"""geometry files"""
import random
import vf
from checks.p18 import queries, pt

LIBS = ("-lTKMath", "-lTKernel", "-lTKBRep", "-lTKTopAlgo", "-lTKSTEP", "-lTKXSBase", "-lTKIGES", "-lTKG3d")


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def polygon(r, n, big):
    if n == 2:
        p = [[r.randint(0, big), r.randint(0, big)]]
        for _ in range(r.randint(1, 4)):
            q = [min(big, max(0, x + r.randint(-3, 3))) for x in p[-1]]
            if q != p[-1]:
                p.append(q)
        return p if len(p) > 1 else polygon(r, n, big)
    while True:
        a, b, c = ([r.randint(0, big) for _ in range(3)] for _ in range(3))
        if any(cross([y - x for x, y in zip(a, b)], [y - x for x, y in zip(a, c)])):
            d = [x + z - y for x, y, z in zip(a, b, c)]
            if r.random() < .5 and all(0 <= x <= big for x in d):
                return [a, b, c, d]
            return [a, b, c]


def box(r, big):
    lo = [r.randint(0, big - 1) for _ in range(3)]
    hi = [r.randint(x + 1, big) for x in lo]
    faces = []
    for d in range(3):
        for s in (lo, hi):
            f = []
            for i, j in ((0, 0), (1, 0), (1, 1), (0, 1)):
                p = [0, 0, 0]
                p[d], p[(d + 1) % 3], p[(d + 2) % 3] = s[d], (lo, hi)[i][(d + 1) % 3], (lo, hi)[j][(d + 2) % 3]
                f.append(p)
            faces.append(f)
    return faces


def scenario(r, n, fmt, k):
    big = 5
    scale = r.choice([1, .125, 8, .001, .01, 30])
    off = [r.choice([0, 0, -3.5, .7]) for _ in range(n)]
    param = 1.
    if fmt == "stl":
        param = r.choice([1, 1, .001, .0254, 1000])
    elif fmt == "stlb":
        scale, off, param = r.choice([1, .125, 8, 64]), [0] * n, r.choice([1, 1, .25, 1024])
    elif fmt == "csv":
        param = r.choice([0, 1])
    elif n == 2:
        param = r.choice([1, 2, 3, 5, 7])
    else:
        param = r.choice([0, .1, .5])
    located = r.choice([0, 1, 2]) if fmt in ("step", "iges") else r.choice([0, 1])
    n_group = 1 if fmt == "csv" else r.choice([1, 2, 3])
    groups, first, verts = [], None, []
    for g in range(n_group):
        if located == 2 and g:
            polys = first
        elif n == 3 and r.random() < .4:
            polys = box(r, big)
        else:
            polys = [polygon(r, n, big) for _ in range(1 if fmt == "csv" else r.choice([1, 2, 4]))]
        first = first or polys
        turn = r.randrange(4) if located else 0
        shift = [r.randint(0, 3) for _ in range(n)] if located else [0] * n
        if turn in (1, 2):
            shift[0] += big
        if turn in (2, 3):
            shift[1] += big
        c, s = ((1, 0), (0, 1), (-1, 0), (0, -1))[turn]
        verts += [[x + y for x, y in zip([c * v[0] - s * v[1], s * v[0] + c * v[1]] + v[2:], shift)] for p in polys for v in p]
        groups.append(f"{turn} {pt(shift)} {len(polys)} " + " ".join(f"{len(p)} " + " ".join(map(pt, p)) for p in polys))
    return [f"reset {n} {scale} {pt(off)} {r.choice([0, 1])} 1 file {fmt} {located} {r.choice([0, 1])} {param} {n_group} " + " ".join(groups)] + queries(r, n, 8, k, 3, verts)


def table(r):
    w = r.randint(1, 4)
    rows = []
    for _ in range(r.randint(1, 5)):
        k = w if r.random() < .9 else max(1, w + r.choice([-1, 1, 2]))
        rows.append(",".join(r.choice(["x", ""]) if r.random() < .03 and k > 1 else str(r.randint(-999, 999)) for _ in range(k)))
    if r.random() < .2:
        rows.insert(r.randint(1, len(rows)), "-")
    return [f"csv {' '.join(rows)}"]


def run(ctx):
    deep = vf.TIER == "thorough"
    exe = vf.harness("geomfile", libs=LIBS)
    r = random.Random(f"{vf.SEED}-geomfile")
    scns = []
    for n, fmt in [(2, "csv"), (2, "step"), (2, "iges"), (3, "stl"), (3, "stlb"), (3, "step"), (3, "iges")]:
        scns += [scenario(r, n, fmt, 12) for _ in range(400 if deep else 40)]
    scns += [["reset 1 1 0 0 1 sphere 0 1"] + [t for _ in range(20) for t in table(r)] for _ in range(50 if deep else 5)]
    r.shuffle(scns)
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return vf.record(ctx, exe, [], trace, stdin="".join("\n".join(s) + "\n" for s in scns))
    vf.validate(ctx, "SurfGeomTrace", "SurfGeomTrace", rec(), parts=8, rerecord=rec)
    ctx.require("near", "inter", "csv")
