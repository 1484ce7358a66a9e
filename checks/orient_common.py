"""scenarios for OrientTrace: two or more elements placed so that their faces fit, in every orientation"""
import itertools
from mesh_common import f, rng


def corners(n):
    return list(itertools.product((0, 1), repeat=n))


def warp(r, n):
    """a smooth invertible map of space close to the identity"""
    a = [[r.uniform(-.08, .08) for _ in range(n)] for _ in range(n)]
    b = [[r.uniform(-.04, .04) for _ in range(n)] for _ in range(n)]
    sh = [r.choice([0., .3, -1.2]) for _ in range(n)]
    return lambda p: [p[i] + sh[i] + sum(a[i][j]*p[j] for j in range(n)) + sum(b[i][j]*p[j]*p[(j + 1) % n] for j in range(n) if n > 1) for i in range(n)]


def interp(vals, t):
    """multilinear interpolation of {corner: point}"""
    res = None
    for c, v in vals.items():
        w = 1.
        for ci, ti in zip(c, t):
            w *= ti if ci else 1 - ti
        res = [w*x for x in v] if res is None else [a + w*x for a, x in zip(res, v)]
    return res


def world(n, q, y):
    """position, in the frame of element 0 (the unit cube), of the point with coordinates y in the frame of element 1"""
    d, rot = q["d"], q["rot"]
    x = [None]*n
    for i in range(n):
        j = abs(rot[i]) - 1
        x[i] = (y[j] if rot[i] > 0 else 1 - y[j])
    x[d["i0"] - 1] += 2*d["s0"] - 1
    return x


def place(rl, de, sn, pts):
    return f"place {rl} {de} {sn} " + " ".join(f"{x:.12g}" for p in pts for x in p) + "\n"


def scenario(r, q, rs, cart=False):
    n, d, kind = q["n"], q["d"], q["kind"]
    w = warp(r, n)
    s = f"reset {n} {rs} 1 " + "0 "*n + "1\n"
    z = "0 "*n
    de = 0 if cart else 1
    s += f"add 1 {de} {z}\n"
    if cart:
        w = lambda p: [x*.5 for x in p]
    c0 = {c: w(c) for c in corners(n)}
    if not cart:
        s += place(1, 1, 0, [c0[c] for c in corners(n)])
    i0, s0, i1, s1 = d["i0"] - 1, d["s0"], d["i1"] - 1, d["s1"]
    face = {c: v for c, v in c0.items() if c[i0] == s0}

    def on(y):  # where a point of element 1's frame is; on the face, where the face of element 0 is
        x = world(n, q, y)
        if abs(x[i0] - s0) < 1e-9:
            return interp({c[:i0] + c[i0 + 1:]: v for c, v in face.items()}, x[:i0] + x[i0 + 1:]) if n > 1 else face[(s0,)]
        return w(x)
    if kind == "conf":
        if cart:
            p = [0]*n
            p[i0] = 2*s0 - 1
            s += f"add 1 0 {' '.join(map(str, p))}\n"
            s += f"concar 1 {0 if s0 else 1} {1 if s0 else 0} {i0} 0 0\n"
        else:
            s += f"add 1 1 {z}\n" + place(1, 1, 0 + 1, [on(c) for c in corners(n)])
            s += f"condef 1 0 1 {i0} {i1} {s0} {s1}\n"
        return s
    st = q["str"] or []
    tang = [k for k in range(n) if k != i1]
    split = [k for k, t in zip(tang, st) if not t] if n > 1 else []
    nf = 0
    for half in itertools.product((0, 1), repeat=len(split)):
        if cart:
            # nominal positions of the fine cells
            p = [0]*n
            for k, h in zip(split, half):
                p[k] = h
            p[i0] = 2 if s0 else -1
            s += f"add 2 0 {' '.join(map(str, p))}\n"
        else:
            pts = []
            for c in corners(n):
                y = []
                for k in range(n):
                    if k == i1:
                        y.append(s1 if c[k] == s1 else s1 + .5*(1 - 2*s1))
                    elif k in split:
                        y.append(.5*(half[split.index(k)] + c[k]))
                    else:
                        y.append(c[k])
                pts.append(on(y))
            s += f"add 2 1 {z}\n" + place(2, 1, 1 + nf, pts)
        nf += 1
    st2 = [int(x) for x in st] + [0]*(2 - len(st))
    s += f"conhang 1 0 {nf} {' '.join(map(str, range(1, 1 + nf)))} {i0} {i1} {s0} {s1} {de} {de} {st2[0]} {st2[1]}\n"
    return s
