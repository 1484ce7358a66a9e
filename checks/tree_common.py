"""scenarios for hexed::Tree: from TLC's exploration of TreeMC, and random larger ones"""
import random
import vf
import scn


def to_lines(s, nd, size, orig, probe):
    out = [f"reset {nd} {size} {' '.join(map(str, orig))}"]
    for op, lv, c, st in s:
        out.append(f"{op} {lv} {' '.join(map(str, c))} {st}")
    return out + ([probe] if probe else [])


def key(o):
    return (o["op"], o["l"], tuple(o["c"]), o["s"])


def random_tree(r, nd, n_ref, max_l, with_probe, fill):
    """random history of refinements, coarsenings, barriers and fills"""
    size = 2.0**r.randint(-2, 3)
    orig = [r.randint(-8, 8)*size/8 for _ in range(nd)]
    leaves, inner = [(0, (0,)*nd)], []
    out = [f"reset {nd} {size} {' '.join(map(str, orig))}"]

    def kids(n):
        return [(n[0] + 1, tuple(2*n[1][i] + ((k >> (nd - 1 - i)) & 1) for i in range(nd))) for k in range(2**nd)]

    def emit(op, n, s=0):
        out.append(f"{op} {n[0]} {' '.join(map(str, n[1]))} {s}")

    for _ in range(n_ref):
        if inner and r.random() < .12:
            n = r.choice(inner)
            emit("unrefine", n)

            def drop(m):
                if m in inner:
                    inner.remove(m)
                    for k in kids(m):
                        drop(k)
                else:
                    leaves.remove(m)
            drop(n)
            leaves.append(n)
        else:
            c = [n for n in leaves if n[0] < max_l]
            if not c:
                break
            n = r.choice(c) if r.random() < .6 else max(c, key=lambda n: n[0] + r.random())
            emit("refine", n)
            leaves.remove(n)
            inner.append(n)
            leaves.extend(kids(n))
        if with_probe and r.random() < .15:
            out.append(f"probe {r.randint(0, 10**6)} 5 12 {max_l + 1}")
    if fill:
        for _ in range(r.randint(1, 3)):
            dens = r.choice([.1, .25, .4])
            for n in leaves:
                if r.random() < dens:
                    emit("status", n, r.choice([0, 0, 0, 7, -3]))
            for _ in range(r.randint(1, 4)):
                emit("fill", r.choice(leaves) if r.random() < .6 or not inner else r.choice(inner), r.choice([1, 2, 5, 0]))
            if r.random() < .5:
                emit("clear", r.choice(inner + [(0, (0,)*nd)]))
            if r.random() < .5 and inner:
                n = r.choice([m for m in leaves if m[0] < max_l] or leaves)
                if n[0] < max_l:
                    emit("refine", n)
                    leaves.remove(n)
                    inner.append(n)
                    leaves.extend(kids(n))
    if with_probe:
        out.append(f"probe {r.randint(0, 10**6)} 14 30 {max_l + 1}")
    return out


def run(ctx, model_cfgs, n_replay, randoms, probe):
    vf.build()
    exe = vf.harness("tree")
    r = random.Random(vf.SEED)
    lines = []
    for cfg, nd in model_cfgs:
        s = vf.generate("TreeMC", cfg, ctx, workers=6, timeout=500)
        for k, q in enumerate(scn.pick(r, scn.maximal(s, key), n_replay)):
            size = r.choice([1., .5, 4.])
            p = f"probe {r.randint(0, 10**6)} 6 16 5" if probe else ""
            lines += to_lines(q, nd, size, [r.randint(-4, 4)*.25 for _ in range(nd)], p)
    for nd, n_ref, max_l, num in randoms:
        for _ in range(num):
            lines += random_tree(r, nd, n_ref, max_l, probe, not probe)
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return vf.record(ctx, exe, [], trace, stdin="\n".join(lines) + "\n")
    vf.validate(ctx, "TreeTrace", "TreeTrace", rec(), parts=8, rerecord=rec)
