"""convergence monitors"""
import json
import math
import random
import case_common as cc
import vf


def setup(r, deep):
    q = r.choice([2, 4, 8, 16, 3, 5, 10, 20])
    p = r.randint(1, q - 1)
    cap = r.choice([1, 2, 3, 4, 5, 8, 20, 100])
    g = (q/(q - p))**(1/cap)
    exact = q & (q - 1) == 0
    return p, q, cap, math.ceil(g*1000*(1 + 1e-9)), int(exact), g


def scenario(r, deep):
    p, q, cap, rr, exact, g = setup(r, deep)
    out = [f"reset {p} {q} {cap} {rr} {exact} 4"]
    style = r.choice(["every", "steps", "random", "granule", "case"])
    it, step = r.choice([0, 0, 1, 7]), r.choice([1, 2, 5, 10, 100])
    big = 2*10**9//(q*max(rr, 1000))  # iterations for which the comparisons of the specification stay within 32 bits
    for k in range(r.choice([10, 60, 150 if deep else 90])):
        if it > big - 1:
            break
        walk = r.randint(-1000, 1000)
        out.append(f"sample {it} {it} {-it} {walk} {r.choice([0, 1])}")
        if style == "every":
            it += 1
        elif style == "steps":
            it += step
        elif style == "random":
            it += r.choice([1, 1, 2, 3, 10, 30])
        elif style == "granule":  # around the boundaries of the granules
            it = max(it + 1, int(it*g) + r.choice([-1, 0, 1, 2]))
        else:
            it = 1 if it == 0 else it - it % step + step
    return "\n".join(out) + "\n"


def case_traces(ctx, exe, seed, n):
    """monitors of a running case: `it` is the iteration itself and `sq` jumps around"""
    r = random.Random(seed)
    out = []
    for k in range(n):
        q = r.choice([2, 4, 8])
        p, cap = r.randint(1, q - 1), r.choice([2, 3, 5, 100])
        g = (q/(q - p))**(1/cap)
        c = {"f": {"print": r.choice([1, 2, 3, 5, 10]), "write": 1000, "vis": 1000, "stopit": cc.NEVER, "stopupd": r.choice([5, 15, 25])},
             "ovr": ["write_init", "vis_init", "write_final", "vis_final"], "width": 10, "draw": 0, "pre": "none", "slash": True,
             "exists": False, "cmds": {u: [["print", r.choice([1, 2, 4, 20])]] for u in range(1, 25) if r.random() < .1}}
        out.append((c, ("{it = iteration; sq = (iteration*7)%11;}", f"{p}./{q}.", cap), (p, q, cap, math.ceil(g*1000*(1 + 1e-9)), 1)))
    lines = []
    for i, (c, mon, par) in enumerate(out):
        ev, m = cc.run_case(exe, c, f"{ctx.dir}/scratch{i}", mon=mon)
        lines.append(json.dumps({"ev": "reset", **dict(zip(("p", "q", "cap", "rr", "exact"), par)), "min": [-2000000001]*2, "max": [2000000001]*2}, separators=(",", ":")))
        if ev[-1]["rc"] != 0:
            ctx.violation(f"a case with monitors failed: {ev[-1]}", cc.dump(ev))
        for it, (a, b, lo, hi) in m:
            lines.append(json.dumps({"ev": "sample", "it": it, "v": [it, it*7 % 11], "min": [a, lo], "max": [b, hi]}, separators=(",", ":")))
    return lines


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    exe = vf.harness("monitor")
    vf.model_check("HistMonMC", "HistMonDeep" if deep else "HistMonMC", ctx, need_actions=("Next",), workers=8, timeout=600)
    r = random.Random(vf.SEED)
    text = "".join(scenario(r, deep) for _ in range(3000 if deep else 500))
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return vf.record(ctx, exe, [], trace, stdin=text)
    vf.validate(ctx, "HistMonTrace", "HistMonTrace", rec(), parts=8, rerecord=rec)
    ctx.require("sample")
    case = vf.harness("case")

    def rec2():
        return case_traces(ctx, case, vf.SEED, 400 if deep else 40)
    vf.validate(ctx, "HistMonTrace", "HistMonTrace", rec2(), parts=4, rerecord=rec2, what="-case")
