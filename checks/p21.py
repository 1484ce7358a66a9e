"""the same problem in other axes"""
import random
import sim_common as sc
import vf


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    exe = vf.harness("state")
    vf.model_check("SimAxesMC", "SimAxesDeep" if deep else "SimAxesMC", ctx, need_actions=("Iterate", "Other"), workers=8, timeout=800)
    r = random.Random(f"{vf.SEED}-axes")
    scns = []
    for _ in range(900 if deep else 140):
        s = sc.scenario(r, {"step": 5, "init": .3, "fix": .3, "avoff": .3, "write": .3, "read": .3}, 4)
        m = s[0].split()
        nd = int(m[1])
        if nd == 3:
            m[-4] = "-1"  # fitting faces to a surface interpolates one dimension after the other
            s[0] = " ".join(m)
        one = list(s)
        for _ in range({1: 1, 2: 3, 3: 4}[nd]):
            ax = list(range(nd))
            r.shuffle(ax)
            rev = [r.randint(0, 1) for _ in ax]
            s += [f"turn {' '.join(map(str, ax + rev))}", "remesh " + one[0][6:]] + one[1:]
        scns.append(s)
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return sc.record_all(ctx, exe, scns, trace)
    vf.validate(ctx, "SimAxesTrace", "SimAxesTrace", rec(), parts=8, rerecord=rec)
    ctx.require("init", "step", "turn", "write", "read")
