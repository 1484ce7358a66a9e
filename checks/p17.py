"""reproducibility of the flow state; reports do not change it"""
import random
import sim_common as sc
import vf


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    exe = vf.harness("state")
    vf.model_check("SimImpl", "SimImplDeep" if deep else "SimImpl", ctx, need_actions=("DoInit", "DoStep", "DoReport", "DoRep"), workers=8, timeout=800)
    r = random.Random(vf.SEED)
    scns = []
    for _ in range(600 if deep else 120):
        # the same history with other reports and numbers of threads in between
        s = sc.scenario(r, {"step": 5, "init": .3, "fix": .3, "avoff": .3}, 5)
        one = list(s)
        for _ in range(3):
            s += [f"threads {r.choice([1, 2, 3, 8])}", "remesh " + one[0][6:], one[1]]
            for x in one[2:]:
                for _ in range(r.choice([0, 1, 2])):
                    s.append(r.choice(sc.looks_of(one[0]) + [f"threads {r.choice([1, 2, 3, 8])}"]*3))
                s.append(x)
        scns.append(s)
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return sc.record_all(ctx, exe, scns, trace)
    vf.validate(ctx, "SimStateTrace", "SimStateTrace", rec(), parts=8, rerecord=rec)
    ctx.require("init", "step", "look", "threads")
