"""saving and restarting"""
import random
import sim_common as sc
import vf


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    exe = vf.harness("state")
    vf.model_check("SimImpl", "SimImplDeep" if deep else "SimImpl", ctx, need_actions=("DoInit", "DoStep", "DoWrite", "DoRead", "DoReadState"), workers=8, timeout=800)
    r = random.Random(vf.SEED)
    w = {"step": 5, "write": 3, "read": 3, "readstate": 1.5, "remesh": .3, "init": .3, "look": .3, "fix": .2, "avoff": .2, "threads": .2}
    scns = [sc.scenario(r, w, r.choice([8, 14])) for _ in range(1000 if deep else 300)]
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return sc.record_all(ctx, exe, scns, trace)
    vf.validate(ctx, "SimStateTrace", "SimStateTrace", rec(), parts=8, rerecord=rec)
    ctx.require("init", "step", "stepav", "write", "read", "readstate", "remesh")
