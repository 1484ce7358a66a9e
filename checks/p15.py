"""the schedule of a case"""
import random
import case_common as cc
import vf


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    exe = vf.harness("case")
    vf.model_check("CaseRunMC", "CaseRunDeep" if deep else "CaseRunMC", ctx, workers=8, timeout=800,
                   need_actions=("DoPhase", "DoUpdate", "DoCommand", "DoRest"))
    r = random.Random(vf.SEED)
    configs = [cc.config(r) for _ in range(3000 if deep else 250)]

    def rec():
        return [x for ev, _ in cc.run_all(ctx, exe, configs) for x in cc.dump(ev)]
    vf.validate(ctx, "CaseRunTrace", "CaseRunTrace", rec(), parts=8, rerecord=rec)
    ctx.require("header", "report", "written", "drawn", "complete", "override", "say", "error", "before", "after", "end")
