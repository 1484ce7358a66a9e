"""expressions of the input language"""
import vf
import hil_common as hc


def batches(progs, n=40):
    progs = list(progs)
    return [hc.SETUP + "".join("eval 1 " + hc.esc(p) + "\n" for p in progs[i:i + n]) for i in range(0, len(progs), n)]


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    vf.model_check("HilExprMC", "HilExprMC", ctx)
    if deep:
        vf.model_check("HilExprMC", "HilExprDeep", ctx, timeout=800)
    r = hc.rng("p13")
    progs = []
    for n in (1, 2, 3):  # every sequence of that many tokens (a sample of the longer ones)
        progs += hc.token_programs(n) if n < 3 or deep else hc.token_programs(n, r, 1200)
    for n in (4, 5, 6, 8):
        progs += hc.token_programs(n, r, 8000 if deep else 250)
    progs += ["r = " + hc.expr(r, r.choice([1, 2, 2, 3, 4]))[0] for _ in range(40000 if deep else 1600)]
    progs += hc.operator_programs(r, 60 if deep else 8)
    progs += [hc.chain_program(r, r.choice([2, 3, 4, 6])) for _ in range(8000 if deep else 600)]
    progs += ["r = " + hc.literal(r) for _ in range(3000 if deep else 200)]
    r.shuffle(progs)
    hc.run(ctx, batches(progs))
    ctx.require("eval")
