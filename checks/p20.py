"""conservation and undisturbed flows"""
import random
import sim_common as sc
import vf

KINDS = ["step", "step", "step", "stepav", "stepavc", "stepelw", "steppde", "stepadm"]


def scenario(r, n_ops):
    nd = r.choices([1, 2, 3], [1, 5, 3])[0]
    rs = r.choice([2, 3, 4, 6] if nd < 3 else [2, 2, 3])
    local, visc = r.randint(0, 1), r.choice([0, 1])
    m = sc.mesh(r, nd, rs).split()
    closed = r.random() < .6
    m[0] = "4" if closed else "5"
    if nd == 3 and m[3] != "0" and r.random() < .6:
        m[-1] = "-1"  # faces are not curved
    out = [f"reset {nd} {rs} {local} {visc} {' '.join(m)} {sc.options(r)}"]
    still = -1 if closed else 0
    out.append(f"init {r.choice([still, still, 1, 2, 3])}")
    files = []
    for _ in range(n_ops):
        op = r.choices(["step", "init", "write", "read", "avoff", "fix", "threads"], [8, 1.5, 1, 1, .5, .5, .3])[0]
        if op == "read" and not files:
            op = "write"
        if op == "step":
            out.append(f"{r.choice(KINDS)} {r.choice([1, 2, 4])}")
        elif op == "init":
            out.append(f"init {r.choice([still, still, 1, 2, 3])}")
        elif op == "write":
            files.append(f"f{r.randint(1, 2)}")
            out.append(f"write {files[-1]}")
        elif op == "read":
            out.append(f"read {r.choice(files)} {r.randint(0, 1)}")
        elif op == "avoff":
            out.append("avoff")
        elif op == "fix":
            out.append(f"fix {r.randint(0, 1)}")
        else:
            out.append(f"threads {r.choice([1, 2, 3, 8])}")
    return out


def run(ctx):
    deep = vf.TIER == "thorough"
    exe = vf.harness("state")
    vf.model_check("BalanceMC", "BalanceDeep" if deep else "BalanceMC", ctx, need_actions=("Exchange", "Stream"), workers=8, timeout=800)
    r = random.Random(f"{vf.SEED}-balance")
    scns = [scenario(r, r.choice([5, 9])) for _ in range(1500 if deep else 300)]
    trace = f"{ctx.dir}/trace.ndjson"

    def rec():
        return sc.record_all(ctx, exe, scns, trace)
    vf.validate(ctx, "BalanceTrace", "BalanceTrace", rec(), parts=8, rerecord=rec)
    ctx.require("init", "step", "stepav", "write", "read")
