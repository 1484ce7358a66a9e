"""histories of flow simulations for the specification SimState"""
import concurrent.futures as cf
import vf

STEPS = ["step", "step", "step", "stepav", "stepavc", "stepelw", "steppde", "stepadm"]
LOOKS = "integral surface bounds field edges wall cart lts residual uncert rep status admissible sample mesh state".split()


def mesh(r, nd, rs):
    seed, outer = r.randint(1, 10**6), r.randint(0, 3)
    if nd == 1:
        return f"{outer} {seed} {r.choice([3, 4])} 0 0 0 0"
    levels = r.choice([2, 3, 4] if nd == 2 else [2, 2, 3] if rs < 4 else [2])
    if r.random() < .35:
        return f"{outer} {seed} {levels} 0 {'0 '*nd}0 0"
    # a sphere around a corner or inside of the domain, away from the cell where the fluid is
    if nd == 2:
        c, rad = [r.uniform(.2, .6) for _ in range(2)], r.uniform(.15, .3)
        levels = r.choice([3, 4])
    else:
        c, rad = [r.uniform(-.1, .1) for _ in range(3)], r.uniform(.25, .4)
    return f"{outer} {seed} {levels} {rad:.4f} {' '.join(f'{x:.4f}' for x in c)} {r.randint(0, 4)} {r.choice([0, 0, 1, 3])}"


def options(r):
    """Chebyshev steps, modal filter, iterations per step"""
    return f"{r.choice([1, 1, 2, 3])} {r.choice([0, 0, 1])} {r.choice([1, 1, 2])}"


def looks_of(head):
    return [f"look {k}" for k in LOOKS if head.split()[1] != "1" or k not in ("field", "lts")]


def record_all(ctx, exe, scns, trace):
    """record the scenarios, several at a time"""
    parts = [scns[i::6] for i in range(6)]

    def one(i):
        text = "".join("\n".join(s) + "\n" for s in parts[i])
        return vf.record(ctx, exe, [], f"{trace}.{i}", timeout=700, env={"OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive"}, stdin=text)
    with cf.ThreadPoolExecutor(6) as ex:
        return [ln for p in ex.map(one, range(6)) for ln in p]


def scenario(r, weights, n_ops, max_files=3):
    nd = r.choices([1, 2, 3], [1, 5, 3])[0]
    rs = r.choice([2, 3, 4, 6] if nd < 3 else [2, 2, 3])
    local, visc = r.randint(0, 1), r.choice([0, 0, 1])
    head = f"{nd} {rs} {local} {visc} "
    out = [f"reset {head}{mesh(r, nd, rs)} {options(r)}"]
    looks = [k for k in LOOKS if nd > 1 or k not in ("field", "lts")]
    gen, gens, files, has = 1, 1, {}, False
    out.append(f"init {r.randint(1, 3)}")
    has = True
    base = r.choice(STEPS)
    ops = list(weights)
    k = 0
    while k < n_ops:
        k += 1
        op = r.choices(ops, [weights[o] for o in ops])[0]
        if not has and op not in ("init", "read", "remesh"):
            op = "read" if files else "init"
        if op in ("read", "readstate") and not files:
            op = "write" if has else "init"
        if op == "init":
            out.append(f"init {r.randint(1, 3)}")
            has = True
        elif op == "step":
            kind = base if r.random() < .8 else r.choice(STEPS)
            n = r.choice([1, 1, 2, 3])
            out.append(f"{kind} {n}")
        elif op == "write":
            f = f"f{r.randint(1, max_files)}"
            files[f] = gen
            out.append(f"write {f}")
        elif op == "read":
            f = r.choice(sorted(files))
            gen, has = files[f], True
            out.append(f"read {f} {r.randint(0, 1)}")
            if r.random() < .7:
                out.append(f"{base} {r.choice([1, 2])}")
        elif op == "readstate":
            c = [f for f in sorted(files) if files[f] == gen]
            if c:
                out.append(f"readstate {r.choice(c)}")
                out.append(f"{base} {r.choice([1, 2])}")
        elif op == "remesh":
            gens += 1
            gen, has = gens, False
            out.append(f"remesh {head}{mesh(r, nd, rs)} {options(r)}")
        elif op == "look":
            out.append(f"look {r.choice(looks)}")
        elif op == "fix":
            out.append(f"fix {r.randint(0, 1)}")
        elif op == "avoff":
            out.append("avoff")
        elif op == "threads":
            out.append(f"threads {r.choice([1, 2, 3, 8])}")
    return out
