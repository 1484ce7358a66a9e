"""variables of the input language"""
import vf
import hil_common as hc
from scn import pick

UPS = {"chain": [[], [1], [2]], "fork": [[], [], [1, 2]], "swapped": [[], [1], [2, 1]], "diamond": [[], [1], [1], [2, 3]]}


def kind(v):
    return "str" if v in "pq" else "real" if "." in v else "int"


def op(o, x="x"):
    return f"tick {o['s']} {x}\n" if o["op"] == "tick" else f"{o['op']} {o['s']} {x} {kind(o['v'])} {o['v']}\n"


def probe(n, names="x"):
    return "".join(f"exists {s} {x}\n" + "".join(f"lookup {s} {x} {t}\n" for t in ("int", "real", "str")) for s in range(1, n + 1) for x in names)


def spaces(ups, names="x"):
    return f"reset\nwatch {' '.join(names)}\n" + "".join(f"space {len(u)} {' '.join(map(str, u))}\n" for u in ups)


def random_spaces(r):
    """several names in a random order of spaces"""
    n = r.choice([2, 3, 4, 5])
    ups = [r.sample(range(1, i + 1), min(i, r.choice([1, 1, 2, 3]))) for i in range(n)]
    s = spaces(ups, "xyz")
    for _ in range(r.choice([10, 25])):
        o = {"op": r.choice(["assign", "assign", "assign", "default", "tick"]), "s": r.randrange(n) + 1,
             "v": r.choice(["1", "2", "-3", "0.5", "2.0", "p", "q", "0.25"])}
        s += op(o, r.choice("xxyz"))
        if r.random() < .4:
            s += f"lookup {r.randrange(n) + 1} {r.choice('xyz')} {r.choice(['int', 'real', 'str'])}\n"
    return s + probe(n, "xyz")


def random_code(r):
    """assignments and reads by programs of interpreters that see each other's variables"""
    n = r.choice([2, 3])
    s = "reset\nwatch x y z huge except format_double\ninterp 0\n" + "".join(f"interp {r.choice([i, 1])}\n" for i in range(1, n))
    for _ in range(r.choice([8, 16])):
        i = r.randrange(n) + 1
        x = r.choice("xyz")
        k = r.random()
        if k < .1:
            s += f"tick {i} {x}\n"
        elif k < .2:
            s += op({"op": r.choice(["default", "assign"]), "s": i, "v": r.choice(["1", "0.5", "p"])}, x)
        elif k < .25:
            s += f"exec {i} {r.choice(['huge = 3', 'huge = {x}', 'exit = {x}', 'exit = 3', 'throw = 2', 'ask = 1.5', 'format_double = 2', 'except = 1', 'huge = 2.5'])}\n"
        else:
            e = r.choice(["1", "2", "0.5", "3.", "{p}", "x", "y", "z", "x + 1", "y + 0.5", "x + {q}", "(z = 4)", "x", "1/2", "1/2.", "-y", "x == y", "(x = 2) + (y = x*2)", "{} + x + y"])
            s += "exec %d %s\n" % (i, r.choice([f"{x} = {e}", f"{x} = {e}", f"{x} = {e}; {r.choice('xyz')} = {r.choice('xyz')}",
                                                f"{{{x}}}; ${{{x}}} = {e}", f"print {e}", f"{x} = {r.choice('xyz')} = {e}"]))
    return s + "".join(f"exists {i + 1} {x}\nlookup {i + 1} {x} {t}\n" for i in range(n) for x in "xyz" for t in ("int", "real", "str"))


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    r = hc.rng("p12")
    inputs = []
    for shape, ups in UPS.items():
        paths = vf.generate("HilVarMC", f"HilVar_{shape}", ctx)
        # the shortest ones, which are the most elementary, and a sample of all
        paths.sort(key=len)
        few = [p for p in paths if len(p) <= 2]
        chosen = few + pick(r, paths, 9000 if deep else 250)
        inputs += [spaces(ups) + "".join(map(op, p)) + probe(len(ups)) for p in chosen]
    inputs += [random_spaces(r) for _ in range(3000 if deep else 200)]
    inputs += [random_code(r) for _ in range(3000 if deep else 250)]
    hc.run(ctx, inputs)
    ctx.require("space", "interp", "assign", "default", "tick", "lookup", "exists", "exec")
