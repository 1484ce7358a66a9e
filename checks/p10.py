"""exported meshes"""
import vf
from mesh_common import rng, tree_history, surface_history, play
import orient_common as oc


def exported(r, s, prob=.6, end=True):
    """the history with exports in between, and a second mesh on which the same is done without them"""
    ls = s.rstrip("\n").split("\n")
    out = []
    for x in ls:
        if x.startswith("reset"):
            out.append(x + " 1")
        else:
            out.append(x)
            if not x.startswith(("bc", "add", "place")) and r.random() < prob:
                out.append("poly")
    if end and out[-1] != "poly":
        out.append("poly")
    return "\n".join(out) + "\n"


def run(ctx):
    deep = vf.TIER == "thorough"
    k = 12 if deep else 1
    vf.build()
    exe = vf.harness("mesh")
    inputs = []
    rest = "bc\nbc\nrest 1\n"
    for i, q in enumerate(vf.generate("OrientMC", "OrientMC", ctx, workers=2)):
        r = rng(vf.SEED, ("orient", i))
        if q["n"] == 3 or i % 8 == 0:
            inputs.append(exported(r, oc.scenario(r, q, 2) + rest, prob=0))
            d = q["d"]
            if d["i0"] == d["i1"] and not any(q["str"]):
                inputs.append(exported(r, oc.scenario(r, q, 2, cart=True) + rest, prob=0))
    for i in range(14 * k):
        r = rng(vf.SEED, ("export", i))
        inputs.append(exported(r, tree_history(r, 3, r.choice([1, 2, 3]), 3)))
        inputs.append(exported(r, surface_history(r, 3, r.choice([0, 1]), r.choice([1, 2]), 3, extra=("relax 0.5\n",))))
    for i in range(3 * k):
        for nd in (1, 2):
            r = rng(vf.SEED, ("flat", nd, i))
            inputs.append(exported(r, (tree_history(r, nd, 2, 4) if i % 3 else surface_history(r, nd, 1, 1, 4)), prob=.3))
    rng(vf.SEED, "mix").shuffle(inputs)
    play(ctx, inputs, "MeshPolyTrace", exe=exe, threads="1")
    ctx.require("tree", "update", "surface", "relax", "condef", "concar", "conhang", "rest", "poly")
