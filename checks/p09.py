"""mesh files"""
import vf
from mesh_common import rng, file_history, play
import orient_common as oc


def run(ctx):
    deep = vf.TIER == "thorough"
    k = 12 if deep else 1
    vf.build()
    exe = vf.harness("mesh")
    inputs = []
    for i, q in enumerate(vf.generate("OrientMC", "OrientMC", ctx, workers=2)):
        for rs in (2, 3, 4) if deep else (2,):
            r = rng(vf.SEED, ("orient", i, rs))
            inputs.append(oc.scenario(r, q, rs) + f"adjust {i}\ntwin 0\n")
            d = q["d"]
            if d["i0"] == d["i1"] and not any(q["str"]):
                inputs.append(oc.scenario(r, q, rs, cart=True) + "twin 0\n")
    for nd, n, maxl in ((1, 16, 6), (2, 32, 5), (3, 24, 3)):
        for i in range(n * k):
            r = rng(vf.SEED, ("file", nd, i))
            inputs.append(file_history(r, nd, i % 3 > 0, maxl, 3 if nd < 3 else 2, relax=i % 3 > 1))
    rng(vf.SEED, "mix").shuffle(inputs)
    play(ctx, inputs, "MeshFileTrace", exe=exe, threads="1")  # whether the number of threads matters is another property
    ctx.require("tree", "update", "surface", "relax", "condef", "concar", "conhang", "adjust", "twin")
