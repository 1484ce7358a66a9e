"""adaptation"""
import vf
from mesh_common import rng, tree_history, surface_history, model_histories, play


def run(ctx):
    deep = vf.TIER == "thorough"
    k = 10 if deep else 1
    vf.build()
    exe = vf.harness("mesh")
    inputs = model_histories(ctx, deep, 1500 * k)
    for nd, n, maxl in ((1, 40, 6), (2, 40, 5), (3, 16, 3)):
        for i in range(n * k):
            r = rng(vf.SEED, (nd, i))
            inputs.append(tree_history(r, nd, 6, maxl))
            inputs.append(surface_history(r, nd, r.choice([0, 1, 2]), r.choice([2, 4]), maxl, gap=0))
    rng(vf.SEED, "mix").shuffle(inputs)
    play(ctx, inputs, "MeshAdaptTrace", exe=exe)
    ctx.require("tree", "update", "lock", "surface")
