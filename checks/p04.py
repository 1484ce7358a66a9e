"""meshes with a surface"""
import vf
from mesh_common import rng, surface_history, points_history, opposite_history, play


def run(ctx):
    deep = vf.TIER == "thorough"
    k = 12 if deep else 1
    vf.build()
    exe = vf.harness("mesh")
    inputs = []
    for nd, n, maxl in ((1, 30, 6), (2, 60, 5), (3, 24, 3)):
        for i in range(n * k):
            r = rng(vf.SEED, (nd, i))
            inputs.append(surface_history(r, nd, r.choice([0, 1, 2]), r.choice([1, 2, 3]), maxl, gap=0,
                                          kind="plane" if i % 6 == 0 else None, extra=("relax 0.5\n",) if i % 3 == 0 else ()))
    for nd, n in ((2, 40), (3, 60)):
        for i in range(n * k):
            r = rng(vf.SEED, ("points", nd, i))
            inputs.append(points_history(r, nd, r.choice([0, 0, 1])))
    inputs += [opposite_history(rng(vf.SEED, ("opposite", i)), i % 8) for i in range(8 * k)]
    rng(vf.SEED, "mix").shuffle(inputs)
    play(ctx, inputs, "MeshSurfTrace", exe=exe)
    ctx.require("update", "surface", "relax")
