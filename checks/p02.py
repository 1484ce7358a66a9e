"""connected faces coincide"""
import vf
from mesh_common import rng, tree_history, surface_history, model_histories, play
import orient_common as oc

KNOWN = "3D smoothing drags a vertex of an undeformed cell that hangs on a coarser deformed face"


def known(ctx, exe):
    """the recorded finding, on its own input"""
    lines = vf.record(ctx, exe, [], f"{ctx.dir}/known.ndjson", stdin=open(f"{vf.VERIF}/findings/p02_relax3d.scn").read())
    path = f"{ctx.dir}/known.ndjson"
    ok, n, r = vf.validate_one("MeshGeoTrace", "MeshGeoTrace", path, 300, "2500m", {"STRICT": "1"})
    if not ok and '"relax"' in lines[n - 1] and '"undeformed vertices are at their nominal positions"' in r.out:
        ctx.known.append(KNOWN)


def run(ctx):
    deep = vf.TIER == "thorough"
    k = 12 if deep else 1
    vf.build()
    exe = vf.harness("mesh")
    qs = vf.generate("OrientMC", "OrientMC", ctx, workers=2)
    inputs = []
    for i, q in enumerate(qs):
        for rs in (2, 3, 4, 5) if deep else (2, 3 + i % 3):
            r = rng(vf.SEED, ("orient", i, rs))
            inputs.append(oc.scenario(r, q, rs))
            d = q["d"]
            if d["i0"] == d["i1"] and not any(q["str"]):
                inputs.append(oc.scenario(r, q, rs, cart=True))
    play(ctx, inputs, "OrientTrace", exe=exe, what="-orient", parts=4)
    ctx.require("condef", "concar", "conhang")
    inputs = model_histories(ctx, deep, 150 * k)
    for nd, n, maxl in ((1, 12, 6), (2, 30, 5), (3, 12, 3)):
        for i in range(n * k):
            r = rng(vf.SEED, ("geo", nd, i))
            inputs.append(tree_history(r, nd, 3, maxl))
            inputs.append(surface_history(r, nd, r.choice([0, 1, 2]), r.choice([2, 3]), maxl, extra=("relax 0.5\n",)))
    rng(vf.SEED, "mix").shuffle(inputs)
    play(ctx, inputs, "MeshGeoTrace", exe=exe)
    ctx.require("tree", "update", "surface", "relax")
    known(ctx, exe)
