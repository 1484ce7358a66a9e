import tree_common
import vf


def run(ctx):
    deep = vf.TIER == "thorough"
    k = 6 if deep else 1
    tree_common.run(ctx, [("TreeMC1", 1), ("TreeMC2", 2), ("TreeMC3", 3)], 2000 if deep else 150,
                    [(1, 12, 6, 20*k), (2, 14, 5, 40*k), (3, 6, 4, 12*k)], probe=True)
    ctx.require("probe", "refine", "unrefine")
