import tree_common
import vf


def run(ctx):
    deep = vf.TIER == "thorough"
    k = 8 if deep else 1
    tree_common.run(ctx, [("TreeFill1", 1), ("TreeFill2", 2)], 4000 if deep else 900,
                    [(1, 12, 6, 50*k), (2, 14, 5, 60*k), (3, 5, 3, 40*k)], probe=False)
    ctx.require("fill", "status", "clear")
