"""control flow, macros and errors of the input language"""
import vf
import hil_common as hc


def scenario(r, n, depth):
    s = "reset\nwatch a b c s exception while do case\ninterp 0\nbuiltin 1\ntick 1 tick\nexec 1 a = 3; b = 0.5; c = 0; s = {ab1}\n"
    if r.random() < .25:
        s += "interp 1\nbuiltin 2\n"
    s += "file text " + hc.esc(r.choice(["one", "two\nlines\n", "", "a = {"])) + "\n"
    s += "file code " + hc.esc(r.choice(["a = a + 1", "a = 2; nope; c = 1", "c = a\n", "1 + ", "{x}; {y}"])) + "\n"
    s += "input " + hc.esc(r.choice(["x", "one\ntwo\n", "a\n\nb"])) + "\n"
    k = 2 if "interp 1" in s else 1
    for _ in range(n):
        s += f"exec {r.randrange(k) + 1} " + hc.esc(hc.Prog(r).block(depth)) + "\n"
    if r.random() < .15:
        s += "input " + hc.esc(hc.repl_input(r)) + "\n" + f"exec {k} $repl\n"
    return s


def run(ctx):
    deep = vf.TIER == "thorough"
    vf.build()
    r = hc.rng("p14")
    inputs = [scenario(r, r.choice([1, 2, 3]), r.choice([1, 2, 2, 3])) for _ in range(12000 if deep else 700)]
    inputs += [hc.SETUP + "".join("eval 1 " + hc.esc(p) + "\n" for p in hc.control_programs(r, 40)) for _ in range(400 if deep else 30)]
    hc.run(ctx, inputs)
    ctx.require("exec", "eval", "file", "input")
