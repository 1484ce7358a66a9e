"""scenarios for the harness of the case-input language (harness/hil.cpp)"""
import itertools
import random

import vf


def esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n")


def rng(*what):
    return random.Random(f"{vf.SEED}-{what}")


SETUP = "reset\nwatch r a b c s t exception\ninterp 0\nexec 1 a = 3; b = 0.5; s = {ab1}; t = {1 + 2}\n"
TOKENS = ["2", "0", "0.5", "a", "{ab}", "t", "-", "!", "#", "+", "*", "/", "==", "<", "&", "(", ")", "$", "x", ";"]


def token_programs(n, r=None, count=None, tokens=TOKENS):
    """every sequence of n tokens, or `count` of them at random"""
    if count is None:
        for q in itertools.product(tokens, repeat=n):
            yield "r = " + " ".join(q)
    else:
        for _ in range(count):
            yield "r = " + " ".join(r.choice(tokens) for _ in range(n))


BIN = {"^": 1, "#": 1, "%": 2, "/": 2, "*": 2, "-": 3, "+": 3, "==": 4, "!=": 4, ">=": 4, "<=": 4, "<": 4, ">": 4, "&": 5, "|": 5}
UN = ["-", "!", "#", "sqrt ", "exp ", "log ", "sin ", "cos ", "tan ", "asin ", "acos ", "atan ", "floor ", "ceil ", "round ", "abs "]


def expr(r, depth, ty=None, names=True):
    """(text, precedence) of an expression, usually of type ty (int, real, str)"""
    ty = ty or r.choice(["int", "int", "int", "real", "real", "str"])
    if r.random() < .03:
        ty = r.choice(["int", "real", "str"])
    x = r.random()
    if depth == 0 or x < .12:
        if ty == "int":
            return (r.choice(["0", "1", "2", "3", "4", "7", "12", "012"] + (["a", "a"] if names else [])), 0)
        if ty == "real":
            return (r.choice(["0.5", "1.", "2.0", ".25", "4.", "1e1", "2.5e0", "0.", "12.5", "5e-1", "25E-2", "1.5e+1"] + (["b", "b"] if names else [])), 0)
        return (r.choice(["{ab}", "{}", "{a{b}c}", "{x;y}", "{1 + 2}", "{\\}}", "{\\\\}", "{Q q}", "{\n}"] + (["s", "s"] if names else [])), 0)

    def sub(e, p):
        t, q = e
        if q > p or r.random() < .08:
            return "(" + r.choice(["", " "]) + t + r.choice(["", " "]) + ")"
        return t
    if x < .3:
        if ty == "str":
            return expr(r, depth - 1, "str", names)
        u = r.choice(["-", "-", "abs "] if ty == "real" else ["-", "!", "abs ", "#", "floor ", "ceil ", "round "])
        if ty == "real" and r.random() < .4:
            u = r.choice(UN[3:12])
        at = {"!": "int", "#": "str", "floor ": "real", "ceil ": "real", "round ": "real"}.get(u, ty)
        return (u + sub(expr(r, depth - 1, at, names), 0), 0)
    if ty == "int":
        if r.random() < .35:
            op = r.choice(["==", "!=", ">=", "<=", "<", ">", "&", "|"])
            t = r.choice(["int", "int", "real", "str"] if op in ("==", "!=") else ["int", "int", "real"])
            a, b = expr(r, depth - 1, t, names), expr(r, depth - 1, "int" if t == "real" and r.random() < .4 else t, names)
        else:
            op = r.choice(["%", "/", "*", "-", "+", "+", "-", "*"] + (["^"] if depth < 3 else []))
            a, b = expr(r, depth - 1, "int", names), expr(r, depth - 1 if op != "^" else 0, "int", names)
    elif ty == "real":
        op = r.choice(["/", "*", "-", "+", "+", "-"])
        a, b = expr(r, depth - 1, "real", names), expr(r, depth - 1, r.choice(["real", "int"]), names)
        if op == "/":
            b = (r.choice(["2", "4.", "0.5", "8", "1"]), 0)
        if r.random() < .5 and op != "/":
            a, b = b, a
    else:
        if r.random() < .25:
            op = "#"
            a, b = expr(r, depth - 1, "str", names), (r.choice(["0", "1", "2"]), 0)
        else:
            op = "+"
            a, b = expr(r, depth - 1, "str", names), expr(r, depth - 1, r.choice(["str", "int", "real"]), names)
            if r.random() < .5:
                a, b = b, a
    p = BIN[op]
    sp = r.choice([" ", " ", "", "  "])
    return (sub(a, p) + sp + op + sp + sub(b, p - 1), p)


def literal(r):
    """a number or string literal, often a malformed one"""
    if r.random() < .5:
        return "".join(r.choice("0123456789..eE+-") for _ in range(r.choice([1, 2, 3, 4, 5])))
    if r.random() < .5:
        return r.choice(["", "1", "12", "0", "003"]) + r.choice([".", "", ".5", ".25", "."]) + r.choice(["", "e", "e1", "E0", "e-1", "e+2", "e1.", "e-"])
    return "{" + "".join(r.choice(["a", "{", "}", "\\", ";", "\n", " ", "1"]) for _ in range(r.choice([1, 2, 3, 5, 8]))) + r.choice(["}", "}", "}}", ""])


CTRL = ["except = {a = 7}", "except = {nope}", "except = {}", "nope", "1 + nope; 2", "(1; nope; 2)", "{x; nope", "a = 1", "s = {;}", "c = #2", "$nope",
        "${a = 2; nope; a = 3}", "${a = 4}", "$s", ";", "\n", " ", ")", "(", "exit", "(a = 5; exit", "s = s + {z}", "print a", "print nope", "a = a*(2;3)", "#nope"]


def control_programs(r, n):
    """sequences of statements, most of which fail, in every order"""
    for _ in range(n):
        yield "".join(r.choice(CTRL) + r.choice([";", "\n", "; ", ";", " "]) for _ in range(r.choice([2, 3, 4, 6])))


OPS = list(BIN)
OPERANDS = ["0", "1", "2", "3", "7", "0.5", "2.", "0.", "{ab}", "{}", "{1}", "a", "b", "s"]
CLASSES = [["0", "1", "2", "3", "7", "a"], ["0.5", "2.", "0.", "4", "1", "b"], ["{ab}", "{}", "{1}", "s"]]


def operator_programs(r, k):
    """every pair of binary operators (and every unary operator next to a binary one) without parentheses"""
    def leaf(c):
        return r.choice(c if r.random() < .9 else OPERANDS)
    for o in OPS:
        for p in OPS:
            for _ in range(k):
                c = r.choice(CLASSES[:2] + CLASSES) if "+" in (o, p) or "=" in o + p else r.choice(CLASSES[:2])
                if o == "#" or p == "#":
                    x = [r.choice(CLASSES[2]), r.choice("01"), leaf(r.choice(CLASSES))] if o == "#" else [leaf(r.choice(CLASSES)), r.choice(CLASSES[2]), r.choice("01")]
                else:
                    x = [leaf(c), leaf(c), leaf(c)]
                yield f"r = {x[0]} {o} {x[1]} {p} {x[2]}"
    for u in UN:
        for o in OPS:
            for _ in range(max(1, k // 4)):
                c = r.choice(CLASSES)
                yield f"r = {u}{leaf(c)} {o} {leaf(c)}"
                yield f"r = {leaf(c)} {o} {u}{leaf(c)}"
                yield f"r = {u}({leaf(c)} {o} {leaf(c)})"
                yield f"r = {r.choice(UN)}{u}{leaf(c)}"


def chain_program(r, n):
    c = r.choice(CLASSES[:2])
    ops = r.choice([["&", "|"], ["+", "-"], ["*", "/", "%", "+", "-"], ["==", "<", "&", "|", "+"], OPS])
    return "r = " + "".join(r.choice(c) + f" {r.choice(ops)} " for _ in range(n)) + r.choice(c)


class Prog:
    """random programs that end"""

    def __init__(self, r):
        self.r = r
        self.n = 0

    def term(self):
        return self.r.choice(["\n", ";", "\n", "; ", "\n    ", "\n\n", " ;"])

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def e(self, ty, d=2):
        return expr(self.r, d, ty)[0]

    def cond(self):
        return self.r.choice(["a < 3", "a == 3", "1", "0", "b > 1", "s == {ab1}", "a%2", "!(a < c)", "c & 1", "#s > 3"])

    def fail(self):
        r = self.r
        return r.choice(["nope", "r = nope + {x;y}", "c = (1; nope; 2)", "a = a + -{q}", "c = 1/0", "r = #3", "$nope", "c = s#99", "print nope",
                         "c = 5 + (a = 4; {w}*2) + {;\n}", "c = ", "c = 7 %(1 - 1)", "c = 3 + ", "$a", "c = {p} < 2", "c = )", "c = 2.5.1", "sqrt {q}"])

    def stmt(self, depth):
        r = self.r
        x = r.random()
        if depth == 0 or x < .3:
            k = r.choice(["a", "b", "c", "s", "print", "print", "note", "expr"])
            if k == "a":
                return r.choice(["a = a + 1", "a = a - 2", "a = " + self.e("int", 1), "a = c = a"])
            if k == "b":
                return r.choice(["b = b*2", "b = a", "b = " + self.e("real", 1), "b = (a = a + 1)"])
            if k == "c":
                return r.choice(["c = c + a", "c = " + self.e("int"), "c = (a = 2; a + 1)", "c = -c"])
            if k == "s":
                return r.choice(["s = s + {z}", "s = {[} + a + {]}", "s = " + self.e("str", 1), "s = {}", "s = s#0 + {k}", "s = s + newline", "c = true + false"])
            if k == "print":
                return r.choice(["print s", "println a", "print({<} + b + {>})", "println (a == 3)", "print " + self.e("str", 0)])
            if k == "note":
                return r.choice(["{a comment}", "{a {nested; one}\nof two lines}", "", "{}"])
            return r.choice([self.e("int"), "-a", "(a; -1)", "#s", "!c"])
        if x < .48:  # conditional
            y, n = self.block(depth - 1), self.block(depth - 1)
            t = self.term
            c0, c1 = ("case0", "case1") if r.random() < .7 else (self.fresh("k") + "_0", None)
            if c1 is None:
                c1 = c0[:-1] + "1"
            return f"{c0} = {{{n}}}{t()}{c1} = {{{y}}}{t()}$$({{{c0[:-1]}}} + (({self.cond()}) != 0))"
        if x < .62:  # loop with the standard macro
            i = self.fresh("i")
            n = r.choice([0, 1, 2, 3])
            body = self.block(depth - 1)
            if r.random() < .3:  # the condition is any number
                c = r.choice([f"{i} - {n}", f"{n} - {i}", f"({n} - {i})*0.5", f"{n} > {i} & 1"])
                return f"{i} = 0; while = {{{c}}}; do = {{{i} = {i} + 1{self.term()}{body}}}\n$loop"
            head = f"{i} = 0{self.term()}while = {{{i} < {n}}}{self.term()}"
            return head + f"do = {{{i} = {i} + 1{self.term()}{body}}}\n$loop"
        if x < .7:  # recursion
            f, i = self.fresh("f"), self.fresh("j")
            return f"{i} = 0\n{f} = {{{self.block(0)}\n{i} = {i} + 1\ncase0 = {{}}; case1 = {{${f}}}; $$({{case}} + ({i} < {r.choice([1, 2, 4])}))}}\n${f}"
        if x < .8:  # macro
            f = self.fresh("m")
            return r.choice([f"{f} = {{{self.block(depth - 1)}}}\n${f}", f"${{{self.block(depth - 1)}}}", f"{f} = {{2 + {r.choice('13')}}}; c = 2*${f}*3",
                             f"{f} = {{{r.choice('abc')}}}; ${f} = {r.choice('123')}", f"{f} = {{+ 2}}; c = 1 ${{{{- 1}}#0}}2", f"c = (${{1; {self.e('int', 1)}}})"])
        if x < .93:  # exceptions
            h = self.block(0) if r.random() < .8 else self.fail()
            y = r.choice([1, 1, 1, 0])
            arm = f"except = {{{h}}}{self.term()}" if y else ""
            return arm + self.fail() + (self.term() + "s = s + (exception == {})" if r.random() < .5 else "") + (self.term() + self.fail() if r.random() < .15 else "")
        if x < .95:
            return r.choice(["exit", "s = exit", "c = (1; exit; 2)", "print {bye}; exit", "print (exit)"])
        if x < .955:
            w = r.choice(["{split_str#split_i == { }}", "{split_i == 2}", "{0}", "{1}", "{split_str#split_i == {,}}"])
            t = r.choice(["{a b}", "{ab,c}", "s", "{abc}", "{}", "{ x}"])
            return f"split_str = {t}; split_at = {w}{self.term()}$split; println split_first; s = split_rest"
        if x < .965:
            return r.choice(["s = read {text}", "s = read {missing}", "print (read {text})", "$read {code}", "c = shell {exit 3}", "c = shell {true}",
                             "c = shell {false} + 1", "s = ask", "print ask", "s = ask + {-} + ask", "c = shell 4", "s = read 1", "s = {<} + (read {text}) + {>}"])
        if x < .975:
            return r.choice(["throw", "a = {str}", "s = 4", "c = 2.5", "exit = {x}"])
        return r.choice(["c = c + tick", "tick", "print tick", "c = tick + 10*tick", "b = tick/2."])

    def block(self, depth):
        return self.term().join(self.stmt(depth) for _ in range(self.r.choice([1, 1, 2, 3])))


def repl_input(r):
    """lines for the interactive loop"""
    p = Prog(r)
    out = []
    for _ in range(r.choice([1, 2, 4, 6])):
        t = p.stmt(r.choice([0, 0, 1]))
        out.append(t if "\n" not in t else r.choice(["a", "a = a + 1", "{x} + a", "", "b = 2.5", "nope", "2 + {q}", "1; 2", "s = s + {k}; s", "exit"]))
    return "\n".join(out + ["$quit"]*40)


def run(ctx, scenarios, what="", parts=8, max_unk=.3):
    """plays scenarios (harness input that begins with reset) and checks the trace"""
    import concurrent.futures as cf
    import re
    exe = vf.harness("hil")
    trace = f"{ctx.dir}/trace{what}.ndjson"
    scenarios = list(scenarios)

    def rec():
        k = max(1, min(4, len(scenarios)))
        with cf.ThreadPoolExecutor(max_workers=k) as ex:
            js = [ex.submit(vf.record, ctx, exe, [], f"{trace}.{i}", stdin="".join(scenarios[i::k]), timeout=200) for i in range(k)]
            return [x for j in js for x in j.result()]
    return vf.validate(ctx, "HilTrace", "HilTrace", rec(), parts=parts, rerecord=rec, what=what)
