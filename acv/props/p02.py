"""P02: boolean values and comparisons."""
from ..core import Check
from .. import lang, plang

RULE = ("a comparison or a boolean operation with a runtime operand is "
        "evaluated and the model stays in the defined domain")
ASSUMPTIONS = [
    "operands have no side effects (evaluation is eager and unordered)",
    "integer operands follow P01's rules",
]

OPS = ("cmp", "and", "or", "not")


def run(prog):
    m, src, b, vm = plang.judge(prog)
    h = plang.heads(prog)
    return {"nontrivial": any(k in h for k in OPS),
            "tags": [k for k in OPS + ("if", "while", "toint") if k in h]}


def g_value(d):
    g = lang.Gen(d, div=False, structs=d.flip(25), depth=d.int(1, 5),
                 small=d.flip(60), math=False)
    return plang.one_stmt(
        d, g, [plang.k_set("bool"), plang.k_set("bool"), plang.k_obs,
               plang.k_if], 4)


def k_range(d, g, out):
    """conjunctions of comparisons of few variables with constants"""
    ps = g.paths("int", False)[:2]
    if not ps:
        return
    lo = d.pick([lang.INT_MIN, lang.INT_MAX - 3, -3, -3])

    def c():
        e = ["i", min(lang.INT_MAX, lo + d.int(0, 6))]
        op = d.pick(list(lang.CMP))
        v = d.pick(ps)
        if d.flip(20):
            a = ["i", min(lang.INT_MAX, lo + d.int(0, 6))]
            return ["cmp", [op, d.pick(list(lang.CMP))], [a, v, e]]
        r = ["cmp", [op], [v, e] if d.flip(65) else [e, v]]
        return ["not", r] if d.flip(25) else r
    e = c()
    for _ in range(d.int(1, 3)):
        e = [d.pick(["and", "or"]), e, c()] if d.flip(70) else \
            [d.pick(["and", "or"]), c(), e]
        if d.flip(15):
            e = ["not", e]
    if d.flip():
        out.append(["obs", [e]])
    else:
        n = g.name("x")
        out.append(["decl", n, "bool", e])
        g.scopes[0][n] = ("bool", "var")


def g_range(d):
    g = lang.Gen(d, div=False, structs=False, small=True, calls=False,
                 consts=False)
    lo = d.pick([lang.INT_MIN, lang.INT_MAX - 3, -3, -3])
    body = []
    for _ in range(d.int(1, 2)):
        n = g.name("g")
        body.append(["decl", n, "int",
                     ["i", min(lang.INT_MAX, lo + d.int(0, 6))]])
        g.scopes[0][n] = ("int", "var")
    for _ in range(d.int(1, 4)):
        k_range(d, g, body)
    body += g.dump()
    return {"structs": [], "funcs": [], "body": body}


def g_program(d):
    return lang.Gen(d, div=False, structs=d.flip(30), small=d.flip(70),
                    depth=d.int(2, 4)).program()


CHECKS = [
    Check("value", g_value, run, 11000, 300000),
    Check("range", g_range, run, 7000, 200000),
    Check("program", g_program, run, 6000, 150000),
]
