"""P01: integer arithmetic."""
from ..core import Check
from .. import lang, plang

RULE = ("the program computes at least one arithmetic operation with a "
        "runtime operand and the reference model stays in the defined domain")
ASSUMPTIONS = [
    "division and remainder by zero are outside of the domain (the game "
    "refuses them); divisors are generated non-zero",
    "constant subexpressions that overflow are a compile error and are not "
    "generated here",
    "expressions call only functions that do not write variables the same "
    "expression reads (the language leaves that order open)",
    "scoreboard commands behave as the interpreter in acv/mcvm.py implements "
    "them: 32-bit wrap-around, / and % truncating toward zero",
]

OPS = ("bin", "neg", "aug", "math")


def run(prog):
    m, src, b, vm = plang.judge(prog)
    h = plang.heads(prog)
    return {"nontrivial": any(k in h for k in OPS),
            "tags": [k for k in "+-*/%" if k in h] +
            [k for k in ("neg", "math", "toint", "sc") if k in h]}


def g_assign(d):
    g = lang.Gen(d, bools=False, math=d.flip(30), depth=d.int(1, 5),
                 structs=d.flip(30))
    return plang.one_stmt(d, g, [plang.k_set("int"), plang.k_set("int"),
                                 plang.k_aug, plang.k_obs])


def g_program(d):
    g = lang.Gen(d, math=d.flip(50), structs=d.flip(40), depth=d.int(2, 4))
    return g.program()


CHECKS = [
    Check("assign", g_assign, run, 14000, 400000),
    Check("program", g_program, run, 8000, 250000),
]
