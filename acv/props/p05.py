"""P05: compile-time evaluation."""
from ..core import Check, Skip, Violation, need
from ..h import build, execute, same, try_build
from .. import ctlang

RULE = ("compiled programs that run a loop or call a function and print at "
        "least three values, and programs the model rejects")
ASSUMPTIONS = [
    "lists are not modified while they are iterated",
    "recursion is at most 12 deep and loops are short",
    "evaluation order inside one expression is not observable "
    "(only statements have effects)",
]


def judge(prog):
    src = ctlang.render(prog)
    m = ctlang.Machine(prog)
    err = None
    try:
        if "top" in prog:
            m.block(prog["top"], [{}], [None])
        else:
            m.call("entry", [], [])
        want = m.log
    except ctlang.CTError as e:
        err = e
    except ctlang.Long:
        raise Skip("long")
    if err is not None:
        out, r = try_build(src)
        need(out == "rejected",
             "accepted a compile-time computation that must fail (%s)\n%s",
             err, src)
        return {"nontrivial": True, "tags": ["rejected:" + str(err)]}
    b = build(src)
    vm = execute(b, None, src)
    got = [e[2] for e in vm.events if e[0] == "tellraw"]
    same(got, want, "values computed at compile time", src)
    return {"nontrivial": m.loop_iters + m.calls > 1 and len(want) >= 3,
            "tags": ["ok", "calls" if m.calls > 1 else "nocalls"]}


def g_functions(d):
    return ctlang.CGen(d).program()


def g_errors(d):
    return ctlang.CGen(d, errs=30).program()


def g_constants(d):
    return ctlang.CGen(d, errs=2).constants()


# --- numbers with a fraction ------------------------------------------------
# values are tagged ("i", n) or ("f", x); `%` only on non-negative operands
FLITS = ["0.5", "1.5", "2.0", "0.25", "3.125", "10.0", "0.1", "7.75", "100.5"]


def num(d, names, depth):
    """expression tree over literals and names"""
    if depth <= 0 or d.flip(35):
        k = d.int(0, 2)
        if k == 0 and names:
            return ["v", d.pick(names)]
        if k == 1:
            return ["f", d.pick(FLITS)]
        return ["i", d.int(0, 12)]
    if d.flip(15):
        return ["neg", num(d, names, depth - 1)]
    return ["op", d.pick("++--**//%"), num(d, names, depth - 1),
            num(d, names, depth - 1)]


def g_floats(d):
    body = []
    names = ["p0", "p1"]
    for i in range(d.int(1, 6)):
        k = d.int(0, 3)
        if k == 0 or len(names) == 2:
            body.append(["decl", "v%d" % i, num(d, names, 2)])
            names.append("v%d" % i)
        elif k == 1:
            body.append(["aug", d.pick("+-*/%"), d.pick(names),
                         num(d, names, 2)])
        elif k == 2:
            body.append(["set", d.pick(names), num(d, names, 2)])
        else:
            body.append(["show", num(d, names, 2)])
    body.append(["show", num(d, names, 2)])
    return {"args": [num(d, [], 1), num(d, [], 1)], "body": body,
            "top": d.flip(25)}


class Bad(Exception):
    pass


def arith(op, a, b):
    (ta, x), (tb, y) = a, b
    if op == "%" and (x < 0 or y <= 0) and not (ta == tb == "i"):
        raise Skip("remainder of negative numbers with a fraction")
    try:
        if ta == tb == "i":
            if op == "/":
                q = abs(x) // abs(y)
                r = q if (x < 0) == (y < 0) else -q
            elif op == "%":
                r = abs(x) % abs(y)
                r = -r if x < 0 else r
            else:
                r = {"+": x + y, "-": x - y, "*": x * y}[op]
            if not -2 ** 31 <= r < 2 ** 31:
                raise Bad("overflow")
            return ("i", r)
        x, y = float(x), float(y)
        r = x + y if op == "+" else x - y if op == "-" else \
            x * y if op == "*" else x / y if op == "/" else x % y
    except ZeroDivisionError:
        raise Bad("division by zero")
    if abs(r) > 1e15 or 0 < abs(r) < 1e-4:
        raise Skip("magnitude")
    return ("f", r)


def fev(e, env):
    h = e[0]
    if h == "v":
        return env[e[1]]
    if h == "i":
        return ("i", e[1])
    if h == "f":
        return ("f", float(e[1]))
    if h == "neg":
        t, x = fev(e[1], env)
        return (t, -x)
    return arith(e[1], fev(e[2], env), fev(e[3], env))


def frex(e):
    h = e[0]
    if h in "vif":
        return str(e[1])
    if h == "neg":
        return "-(%s)" % frex(e[1])
    return "(%s %s %s)" % (frex(e[2]), e[1], frex(e[3]))


def run_floats(case):
    env = {}
    shown = []
    bad = None
    n = 0
    try:
        env = {"p%d" % i: fev(a, {}) for i, a in enumerate(case["args"])}
        for s in case["body"]:
            if s[0] in ("decl", "set"):
                env[s[1]] = fev(s[2], env)
            elif s[0] == "aug":
                env[s[2]] = arith(s[1], env[s[2]], fev(s[3], env))
                n += 1
            else:
                t, x = fev(s[1], env)
                shown.append(str(x))
    except Bad as e:
        bad = e
    out = ["import print"]
    ex = [frex(a) for a in case["args"]]
    if case["top"] and not any(s[0] in ("aug", "set") for s in case["body"]):
        out += ["const p%d = %s" % (i, a) for i, a in enumerate(ex)]
        for s in case["body"]:
            out.append("const %s = %s" % (s[1], frex(s[2]))
                       if s[0] == "decl" else
                       'print.tell("${%s}")' % frex(s[1]))
    else:
        out.append("const def q(p0, p1) -> list:")
        out.append("    out := {}")
        for s in case["body"]:
            out.append("    " + (
                "%s := %s" % (s[1], frex(s[2])) if s[0] == "decl" else
                "%s = %s" % (s[1], frex(s[2])) if s[0] == "set" else
                "%s %s= %s" % (s[2], s[1], frex(s[3])) if s[0] == "aug" else
                "out.append(%s)" % frex(s[1])))
        out.append("    result out")
        out.append("for x in q(%s, %s):" % tuple(ex))
        out.append('    print.tell("${x}")')
    src = "\n".join(out) + "\n"
    if bad:
        r, e = try_build(src)
        need(r == "rejected", "accepted a constant computation that must fail"
             " (%s)\n%s", bad, src)
        return {"nontrivial": True, "tags": ["rejected:" + str(bad)]}
    b = build(src)
    vm = execute(b, None, src)
    same([e[2] for e in vm.events if e[0] == "tellraw"], shown,
         "numbers computed at compile time", src)
    return {"nontrivial": any("." in x for x in shown),
            "tags": ["aug" if n else "noaug"]}


CHECKS = [
    Check("floats", g_floats, run_floats, 3000, 60000),
    Check("functions", g_functions, judge, 9000, 200000),
    Check("errors", g_errors, judge, 3000, 60000),
    Check("constants", g_constants, judge, 6000, 120000),
]
