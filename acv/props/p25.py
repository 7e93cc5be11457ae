"""P25: the math module computes the documented functions."""
from ..core import Check, Skip, need
from ..h import build, execute, same, try_build
from .. import lang, plang
from ..mcvm import wrap

RULE = ("at least one math function is applied to a value unknown at compile "
        "time, or the compile-time value is used where only a constant may "
        "stand, or a call must be refused")
ASSUMPTIONS = [
    "divisors are not zero and exponents not negative (documented as "
    "undefined)",
    "min, max and pow of constants are constants; a constant result outside "
    "of the 32-bit range is an error",
    "the game's random command draws uniformly from its range",
]
INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1
EDGE = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, -10, INT_MAX, INT_MAX - 1,
        INT_MIN, INT_MIN + 1, 46340, 46341, -46341, 65536, -65536,
        1 << 30, -(1 << 30)]


# --- programs of the whole language ------------------------------------------

def g_prog(d):
    g = lang.Gen(d, math=2, structs=d.flip(30), depth=d.int(2, 4))
    return g.program()


def g_assign(d):
    g = lang.Gen(d, bools=d.flip(30), math=2, depth=d.int(1, 4),
                 structs=d.flip(30))
    return plang.one_stmt(d, g, [plang.k_set("int"), plang.k_set("int"),
                                 plang.k_aug, plang.k_obs])


def run_prog(prog):
    plang.judge(prog)
    return {"nontrivial": "math" in plang.heads(prog), "tags": []}


# --- tables of boundary values -----------------------------------------------

def ref(f, a):
    if f == "min":
        return min(a)
    if f == "max":
        return max(a)
    if f == "pow":
        return wrap(pow(a[0], a[1], 1 << 33))
    if f == "mod":
        return a[0] % a[1]
    return wrap(a[0] // a[1])


def exact(f, a):
    if f == "pow":
        if abs(a[0]) > 1 and a[1] >= 32:
            return None
        return a[0] ** a[1] if abs(a[0]) > 1 else \
            1 if a[1] == 0 else a[0] if a[1] % 2 or a[0] == 0 else 1
    if f == "floordiv":
        return a[0] // a[1]
    return ref(f, a)


def g_table(d):
    rows = []
    for _ in range(d.int(3, 10)):
        f = d.pick(["min", "max", "pow", "mod", "floordiv"])

        def num():
            return d.pick(EDGE) if d.flip(65) else d.int(INT_MIN, INT_MAX) \
                if d.flip() else d.int(-30, 30)
        if f in ("min", "max"):
            a = [num() for _ in range(d.int(1, 6))]
        elif f == "pow":
            a = [num(), d.pick([0, 1, 2, 3, 4, 5, 31, 32, 33, 100, INT_MAX,
                                1 << 30, d.int(0, 64)])]
        else:
            a = [num(), num()]
            if a[1] == 0:
                a[1] = d.pick([1, -1, 5, INT_MIN])
        how = [d.pick("vvl") for _ in a]      # variable or literal
        if all(h == "l" for h in how):
            e = exact(f, a)
            if e is None or not INT_MIN <= e <= INT_MAX:
                how[0] = "v"
        # where the result goes: new variable, one of the operands, augment,
        # straight into an output, a comparison
        rows.append([f, a, how, d.pick("nnoaskc"), d.int(0, 5)])
    return rows


def rlit(n):
    return "(-2147483647 - 1)" if n == INT_MIN else "(%d)" % n if n < 0 \
        else str(n)


def run_table(rows):
    src = ["import math", "import print",
           "def say(n: int):", '    print.tell(print.format("%0", n))',
           "def idn(n: int) -> int:", "    result n"]
    want = []

    def say(e, v):
        src.append("say(%s)" % e)
        want.append(str(v))
    known = 0
    for i, (f, a, how, dest, k) in enumerate(rows):
        args = []
        vs = {}
        for j, (x, h) in enumerate(zip(a, how)):
            if h == "v":
                n = "v%d_%d" % (i, j)
                src.append("%s := 0" % n)
                src.append("%s = %s" % (n, rlit(x)))
                vs[n] = x
                args.append(n)
            else:
                args.append(rlit(x))
        call = "math.%s(%s)" % (f, ", ".join(args))
        r = ref(f, a)
        known += bool(vs)
        if dest == "o" and vs:
            t = sorted(vs)[k % len(vs)]
            src.append("%s = %s" % (t, call))
            vs[t] = r
        elif dest == "a" and vs:
            t = sorted(vs)[k % len(vs)]
            op = "+-*"[k % 3]
            src.append("%s %s= %s" % (t, op, call))
            vs[t] = wrap(vs[t] + r if op == "+" else vs[t] - r
                         if op == "-" else vs[t] * r)
        elif dest == "s":
            say(call, r)
        elif dest == "k":
            say("idn(%s)" % call, r)
        elif dest == "c":
            src.append("b%d := idn(%s) == %s" % (i, call, call))
            src.append("say(int(b%d))" % i)
            want.append("1")
        else:
            src.append("r%d := %s" % (i, call))
            say("r%d" % i, r)
        for n in sorted(vs):
            say(n, vs[n])
    src = "\n".join(src) + "\n"
    b = build(src)
    vm = execute(b, None, src)
    same([e[2] for e in vm.events], want, "values of math functions", src, b)
    return {"nontrivial": known > 0, "tags": []}


# --- constants ---------------------------------------------------------------

def g_const(d):
    def ex(dep):
        k = d.int(0, 6)
        if dep <= 0 or k <= 1:
            return d.pick(EDGE) if d.flip(40) else d.int(-12, 12)
        f = d.pick(["min", "max", "pow"])
        if f == "pow":
            return [f, ex(dep - 1), ex(0) if d.flip(30) else d.int(0, 12)]
        return [f] + [ex(dep - 1) for _ in range(d.int(1, 4))]
    f = ex(3)
    return f if isinstance(f, list) else ["max", f, ex(2)]


def cval(e):
    if isinstance(e, int):
        return e
    a = [cval(x) for x in e[1:]]
    if any(x is None for x in a) or (e[0] == "pow" and a[1] < 0):
        return None
    v = exact(e[0], a)
    return v if v is not None and INT_MIN <= v <= INT_MAX else None


def rc(e):
    return rlit(e) if isinstance(e, int) else "math.%s(%s)" % (
        e[0], ", ".join(map(rc, e[1:])))


def run_const(e):
    v = cval(e)
    head = "import math\nimport print\n"
    src = head + "const c = %s\n" % rc(e) + \
        'print.tell("${c}")\nn := c\nprint.tell(print.format("%0", n))\n'
    src += "/say ${c}\nconst l = {%s, 5}\n" % rc(e) + \
        'print.tell("${l[0]}")\n'
    out, r = try_build(src)
    if v is None:
        need(out == "rejected", "constant out of range accepted\n%s", src)
        return {"nontrivial": True, "tags": ["refused"]}
    need(out == "ok", "valid constant refused: %s\n%s",
         r.text if out != "ok" else "", src)
    vm = execute(r, None, src)
    got = [x[2] if x[0] == "tellraw" else x[1] for x in vm.events]
    got = [str(x).replace("say ", "") for x in got]
    same(got, [str(v)] * 4, "constant value", src, r)
    return {"nontrivial": True, "tags": []}


# --- random numbers ----------------------------------------------------------

def g_rand(d):
    rows = []
    for _ in range(d.int(1, 5)):
        lo = d.pick(EDGE) if d.flip(30) else d.int(-9, 9)
        hi = d.pick([lo, lo + 1, lo + d.int(0, 20), INT_MAX])
        hi = min(max(hi, lo), INT_MAX)
        rows.append([lo, hi, d.pick("nuasif"), d.int(0, 2)])
    return {"rows": rows, "pick": d.pick(["lo", "hi", "mid"]),
            "again": d.int(1, 2)}


def run_rand(case):
    src = ["import math", "import print",
           "def say(n: int):", '    print.tell(print.format("%0", n))']
    drawn = []

    def rng(lo, hi):
        v = {"lo": lo, "hi": hi, "mid": (lo + hi) // 2}[case["pick"]]
        if len(drawn) % 2 and case["pick"] == "mid":
            v = lo
        drawn.append((lo, hi, v))
        return v
    n = 0
    for i, (lo, hi, how, k) in enumerate(case["rows"]):
        call = "math.randint(%s, %s)" % (rlit(lo), rlit(hi))
        if how == "n":
            src += ["r%d := %s" % (i, call)]
        elif how == "u":
            src += ["r%d := 0" % i, "r%d = %s" % (i, call)]
        elif how == "a":
            src += ["r%d := 5" % i, "r%d += %s" % (i, call)]
        elif how == "s":
            src += ["r%d := 5 - %s" % (i, call)]
        elif how == "i":
            src += ["inline def h%d() -> int:" % i, "    result " + call,
                    "r%d := h%d()" % (i, i)]
        else:
            src += ["def h%d() -> int:" % i, "    result " + call,
                    "r%d := h%d()" % (i, i)]
        src += ["say(r%d)" % i, "say(r%d)" % i]
    src = "\n".join(src) + "\n"
    b = build(src)
    vm = execute(b, None, src, rng=rng)
    for _ in range(case["again"] - 1):
        execute(b, vm=vm, src=src, init=False)
    want, j = [], 0
    for _ in range(case["again"]):
        for lo, hi, how, k in case["rows"]:
            need(j < len(drawn), "a random number was not drawn\n%s\n%s",
                 src, b.text()[:3000])
            same(drawn[j][:2], (lo, hi), "range of a random number", src, b)
            v = drawn[j][2]
            j += 1
            want += [str(wrap(5 + v if how == "a" else 5 - v
                              if how == "s" else v))] * 2
    same(j, len(drawn), "how many random numbers were drawn", src, b)
    same([e[2] for e in vm.events], want, "random values", src, b)
    return {"nontrivial": True, "tags": []}


# --- refusals ----------------------------------------------------------------

PRE = "import math\nn := 3\nb := True\n"
OKS = ["n = math.pow(n, 0)", "n = math.min(1)", "n = math.max(n)",
       "n = math.mod(-7, 3)", "n = math.floordiv(n, n)",
       "n = math.randint(3, 3)", "n = math.randint(min=1, max=2)",
       "n = math.pow(base=2, exp=30)", "n = math.mod(x=n, y=2)",
       "n = math.pow(-2, 31)", "n = math.pow(1, 2147483647)",
       "const c = math.pow(2, 10)", "const c = math.min(1, 2)"]
BADS = ["n = math.min()", "n = math.max()", "n = math.pow(2)",
        "n = math.pow(2, -1)", "n = math.pow(n, -1)", "n = math.pow(2, 31)",
        "n = math.pow(2, 1000000000)", "n = math.pow(-2, 33)",
        "n = math.pow(True, 2)", "n = math.pow(2, True)",
        "n = math.pow(1.5, 2)", "n = math.pow(1, 2, 3)",
        "n = math.mod(3, 0)", "n = math.floordiv(3, 0)",
        "n = math.floordiv(-2147483647 - 1, -1)",
        "n = math.mod(b, 2)", "n = math.mod(2)", "n = math.mod(n, 1.5)",
        "n = math.floordiv(n, b)", "n = math.floordiv(n)",
        'n = math.min(1, "2")', "n = math.min(1, b)", "n = math.max(1.5, 2)",
        "n = math.max(n, None)", "n = math.min({1, 2})",
        "n = math.min(1, z=2)", "n = math.randint(3, 2)",
        "n = math.randint(n, 5)", "n = math.randint(1, n)",
        "n = math.randint(1)", "n = math.randint()",
        "n = math.randint(1, 2, 3)", "n = math.randint(1.0, 2)",
        "n = math.randint(True, 2)", "b = math.min(1, 2)",
        "n = math.nope(1)", "n = math._math", "math.pow = 3", "math = 3",
        "const c = math.randint(1, 2)", "const c = math.min(n, 2)",
        "n = math.pow", "n = math.min(n) + True", "n = math.max + 1"]


def g_bad(d):
    return {"ok": d.sample(OKS, d.int(1, 2)), "bad": d.pick(BADS)}


def run_bad(case):
    good = PRE + "".join(p + "\n" for p in case["ok"]
                         if "const" not in p or p == case["ok"][0])
    out, r = try_build(good)
    need(out == "ok", "valid math call refused: %s\n%s",
         r.text if out != "ok" else "", good)
    out, r = try_build(PRE + case["bad"] + "\n")
    need(out == "rejected", "invalid math call accepted\n%s", case["bad"])
    return {"nontrivial": True, "tags": ["refused"]}


CHECKS = [
    Check("table", g_table, run_table, 6000, 100000),
    Check("programs", g_prog, run_prog, 4000, 100000),
    Check("assign", g_assign, run_prog, 6000, 100000),
    Check("constants", g_const, run_const, 2500, 30000),
    Check("random", g_rand, run_rand, 2000, 30000),
    Check("refused", g_bad, run_bad, 400, 2000),
]
