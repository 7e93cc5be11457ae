"""A model of Acacia's runtime language: JSON programs, their rendering to
source text, a reference interpreter and a generator.

A program is {"structs": [...], "funcs": [...], "body": [...]}.

expressions (JSON lists, head decides):
  ["i", n]  ["t", bool]  ["v", name]  ["f", expr, field]
  ["bin", op, a, b]  ["neg", a]  ["pos", a]  ["toint", b]
  ["cmp", [op..], [operand..]]  ["and", a, b..]  ["or", a, b..]  ["not", a]
  ["call", func, [[kw|None, expr]..]]  ["mk", struct, [[field, expr]..]]
  ["sc", holder, objective]   ["par", a]

statements:
  ["decl", name, type|None, expr]   ["const", name, expr]
  ["ref", name, lvalue]             ["set", lvalue, expr]
  ["aug", op, lvalue, expr]         ["if", [[cond, body]..], else|None]
  ["while", cond, body]             ["for", name, [const..], body]
  ["ex", expr]                      ["obs", [expr..]]
  ["swap", a, b]                    ["result", expr]   ["pass"]
  ["iface", path, body]             (at module level or in if/while)

functions: {"name", "inline", "params": [[name, mode, type, default|None]..],
            "ret": type|None, "body"}    mode: "val" | "const" | "ref"
"""
import itertools

from .mcvm import wrap, cdiv, cmod

INT_MIN = -2 ** 31
INT_MAX = 2 ** 31 - 1


class ModelError(Exception):
    """The program left the modelled domain (division by zero, fuel)."""


class ModelFuel(ModelError):
    pass


# --- rendering ------------------------------------------------------------

def lit(n):
    if n == INT_MIN:
        return "int.MIN"
    return str(n)


class Style:
    """Layout choices that must not change the meaning."""
    indent = "    "
    extra_par = False

    def sp(self):
        return " "

    def par(self):
        return False

    def line(self, ind):
        """text placed before a statement line"""
        return ""

    def eol(self):
        return ""

    def lead(self):
        """text between the indentation and the statement"""
        return ""

    def brk(self):
        """separator allowed inside brackets"""
        return ""

    def num(self, n):
        return lit(n)


PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "+": 5, "-": 5,
        "*": 6, "/": 6, "%": 6, "u": 7, "atom": 9}


def expr_prec(e):
    h = e[0]
    if h == "bin":
        return PREC[e[1]]
    if h in ("or", "and", "not", "cmp"):
        return PREC[h]
    if h in ("neg", "pos"):
        return PREC["u"]
    if h == "i" and e[1] < 0 and e[1] != INT_MIN:
        return PREC["u"]
    return PREC["atom"]


def rx(e, st, ctx=0):
    s = _rx(e, st)
    if expr_prec(e) < ctx or (ctx and st.par()):
        return "(" + st.brk() + s + st.brk() + ")"
    return s


def _rx(e, st):
    h = e[0]
    sp = st.sp
    if h == "i":
        return st.num(e[1])
    if h == "t":
        return "True" if e[1] else "False"
    if h == "v":
        return e[1]
    if h == "f":
        return rx(e[1], st, 9) + "." + e[2]
    if h == "bin":
        p = PREC[e[1]]
        return rx(e[2], st, p) + sp() + e[1] + sp() + rx(e[3], st, p + 1)
    if h == "neg":
        return "-" + rx(e[1], st, 8)
    if h == "pos":
        return "+" + rx(e[1], st, 8)
    if h == "toint":
        return "int(" + rx(e[1], st) + ")"
    if h == "cmp":
        s = rx(e[2][0], st, 5)
        for op, x in zip(e[1], e[2][1:]):
            s += sp() + op + sp() + rx(x, st, 5)
        return s
    if h in ("and", "or"):
        p = PREC[h]
        return (" " + h + " ").join(rx(x, st, p + 1) for x in e[1:])
    if h == "not":
        return "not " + rx(e[1], st, 4)
    if h == "call":
        return e[1] + "(" + st.brk() + ("," + sp()).join(
            (k + "=" if k else "") + rx(v, st) for k, v in e[2]) + \
            st.brk() + ")"
    if h == "mk":
        return e[1] + "(" + ("," + sp()).join(
            k + "=" + rx(v, st) for k, v in e[2]) + ")"
    if h == "sc":
        return 'scb("%s", "%s")' % (e[1], e[2])
    if h == "math":
        return "math." + e[1] + "(" + ("," + sp()).join(
            rx(x, st) for x in e[2]) + ")"
    if h == "par":
        return "(" + rx(e[1], st) + ")"
    raise AssertionError(e)


def render_block(body, st, ind, out):
    for s in body:
        render_stmt(s, st, ind, out)
    if not body:
        out.append(st.indent * ind + st.lead() + "pass")


def render_stmt(s, st, ind, out):
    h = s[0]
    pre = st.line(ind)
    if pre:
        out.append(pre)
    I = st.indent * ind
    sp = st.sp

    def put(t):
        # everything after the slash belongs to a raw command
        out.append(I + st.lead() + t + (
            "" if h == "raw" and t.startswith("/") else st.eol()))
    if h == "decl":
        if s[2] is None:
            put(s[1] + sp() + ":=" + sp() + rx(s[3], st))
        elif s[3] is None:
            put(s[1] + ":" + sp() + s[2])
        else:
            put(s[1] + ":" + sp() + s[2] + sp() + "=" + sp() + rx(s[3], st))
    elif h == "const":
        put("const " + s[1] + sp() + "=" + sp() + rx(s[2], st))
    elif h == "ref":
        put("&" + s[1] + sp() + "=" + sp() + rx(s[2], st))
    elif h == "set":
        put(rx(s[1], st) + sp() + "=" + sp() + rx(s[2], st))
    elif h == "aug":
        put(rx(s[2], st) + sp() + s[1] + "=" + sp() + rx(s[3], st))
    elif h == "if":
        for k, (c, b) in enumerate(s[1]):
            put(("if " if k == 0 else "elif ") + rx(c, st) + ":")
            render_block(b, st, ind + 1, out)
        if s[2] is not None:
            put("else:")
            render_block(s[2], st, ind + 1, out)
    elif h == "while":
        put("while " + rx(s[1], st) + ":")
        render_block(s[2], st, ind + 1, out)
    elif h == "for":
        if s[2] and s[2][0][0] in ("f", "sc") or \
                (s[2] and s[2][0][0] == "v" and len(s) > 4):
            put("for " + s[1] + " in list.repeat(" + rx(s[2][0], st) + ","
                + sp() + str(len(s[2])) + "):")
            render_block(s[3], st, ind + 1, out)
            return
        put("for " + s[1] + " in {" + ("," + sp()).join(
            rx(x, st) for x in s[2]) + "}:")
        render_block(s[3], st, ind + 1, out)
    elif h == "ex":
        put(rx(s[1], st))
    elif h == "obs":
        fmt = " ".join("%" + str(k) for k in range(len(s[1])))
        put('print.tell(print.format("%s", %s))' % (
            fmt, ", ".join(rx(x, st) for x in s[1])))
    elif h == "say":
        put("/say m%d" % s[1])
    elif h == "swap":
        put("swap(" + rx(s[1], st) + "," + sp() + rx(s[2], st) + ")")
    elif h == "result":
        put("result " + rx(s[1], st))
    elif h == "pass":
        put("pass")
    elif h == "iface":
        put("interface " + s[1] + ":")
        render_block(s[2], st, ind + 1, out)
    elif h == "raw":
        put(s[1])
    else:
        raise AssertionError(s)


MODE = {"val": "", "const": "const ", "ref": "&"}


def render_func(f, st, ind, out):
    ps = []
    for name, mode, ty, default in f["params"]:
        t = MODE[mode] + name
        if ty is not None:
            t += ": " + ty
        if default is not None:
            t += " = " + rx(default, st)
        ps.append(t)
    I = st.indent * ind
    head = I + ("inline " if f["inline"] else "") + "def " + f["name"] + \
        "(" + ", ".join(ps) + ")"
    if f["ret"]:
        head += " -> " + f.get("retmode", "") + f["ret"]
    out.append(head + ":")
    render_block(f["body"], st, ind + 1, out)


def render(prog, st=None):
    st = st or Style()
    out = []
    if prog.get("print", True):
        out.append("import print")
    if prog.get("math"):
        out.append("import math")
    for s in prog.get("structs", ()):
        out.append("struct " + s["name"] + (
            " extends " + ", ".join(s["bases"]) if s.get("bases") else "")
            + ":")
        for n, t in s["fields"]:
            out.append(st.indent + st.lead() + n + ": " + t)
        if not s["fields"]:
            out.append(st.indent + "pass")
    for f in prog.get("funcs", ()):
        if f.get("at") is None:
            render_func(f, st, 0, out)
    for s in prog["body"]:
        if s[0] == "def":
            render_func(s[1], st, 0, out)
        else:
            render_stmt(s, st, 0, out)
    return "\n".join(out) + "\n"


# --- reference interpreter ------------------------------------------------

CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b,
       "<": lambda a, b: a < b, ">": lambda a, b: a > b,
       "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def arith(op, a, b):
    if op == "+":
        return wrap(a + b)
    if op == "-":
        return wrap(a - b)
    if op == "*":
        return wrap(a * b)
    if b == 0:
        raise ModelError("division by zero")
    return wrap(cdiv(a, b)) if op == "/" else wrap(cmod(a, b))


def math_fn(name, a):
    if name == "min":
        return min(a)
    if name == "max":
        return max(a)
    if name == "pow":
        r = 1
        for _ in range(a[1]):
            r = wrap(r * a[0])
        return r
    if a[1] == 0:
        raise ModelError("division by zero")
    return wrap(a[0] % a[1]) if name == "mod" else wrap(a[0] // a[1])


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


def copy_val(v):
    """struct values are {field: Cell}"""
    if isinstance(v, dict):
        return {k: Cell(copy_val(c.v)) for k, c in v.items()}
    return v


def store(cell, v):
    """assign by value, keeping the identity of struct fields"""
    if isinstance(v, dict):
        snap = copy_val(v)
        for k, c in cell.v.items():
            # a derived struct may have more fields than the target
            store(c, snap[k].v)
    else:
        cell.v = v


class Model:
    def __init__(self, prog, fuel=20000):
        self.prog = prog
        self.fuel = fuel
        self.structs = {}
        for s in prog.get("structs", ()):
            fields = []
            for b in s.get("bases", ()):
                fields += self.structs[b]
            fields += [tuple(x) for x in s["fields"]]
            self.structs[s["name"]] = fields
        self.funcs = {f["name"]: f for f in prog.get("funcs", ())}
        self.globals = {}
        self.scores = {}
        self.obs = []
        self.stats = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def fresh(self, ty):
        if ty in self.structs:
            return Cell({n: self.fresh(t) for n, t in self.structs[ty]})
        return Cell(None)

    def new_cell(self, ty, v):
        return Cell(self.project(ty, v))

    def project(self, ty, v):
        """a copy of v as a value of type ty (None: of its own type)"""
        if ty in self.structs:
            return {n: Cell(self.project(t, v[n].v))
                    for n, t in self.structs[ty]}
        return copy_val(v)

    def run(self):
        self.block(self.prog["body"], self.globals)
        return self.obs

    def look(self, name, env):
        e = env
        while e is not None:
            if name in e:
                return e[name]
            e = e.get("^")
        raise KeyError(name)

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def lv(self, e, env):
        h = e[0]
        if h == "v":
            return self.look(e[1], env)
        if h == "f":
            return self.lv(e[1], env).v[e[2]]
        if h == "sc":
            return self.scores.setdefault((e[1], e[2]), Cell(None))
        if h == "par":
            return self.lv(e[1], env)
        if h == "call":
            return self.call(e, env)
        raise AssertionError(e)

    def stmt(self, s, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise ModelFuel
        h = s[0]
        if h == "decl":
            if s[3] is None:
                env[s[1]] = self.fresh(s[2])
            else:
                env[s[1]] = self.new_cell(s[2], self.ev(s[3], env))
        elif h == "const":
            env[s[1]] = Cell(self.ev(s[2], env))
        elif h == "ref":
            env[s[1]] = self.lv(s[2], env)
        elif h == "set":
            v = self.ev(s[2], env)
            store(self.lv(s[1], env), v)
        elif h == "aug":
            v = self.ev(s[3], env)
            c = self.lv(s[2], env)
            c.v = arith(s[1], c.v, v)
        elif h == "if":
            for c, b in s[1]:
                if self.ev(c, env):
                    self.stat("then")
                    return self.block(b, env)
            self.stat("else")
            if s[2] is not None:
                self.block(s[2], env)
        elif h == "while":
            n = 0
            while self.ev(s[1], env):
                self.block(s[2], env)
                n += 1
                self.fuel -= 1
                if self.fuel < 0:
                    raise ModelFuel
            self.stat("loop%d" % min(n, 2))
        elif h == "for":
            for x in s[2]:
                inner = {"^": env}
                inner[s[1]] = self.lv(x, env) if x[0] in ("v", "f", "sc") \
                    else Cell(self.ev(x, env))
                self.block(s[3], inner)
        elif h == "ex":
            self.ev(s[1], env)
        elif h == "obs":
            self.obs.append(" ".join(
                str(int(self.ev(x, env))) for x in s[1]))
        elif h == "say":
            self.obs.append("say m%d" % s[1])
        elif h == "swap":
            a, b = self.lv(s[1], env), self.lv(s[2], env)
            va, vb = copy_val(a.v), copy_val(b.v)
            store(a, vb)
            store(b, va)
        elif h == "result":
            e = env
            while "!ret" not in e:
                e = e["^"]
            if e["!ref"]:
                e["!ret"] = self.lv(s[1], env)
            else:
                e["!ret"].v = self.project(e["!rty"], self.ev(s[1], env))
        elif h in ("pass", "def", "raw", "iface"):
            pass
        else:
            raise AssertionError(s)

    def call(self, e, env):
        f = self.funcs[e[1]]
        params = f["params"]
        given = {}
        pos = 0
        for k, v in e[2]:
            if k is None:
                k = params[pos][0]
                pos += 1
            given[k] = v
        inner = {"^": f.get("env", self.globals), "!ret": Cell(None),
                 "!rty": f["ret"], "!ref": f.get("retmode") == "&"}
        for name, mode, ty, default in params:
            if mode == "ref":
                inner[name] = self.lv(given[name], env)
                continue
            v = self.ev(given[name], env) if name in given else \
                self.ev(default, self.globals)
            inner[name] = Cell(self.project(ty, v))
        self.stat("call")
        self.block(f["body"], inner)
        return inner["!ret"]

    def ev(self, e, env):
        h = e[0]
        if h == "i" or h == "t":
            return e[1]
        if h in ("v", "f", "sc"):
            v = self.lv_or_val(e, env)
            if v is None:
                raise ModelError("read of an unset variable %r" % (e,))
            return v
        if h == "par":
            return self.ev(e[1], env)
        if h == "bin":
            return arith(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if h == "neg":
            return wrap(-self.ev(e[1], env))
        if h == "pos":
            return self.ev(e[1], env)
        if h == "toint":
            return int(self.ev(e[1], env))
        if h == "cmp":
            vs = [self.ev(x, env) for x in e[2]]
            return all(CMP[op](vs[k], vs[k + 1])
                       for k, op in enumerate(e[1]))
        if h == "and":
            return all([self.ev(x, env) for x in e[1:]])
        if h == "or":
            return any([self.ev(x, env) for x in e[1:]])
        if h == "not":
            return not self.ev(e[1], env)
        if h == "call":
            return self.call(e, env).v
        if h == "math":
            return math_fn(e[1], [self.ev(x, env) for x in e[2]])
        if h == "mk":
            c = self.fresh(e[1])
            for k, v in e[2]:
                store(c.v[k], self.ev(v, env))
            return c.v
        raise AssertionError(e)

    def lv_or_val(self, e, env):
        if e[0] == "f" and e[1][0] in ("call", "mk"):
            return self.ev(e[1], env)[e[2]].v
        return self.lv(e, env).v


# --- generation -----------------------------------------------------------

INTERESTING = [0, 1, -1, 2, 3, -2, 5, 7, 10, -10, 64, 100, 255, 256, -256,
               1000, 46340, 46341, 65535, 65536, 2 ** 30, INT_MAX, INT_MIN,
               INT_MAX - 1, INT_MIN + 1, -7, 13, 12345, -99999]


class _BadConst(Exception):
    pass


class Gen:
    """Random well-typed programs.  `w` holds feature weights."""

    DEFAULT = dict(
        div=True, calls=True, structs=True, bools=True, loops=True,
        forlist=True, scb=True, swap=True, refs=True, consts=True,
        inline=True, nfun=2, depth=3, stmts=5, nest=2, small=False,
        chain=True, math=False, retmodes=True, say=True,
    )

    def __init__(self, d, **w):
        self.d = d
        self.w = dict(self.DEFAULT)
        self.w.update(w)
        self.n = 0
        self.structs = []
        self.sfields = {}
        self.funcs = []
        self.scores = []
        # scopes: list of dicts name -> (type, kind)  kind: var|const|prot
        self.scopes = [{}]
        self.fcv = {}       # inline const function -> possible results
        self.cvals = {}     # constant name -> possible values
        self.loop_depth = 0
        self.in_fun = None
        self.cost = 0

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # -- scope helpers
    def visible(self):
        r = {}
        for s in self.scopes:
            r.update(s)
        return r

    def paths(self, ty, lval):
        """(expr) list of readable/assignable paths of type ty"""
        res = []
        for name, (t, kind) in self.visible().items():
            if lval and kind != "var":
                continue
            self._paths(["v", name], t, ty, res)
        if ty == "int":
            for h, o in self.scores:
                res.append(["sc", h, o])
        return res

    def _paths(self, e, t, ty, res):
        if t == ty:
            res.append(e)
        for n, ft in self.sfields.get(t, ()):
            self._paths(["f", e, n], ft, ty, res)

    # -- compile-time values: every constant subexpression the compiler may
    # fold must be defined (no overflow, no division by zero)
    def cv(self, e):
        """possible values of a constant expression; None: not constant"""
        h = e[0]
        if h in ("i", "t"):
            return [e[1]]
        if h == "v":
            return self.cvals.get(e[1])
        if h in ("par", "pos"):
            return self.cv(e[1])
        if h == "call":
            return self.fcv.get(e[1])
        if h == "toint" and self.cv(e[1]) is None:
            # the compiler may find out that a condition is always the same
            return [0, 1]
        if h == "math" and e[1] == "pow" and e[2][1] == ["i", 0]:
            return [1]
        if h in ("bin", "neg", "toint", "not", "cmp", "and", "or", "math"):
            subs = e[2:] if h == "bin" else \
                e[2] if h in ("cmp", "math") else e[1:]
            vs = [self.cv(x) for x in subs]
            if any(v is None for v in vs):
                return None
            res = []
            for t in itertools.product(*vs):
                v = self.fold(e, t)
                if v not in res:
                    res.append(v)
                if len(res) > 12:
                    raise _BadConst
            return res
        return None

    @staticmethod
    def fold(e, t):
        h = e[0]
        if h == "bin":
            if e[1] in "/%" and t[1] == 0:
                raise _BadConst
            a, b = t
            v = a + b if e[1] == "+" else a - b if e[1] == "-" else \
                a * b if e[1] == "*" else cdiv(a, b) if e[1] == "/" else \
                cmod(a, b)
        elif h == "neg":
            v = -t[0]
        elif h == "toint":
            v = int(t[0])
        elif h == "math":
            if e[1] in ("mod", "floordiv") and t[1] == 0:
                raise _BadConst
            v = min(t) if e[1] == "min" else max(t) if e[1] == "max" else \
                t[0] ** t[1] if e[1] == "pow" else \
                t[0] % t[1] if e[1] == "mod" else t[0] // t[1]
        elif h == "not":
            return not t[0]
        elif h == "and":
            return all(t)
        elif h == "or":
            return any(t)
        else:
            return all(CMP[op](t[k], t[k + 1]) for k, op in enumerate(e[1]))
        if not INT_MIN <= v <= INT_MAX:
            raise _BadConst
        return v

    def ok(self, e, instead):
        """e, or `instead` when folding e would be undefined"""
        try:
            self.cv(e)
            return e
        except _BadConst:
            return instead

    # -- expressions
    def intlit(self):
        d = self.d
        if self.w["small"]:
            return (d.int(0, 39) + 9) % 40 - 9
        k = d.int(0, 9)
        if k < 5:
            return d.int(0, 12)
        if k < 6:
            return -1 - d.int(0, 19)
        if k < 9:
            return d.pick(INTERESTING)
        return d.int(INT_MIN, INT_MAX)

    def divisor(self, depth, pure):
        d = self.d
        k = d.int(0, 5)
        if k < 3:
            v = self.intlit()
            return ["i", v if v else 3]
        prot = [["v", n] for n, (t, kd) in self.visible().items()
                if kd == "prot"]
        if prot and k < 5:
            return d.pick(prot)
        m = d.int(2, 9)
        return ["bin", d.pick("+-"), ["bin", "%", self.ie(depth - 1, pure),
                                      ["i", m]], ["i", m + d.int(0, 5)]]

    def const_int(self, depth=1):
        d = self.d
        cs = [n for n, (t, k) in self.visible().items()
              if k == "const" and t == "int"]
        k = d.int(0, 3)
        if cs and k == 0:
            return ["v", d.pick(cs)]
        if depth > 0 and k == 1:
            op = d.pick("+-*/%") if self.w["div"] else d.pick("+-*")
            b = self.const_int(depth - 1)
            if op in "/%":
                v = self.intlit()
                b = ["i", v or 5]
            a = self.const_int(depth - 1)
            return self.ok(["bin", op, a, b], a)
        return ["i", self.intlit()]

    def ie(self, depth=None, pure=True):
        d = self.d
        if depth is None:
            depth = self.w["depth"]
        if depth <= 0 or not d.flip(80):
            ps = self.paths("int", False)
            if ps and d.flip(75):
                return d.pick(ps)
            return ["i", self.intlit()]
        if self.w["math"] == 2 and d.flip(45):
            return self.math(depth, pure)
        k = d.int(0, 11)
        if k <= 5:
            ops = "+-*/%" if self.w["div"] else "+-*"
            op = d.pick(ops)
            a = self.ie(depth - 1, pure)
            b = self.divisor(depth, pure) if op in "/%" \
                else self.ie(depth - 1, pure)
            return self.ok(["bin", op, a, b], a)
        if k == 6:
            a = self.ie(depth - 1, pure)
            return self.ok(["neg", a], a)
        if k == 7:
            if d.flip(70):
                return self.const_int(2)
            return ["pos", self.ie(depth - 1, pure)]
        if k == 8 and self.w["bools"]:
            return ["toint", self.be(depth - 1, pure)]
        if k == 9 and self.w["math"]:
            return self.math(depth, pure)
        if k >= 9 and self.w["calls"]:
            c = self.call("int", depth - 1)
            if c is not None:
                return c
        return self.ie(depth - 1, pure)

    def math(self, depth, pure):
        d = self.d
        f = d.pick(["min", "max", "pow", "mod", "floordiv"])
        a = self.ie(depth - 1, pure)
        if f in ("min", "max"):
            e = ["math", f, [a] + [self.ie(depth - 1, pure)
                                   for _ in range(d.int(0, 2))]]
            if self.w["math"] == 2:
                e[2] += [self.ie(0) for _ in range(d.int(0, 3))]
                e[2] = d.shuffle(e[2])
        elif f == "pow":
            e = ["math", f, [a, ["i", d.int(0, 9)]]]
            if self.w["math"] == 2 and d.flip(30):
                e[2][1] = ["i", d.int(10, 70)]
            if d.flip(30):
                e = ["math", f, [a, ["bin", "%", ["math", "max", [
                    self.ie(1), ["i", 0]]], ["i", d.int(1, 8)]]]]
        else:
            e = ["math", f, [a, self.divisor(depth, pure)]]
        return self.ok(e, a)

    def be(self, depth=None, pure=True):
        d = self.d
        if depth is None:
            depth = self.w["depth"]
        if depth <= 0:
            ps = self.paths("bool", False)
            if ps and d.flip(60):
                return d.pick(ps)
            if d.flip(30):
                return ["t", d.flip()]
            return ["cmp", [d.pick(list(CMP))],
                    [self.ie(0), self.ie(0)]]
        k = d.int(0, 11)
        if k <= 3:
            n = 1 if not self.w["chain"] or d.flip(75) else d.int(2, 3)
            e = ["cmp", [d.pick(list(CMP)) for _ in range(n)],
                 [self.ie(depth - 1, pure) for _ in range(n + 1)]]
            return self.ok(e, ["t", True])
        if k == 4:
            return ["cmp", [d.pick(["==", "!="])],
                    [self.be(depth - 1, pure), self.be(depth - 1, pure)]]
        if k <= 6:
            h = d.pick(["and", "or"])
            xs = [self.be(depth - 1, pure) for _ in range(d.int(2, 3))]
            return self.ok([h] + xs, xs[0])
        if k <= 8:
            return ["not", self.be(depth - 1, pure)]
        if k == 9 and self.w["calls"]:
            c = self.call("bool", depth - 1)
            if c is not None:
                return c
        ps = self.paths("bool", False)
        if ps:
            return d.pick(ps)
        return self.be(depth - 1, pure)

    def derived(self, ty):
        """struct types assignable to ty"""
        res = [ty]
        for s in self.structs:
            if any(b in res for b in s["bases"]):
                res.append(s["name"])
        return res

    def se(self, ty, depth=1, exact=False):
        """struct-typed expression"""
        d = self.d
        if not exact and depth > -4 and d.flip(40):
            ty = d.pick(self.derived(ty))
        k = d.int(0, 2)
        ps = self.paths(ty, False)
        if ps and k == 0:
            return d.pick(ps)
        if k == 1 and self.w["calls"] and depth > -2:
            c = self.call(ty, depth - 1)
            if c is not None:
                return c
        fs = self.sfields[ty]
        return ["mk", ty, [[n, self.ex(t, depth - 1)]
                           for n, t in d.shuffle(fs)]]

    def ex(self, ty, depth=None, exact=False):
        if ty == "int":
            return self.ie(depth)
        if ty == "bool":
            return self.be(depth)
        return self.se(ty, 1 if depth is None else depth, exact)

    def decl(self, n, ty, depth=None):
        if self.d.flip():
            return ["decl", n, ty, self.ex(ty, depth)]
        return ["decl", n, None, self.ex(ty, depth, True)]

    def call(self, ty, depth, pure=True):
        d = self.d
        cands = [f for f in self.funcs if f["ret"] == ty and
                 (f["pure"] or not pure)]
        if not cands or (self.loop_depth and self.cost > 400):
            return None
        return self.call_of(d.pick(cands), depth)

    def call_of(self, f, depth):
        d = self.d
        args = []
        kws = False
        used = set()
        params = f["params"]
        order = list(range(len(params)))
        # a positional prefix, then keywords in any order
        npos = d.int(0, len(params))
        res = []
        for i in range(npos):
            a = self.arg(params[i], depth, used, f["inline"])
            if a is None:
                return None
            res.append([None, a])
        rest = d.shuffle(order[npos:])
        for i in rest:
            if params[i][3] is not None and d.flip(60):
                continue
            a = self.arg(params[i], depth, used, f["inline"])
            if a is None:
                return None
            res.append([params[i][0], a])
        return ["call", f["name"], res]

    def arg(self, p, depth, used, exact=False):
        d = self.d
        name, mode, ty, default = p
        if mode == "ref":
            ps = [x for x in self.paths(ty, True) if str(x) not in used]
            if not ps:
                return None
            x = d.pick(ps)
            used.add(str(x))
            return x
        if mode == "const":
            v = d.pick(self.cvals[name])
            return ["t", v] if ty == "bool" else ["i", v]
        return self.ex(ty, depth, exact)

    # -- types
    def pick_type(self):
        d = self.d
        k = d.int(0, 9)
        if self.structs and k >= 8:
            return d.pick(self.structs)["name"]
        if self.w["bools"] and k >= 5:
            return "bool"
        return "int"

    def gen_structs(self):
        d = self.d
        w_ns = self.w.get("nstructs", 2)
        for _ in range(d.int(0, w_ns)):
            name = self.name("S")
            bases = []
            if self.structs and d.flip(50):
                bases = [b["name"] for b in d.sample(
                    self.structs, d.int(1, min(2, len(self.structs))))]
                if len(bases) == 2 and (
                        {n for n, _ in self.sfields[bases[0]]} &
                        {n for n, _ in self.sfields[bases[1]]}):
                    bases.pop()
            fields = []
            lo = 0 if bases else 1
            for _ in range(d.int(lo, 3)):
                t = "int"
                k = d.int(0, 4)
                if k == 1:
                    t = "bool"
                if k == 2 and self.structs:
                    t = d.pick(self.structs)["name"]
                fields.append([self.name("m"), t])
            self.structs.append({"name": name, "fields": fields,
                                 "bases": bases})
            fs = []
            for b in bases:
                fs += self.sfields[b]
            self.sfields[name] = fs + [tuple(x) for x in fields]

    def gen_func(self, inline, pure):
        d = self.d
        f = {"name": self.name("fn"), "inline": inline, "params": [],
             "ret": None, "body": [], "pure": pure}
        scope = {}
        seen_default = False
        for _ in range(d.int(0, 3)):
            mode = "val"
            if inline:
                mode = d.pick(["val", "val", "const", "ref"])
                if mode == "ref" and pure:
                    mode = "val"
            ty = self.pick_type()
            if mode == "const" and ty not in ("int", "bool"):
                ty = "int"
            default = None
            if mode != "ref" and ty in ("int", "bool") and (
                    seen_default or d.flip(25)):
                default = ["i", self.intlit()] if ty == "int" \
                    else ["t", d.flip()]
                seen_default = True
            elif seen_default:
                # after a default every parameter needs one
                continue
            pname = self.name("p")
            f["params"].append([pname, mode, ty, default])
            if mode == "const":
                vs = [d.flip()] if ty == "bool" else \
                    [self.intlit() for _ in range(d.int(1, 3))]
                if default is not None:
                    vs.append(default[1])
                self.cvals[pname] = vs
            scope[pname] = (ty, "const" if mode == "const" else "var")
        f["ret"] = self.pick_type() if pure or d.flip(60) else None
        w_ret = self.w["retmodes"] and d.flip(35)
        saved = self.scopes
        glob = self.scopes[0]
        if pure:
            # pure functions may read module-level variables
            base = {k: (t, "ro" if kd == "var" else kd)
                    for k, (t, kd) in glob.items()}
        else:
            base = glob
        self.scopes = [base, scope]
        sc, self.scores = self.scores, ([] if pure else self.scores)
        body = f["body"]
        if inline and w_ret and self.gen_retmode(f, scope):
            self.scopes = saved
            self.scores = sc
            self.funcs.append(f)
            return f
        self.in_fun = f
        if f["ret"]:
            if self.w["forlist"] and d.flip(15):
                # set in a loop, possibly more than once
                n = self.name("i")
                xs = [self.const_int(1) for _ in range(d.int(1, 3))]
                self.scopes.append({n: ("int", "const")})
                self.cvals[n] = sorted({v for x in xs for v in self.cv(x)})
                body.append(["for", n, xs, [
                    ["result", self.ex(f["ret"], 1, inline)]]])
                self.scopes.pop()
            else:
                body.append(["result", self.ex(f["ret"], 1, inline)])
        for _ in range(d.int(0, 3)):
            self.gen_stmt(body, 1, not pure)
        if f["ret"] and d.flip(70):
            body.append(["result", self.ex(f["ret"], 2, inline)])
        if not pure and not body:
            body.append(["obs", [self.ie(1)]])
        self.in_fun = None
        self.scopes = saved
        self.scores = sc
        self.funcs.append(f)
        return f

    def gen_retmode(self, f, scope):
        """make f return a constant or a reference, if its parameters allow"""
        refs = [p for p in f["params"] if p[1] == "ref"]
        consts = [p for p in f["params"] if p[1] == "const" and p[2] == "int"]
        d = self.d
        if refs and (not consts or d.flip()):
            p = d.pick(refs)
            f["ret"], f["retmode"] = p[2], "&"
            if d.flip():
                f["body"].append(["obs", [self.ie(1)]])
                f["pure"] = False
            res = ["result", ["v", p[0]]]
            f["body"].append(["for", self.name("i"), [["i", d.int(0, 9)]],
                              [res]] if d.flip(20) else res)
            return True
        if consts:
            p = d.pick(consts)
            k = ["i", d.int(0, 9)]
            e = d.pick([["v", p[0]], ["bin", d.pick("+-*"), ["v", p[0]], k]])
            try:
                vs = self.cv(e)
            except _BadConst:
                e = ["v", p[0]]
                vs = self.cv(e)
            f["ret"], f["retmode"] = "int", "const "
            # must not read anything at runtime
            res = ["result", e]
            f["body"][:] = [["for", self.name("i"), [["i", d.int(0, 9)]],
                             [res]] if d.flip(20) else res]
            f["pure"] = True
            self.fcv[f["name"]] = vs
            return True
        return False

    # -- statements
    def gen_stmt(self, out, nest, effects=True):
        d = self.d
        w = self.w
        k = d.int(0, 20)
        f = self.in_fun
        if f is not None and f["ret"] and not f.get("retmode") and \
                d.flip(12):
            out.append(["result", self.ex(f["ret"], 1, f["inline"])])
            return
        if k == 0 and d.flip(30):
            ty = self.pick_type()
            n = self.name("x")
            out.append(["decl", n, ty, None])
            if ty in self.sfields or d.flip():
                out.append(["set", ["v", n], self.ex(ty)])
            else:
                out.append(["if", [[self.be(2), [
                    ["set", ["v", n], self.ex(ty)]]]],
                    [["set", ["v", n], self.ex(ty)]]])
            self.scopes[-1][n] = (ty, "var")
        elif k <= 3:
            ty = self.pick_type()
            n = self.name("x")
            out.append(self.decl(n, ty))
            self.scopes[-1][n] = (ty, "var")
        elif k <= 6:
            ty = self.pick_type()
            ps = self.paths(ty, True)
            if ps:
                out.append(["set", d.pick(ps), self.ex(ty)])
        elif k <= 9:
            ps = self.paths("int", True)
            if ps:
                op = d.pick("+-*/%" if w["div"] else "+-*")
                v = self.divisor(1, True) if op in "/%" else self.ie()
                out.append(["aug", op, d.pick(ps), v])
        elif k == 10:
            if w["consts"]:
                n = self.name("c")
                if d.flip(75):
                    e = self.const_int(2)
                    out.append(["const", n, e])
                    self.scopes[-1][n] = ("int", "const")
                    self.cvals[n] = self.cv(e)
                else:
                    b = d.flip()
                    self.cvals[n] = [b]
                    out.append(["const", n, ["t", b]])
                    self.scopes[-1][n] = ("bool", "const")
        elif k == 11:
            if w["refs"]:
                ty = self.pick_type()
                ps = self.paths(ty, True)
                if ps:
                    n = self.name("r")
                    out.append(["ref", n, d.pick(ps)])
                    self.scopes[-1][n] = (ty, "var")
        elif k == 12:
            if w["swap"]:
                ty = self.pick_type()
                ps = self.paths(ty, True)
                if len(ps) >= 2:
                    a, b = d.sample(ps, 2)
                    # overlapping struct paths (x and x.f) have other types
                    out.append(["swap", a, b])
        elif k == 20 and effects and w["retmodes"]:
            cands = [f for f in self.funcs if f.get("retmode") == "&"]
            if cands:
                c = self.call_of(d.pick(cands), 1)
                if c is not None:
                    f = next(f for f in cands if f["name"] == c[1])
                    if f["ret"] == "int" and d.flip():
                        out.append(["aug", d.pick("+-*"), c, self.ie(2)])
                    else:
                        out.append(["set", c, self.ex(f["ret"], 2)])
        elif k == 13 and effects:
            cands = [f for f in self.funcs if not f["pure"] and
                     not f.get("retmode")]
            if cands and w["calls"]:
                f = d.pick(cands)
                c = self.call_of(f, 1)
                if c is not None:
                    if f["ret"] and d.flip(60):
                        ty = f["ret"]
                        ps = self.paths(ty, True)
                        if ps and d.flip():
                            out.append(["set", d.pick(ps), c])
                        else:
                            n = self.name("x")
                            out.append(["decl", n, ty if d.flip() else None,
                                        c])
                            self.scopes[-1][n] = (ty, "var")
                    else:
                        out.append(["ex", c])
        elif k <= 15 and nest > 0:
            if w["bools"]:
                self.gen_if(out, nest, effects)
        elif k == 16 and nest > 0 and w["loops"] and self.loop_depth < 2:
            self.gen_while(out, nest, effects)
        elif k == 17 and nest > 0 and w["forlist"]:
            n = self.name("i")
            ps = self.paths("int", True)
            if ps and d.flip(35):
                xs = [d.pick(ps)] * d.int(0, 3)
                if not xs:
                    return
                self.scopes.append({n: ("int", "var")})
                b = self.gen_body(nest - 1, effects)
                self.scopes.pop()
                out.append(["for", n, xs, b, "rep"])
                return
            xs = [self.const_int(1) for _ in range(d.int(0, 4))]
            self.scopes.append({n: ("int", "const")})
            self.cvals[n] = sorted({v for x in xs for v in self.cv(x)})
            b = self.gen_body(nest - 1, effects)
            self.scopes.pop()
            out.append(["for", n, xs, b])
        elif effects:
            self.gen_obs(out)

    def gen_body(self, nest, effects):
        body = []
        for _ in range(self.d.int(1, 3)):
            self.gen_stmt(body, nest, effects)
        if self.d.flip(5):
            # a command that is a comment, or none at all
            raw = ["raw", self.d.pick(["/# raw note", "/#raw", "/# raw x 1"])]
            if self.d.flip(40):
                return [raw]
            body.insert(self.d.int(0, len(body)), raw)
        if not body:
            body.append(["pass"])
        return body

    def scoped(self, fn):
        """names declared in a branch are not used after it"""
        self.scopes.append({})
        try:
            return fn()
        finally:
            self.scopes.pop()

    def gen_if(self, out, nest, effects):
        d = self.d
        br = []
        for _ in range(1 if d.flip(75) else d.int(2, 3)):
            c = self.be()
            br.append([c, self.scoped(
                lambda: self.gen_body(nest - 1, effects))])
        els = None
        if d.flip(60):
            els = self.scoped(lambda: self.gen_body(nest - 1, effects))
        out.append(["if", br, els])

    def gen_while(self, out, nest, effects):
        d = self.d
        c = self.name("w")
        up = d.flip()
        n = d.int(0, 4)
        if up:
            out.append(["decl", c, "int", ["i", 0]])
            cond = ["cmp", [d.pick(["<", "!=", "<="]) if n else "<"],
                    [["v", c], ["i", n]]]
            if cond[1] == ["!="] and n == 0:
                cond[1] = ["<"]
            step = ["aug", "+", ["v", c], ["i", 1]]
        else:
            out.append(["decl", c, None, ["i", n]])
            cond = ["cmp", [">"], [["v", c], ["i", 0]]]
            step = ["set", ["v", c], ["bin", "-", ["v", c], ["i", 1]]]
        if d.flip(40):
            extra = self.be(2)
            cond = d.pick([["and", cond, extra], ["and", extra, cond]])
        if d.flip(15):
            cond = ["not", ["not", cond]]
        self.scopes[-1][c] = ("int", "ro")
        self.loop_depth += 1
        body = self.scoped(lambda: self.gen_body(nest - 1, effects))
        self.loop_depth -= 1
        body.insert(d.int(0, len(body)) if d.flip(40) else len(body), step)
        out.append(["while", cond, body])

    def gen_obs(self, out):
        d = self.d
        if self.w["say"] and d.flip(50):
            self.n += 1
            out.append(["say", self.n])
            return
        es = []
        for _ in range(d.int(1, 3)):
            if self.w["bools"] and d.flip(35):
                es.append(self.be(2))
            else:
                es.append(self.ie(2))
        out.append(["obs", es])

    def dump(self):
        """observe every module-level variable at the end"""
        es = []
        for n, (t, kd) in self.scopes[0].items():
            if t in ("int", "bool"):
                es.append(["v", n])
            else:
                for ty in ("int", "bool"):
                    self._paths(["v", n], t, ty, es)
        for h, o in self.scores:
            es.append(["sc", h, o])
        return [["obs", es[i:i + 8]] for i in range(0, len(es), 8)]

    def program(self):
        d = self.d
        w = self.w
        body = []
        if w["structs"]:
            self.gen_structs()
        # module-level variables, so that functions can use them
        for _ in range(d.int(1, 3)):
            n = self.name("g")
            ty = self.pick_type()
            body.append(self.decl(n, ty, 0))
            self.scopes[0][n] = (ty, "var")
        if w["div"]:
            n = self.name("k")
            v = self.intlit() or 6
            body.append(["decl", n, None, ["i", v]])
            self.scopes[0][n] = ("int", "prot")
        if w["scb"] and d.flip(40):
            for k in range(d.int(1, 2)):
                h, o = d.pick(["h1", "h2", "#h"]), d.pick(["ob1", "ob2"])
                if (h, o) not in self.scores:
                    self.scores.append((h, o))
                    body.append(["set", ["sc", h, o], ["i", self.intlit()]])
        if w["calls"]:
            for _ in range(d.int(0, w["nfun"])):
                f = self.gen_func(w["inline"] and d.flip(40), d.flip(65))
                body.append(["def", f])
        for _ in range(d.int(1, w["stmts"])):
            self.gen_stmt(body, w["nest"])
        body += self.dump()
        return {"structs": self.structs, "math": w["math"],
                "funcs": [dict(f, at="body") for f in self.funcs],
                "body": body}


def programs(**w):
    """generator (function of D) of programs with the given features"""
    return lambda d: Gen(d, **w).program()


def setup_vm(vm):
    for o in ("ob1", "ob2"):
        vm.objectives[o] = "dummy"


def observed(vm):
    return [e[2] if e[0] == "tellraw" else e[1] for e in vm.events]
