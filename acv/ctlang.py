"""Model of compile-time evaluated code (const def, const lists and maps).

Values: int, bool, str, None, L (list of cells), M (map of cells)."""
from .mcvm import cdiv, cmod

INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1


class CTError(Exception):
    """The language defines the program as an error."""


class Long(Exception):
    """The program runs for too long to be judged."""


class Cell:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class L:
    def __init__(self, vals):
        self.c = [Cell(v) for v in vals]


def key(v):
    if isinstance(v, L):
        return ("l",) + tuple(key(c.v) for c in v.c)
    if isinstance(v, M):
        raise CTError("map as key")
    return (type(v).__name__, v)


class M:
    def __init__(self, pairs):
        self.d = {}
        for k, v in pairs:
            self.set(k, v)

    def set(self, k, v):
        h = key(k)
        if h in self.d:
            self.d[h][1].v = v
        else:
            self.d[h] = (k, Cell(v))

    def copy(self):
        return M([(k, c.v) for k, c in self.d.values()])


def show(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, str)):
        return str(v)
    raise CTError("can not be formatted")


class Machine:
    def __init__(self, prog, fuel=6000):
        self.funcs = {f["name"]: f for f in prog["funcs"]}
        self.fuel = fuel
        self.depth = 0
        self.loop_iters = 0
        self.calls = 0
        self.log = []

    def step(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Long

    def call(self, name, args, kw):
        f = self.funcs[name]
        self.depth += 1
        self.calls += 1
        if self.depth > 12:
            raise Long
        env = {}
        for (p, _, dflt), a in zip(f["params"], args):
            env[p] = Cell(a)
        for k, a in kw:
            env[k] = Cell(a)
        for p, _, dflt in f["params"]:
            if p not in env:
                env[p] = Cell(self.ev(dflt, [{}]))
        res = [None]
        self.block(f["body"], [env], res)
        self.depth -= 1
        return res[0]

    def loc(self, e, env):
        """cell of an assignable expression"""
        if e[0] == "v":
            for s in reversed(env):
                if e[1] in s:
                    return s[e[1]]
            raise AssertionError(e)
        assert e[0] == "idx"
        o = self.ev(e[1], env)
        i = self.ev(e[2], env)
        return self.cell(o, i)

    def cell(self, o, i):
        if isinstance(o, L):
            if not -len(o.c) <= i < len(o.c):
                raise CTError("index")
            return o.c[i]
        h = key(i)
        if h not in o.d:
            raise CTError("key")
        return o.d[h][1]

    @staticmethod
    def num(v):
        if not INT_MIN <= v <= INT_MAX:
            raise CTError("overflow")
        return v

    def arith(self, op, a, b):
        if isinstance(a, L):
            r = L([c.v for c in a.c] + [c.v for c in b.c]
                  if op == "+" else [c.v for c in a.c] * b)
            self.toolong(r.c)
            return r
        if isinstance(a, str):
            return a + b
        if op == "+":
            return self.num(a + b)
        if op == "-":
            return self.num(a - b)
        if op == "*":
            return self.num(a * b)
        if b == 0:
            raise CTError("zero")
        return self.num(cdiv(a, b) if op == "/" else cmod(a, b))

    def ev(self, e, env):
        self.step()
        h = e[0]
        if h in ("i", "b", "s"):
            return self.num(e[1]) if h == "i" else e[1]
        if h == "none":
            return None
        if h == "v" or h == "idx":
            return self.loc(e, env).v
        if h == "bin":
            a = self.ev(e[2], env)
            return self.arith(e[1], a, self.ev(e[3], env))
        if h == "neg":
            return self.num(-self.ev(e[1], env))
        if h == "cmp":
            vs = [self.ev(x, env) for x in e[2]]
            import operator as o
            f = {"==": o.eq, "!=": o.ne, "<": o.lt, "<=": o.le, ">": o.gt,
                 ">=": o.ge}
            return all([f[op](a, b)
                        for op, a, b in zip(e[1], vs, vs[1:])])
        if h == "not":
            return not self.ev(e[1], env)
        if h in ("and", "or"):
            vs = [self.ev(x, env) for x in e[1]]
            return all(vs) if h == "and" else any(vs)
        if h == "fmt":
            return "".join(p if isinstance(p, str) else
                           show(self.ev(p, env)) for p in e[1])
        if h == "list":
            return L([self.ev(x, env) for x in e[1]])
        if h == "map":
            ks = [self.ev(k, env) for k, _ in e[1]]
            vs = [self.ev(v, env) for _, v in e[1]]
            return M(zip(ks, vs))
        if h == "range":
            a = [self.ev(x, env) for x in e[1]]
            if len(a) == 3 and a[2] == 0:
                raise CTError("zero step")
            r = range(*a)
            if len(r) > 300:
                raise Long
            return L(r)
        if h == "call":
            a = [self.ev(x, env) for x in e[2]]
            k = [(n, self.ev(x, env)) for n, x in e[3]]
            return self.call(e[1], a, k)
        if h == "meth":
            o = self.ev(e[1], env)
            a = [self.ev(x, env) for x in e[3]]
            return self.meth(o, e[2], a)
        if h == "repeat":
            v = self.ev(e[1], env)
            return L([v] * max(0, self.ev(e[2], env)))
        if h == "geom":
            s, r, n = [self.ev(x, env) for x in e[1]]
            out = []
            for _ in range(n):
                out.append(self.num(s))
                s *= r
            return L(out)
        if h == "fromkeys":
            ks = [c.v for c in self.ev(e[1], env).c]
            v = self.ev(e[2], env)
            return M([(k, v) for k in ks])
        if h == "mapof":
            ks = [c.v for c in self.ev(e[1], env).c]
            vs = [c.v for c in self.ev(e[2], env).c]
            return M(zip(ks, vs))
        if h == "listof":
            o = self.ev(e[1], env)
            return L(self.each(o))
        raise AssertionError(e)

    @staticmethod
    def each(o):
        if isinstance(o, L):
            return [c.v for c in o.c]
        return [k for k, _ in o.d.values()]

    def meth(self, o, name, a):
        if isinstance(o, L):
            c = o.c
            if name == "size":
                return len(c)
            if name == "copy":
                return L([x.v for x in c])
            if name == "append":
                c.append(Cell(a[0]))
                return None
            if name == "extend":
                c.extend([Cell(v) for v in self.each(a[0])])
                self.toolong(c)
                return None
            if name == "insert":
                if not -len(c) <= a[0] < len(c):
                    raise CTError("index")
                c.insert(a[0], Cell(a[1]))
                return None
            if name == "reverse":
                c.reverse()
                return None
            if name == "pop":
                if not -len(c) <= a[0] < len(c):
                    raise CTError("index")
                return c.pop(a[0]).v
            if name == "slice":
                if len(a) == 3 and a[2] == 0:
                    raise CTError("zero step")
                return L([x.v for x in c[slice(*a)]])
            if name == "cycle":
                if a[0] < 0:
                    raise CTError("negative")
                r = L([x.v for x in c] * min(a[0], 400))
                self.toolong(r.c)
                return r
        else:
            d = o.d
            if name == "size":
                return len(d)
            if name == "copy":
                return o.copy()
            if name == "keys":
                return L(self.each(o))
            if name == "values":
                return L([c.v for _, c in d.values()])
            if name == "has":
                return key(a[0]) in d
            if name == "get":
                h = key(a[0])
                if h in d:
                    return d[h][1].v
                return a[1] if len(a) > 1 else None
            if name == "update":
                for k, c in list(a[0].d.values()):
                    o.set(k, c.v)
                return None
            if name == "pop":
                h = key(a[0])
                if h in d:
                    return d.pop(h)[1].v
                if len(a) > 1:
                    return a[1]
                raise CTError("key")
            if name == "set_default":
                h = key(a[0])
                if h not in d:
                    o.set(a[0], a[1])
                return d[h][1].v
            if name == "clear":
                d.clear()
                return None
        raise AssertionError(name)

    @staticmethod
    def toolong(c):
        if len(c) > 400:
            raise Long

    def block(self, body, env, res):
        for s in body:
            self.stmt(s, env, res)

    def stmt(self, s, env, res):
        self.step()
        h = s[0]
        if h == "decl":
            env[-1][s[1]] = Cell(self.ev(s[3], env))
        elif h == "set":
            # the target is located before the value is evaluated
            c = self.loc(s[1], env)
            c.v = self.ev(s[2], env)
        elif h == "aug":
            c = self.loc(s[2], env)
            v = self.ev(s[3], env)
            c.v = self.arith(s[1], c.v, v)
        elif h == "ref":
            env[-1][s[1]] = self.loc(s[2], env)
        elif h == "expr":
            self.ev(s[1], env)
        elif h == "if":
            for cond, body in s[1]:
                if self.ev(cond, env):
                    self.block(body, env, res)
                    return
            if s[2] is not None:
                self.block(s[2], env, res)
        elif h == "while":
            while self.ev(s[1], env):
                self.loop_iters += 1
                self.block(s[2], env, res)
        elif h == "for":
            o = self.ev(s[2], env)
            vals = self.each(o)
            for v in vals:
                now = self.each(o)
                if len(now) != len(vals) or any(
                        a is not b for a, b in zip(now, vals)):
                    raise Long  # modified while it is iterated
                self.loop_iters += 1
                self.block(s[3], env + [{s[1]: Cell(v)}], res)
        elif h == "res":
            res[0] = self.ev(s[1], env)
        elif h == "emit":
            self.log.append(show(self.ev(s[1], env)))
        elif h == "pass":
            pass
        else:
            raise AssertionError(s)


# --- rendering ------------------------------------------------------------

def quote(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace(
        "$", "$" if "${" not in s else "\\x24").replace("\n", "\\n") + '"'


def rex(e):
    h = e[0]
    if h == "i":
        if e[1] < 0:
            return "(%d)" % e[1]
        return str(e[1])
    if h == "b":
        return "True" if e[1] else "False"
    if h == "s":
        return quote(e[1])
    if h == "none":
        return "None"
    if h == "v":
        return e[1]
    if h == "idx":
        return "%s[%s]" % (rex(e[1]), rex(e[2]))
    if h == "bin":
        return "(%s %s %s)" % (rex(e[2]), e[1], rex(e[3]))
    if h == "neg":
        return "(-%s)" % rex(e[1])
    if h == "cmp":
        out = rex(e[2][0])
        for op, x in zip(e[1], e[2][1:]):
            out += " %s %s" % (op, rex(x))
        return "(%s)" % out
    if h == "not":
        return "(not %s)" % rex(e[1])
    if h in ("and", "or"):
        return "(%s)" % (" %s " % h).join(map(rex, e[1]))
    if h == "fmt":
        out = '"'
        for p in e[1]:
            out += quote(p)[1:-1] if isinstance(p, str) else \
                "${%s}" % rex(p)
        return out + '"'
    if h == "list":
        return "{%s}" % ", ".join(map(rex, e[1]))
    if h == "map":
        if not e[1]:
            return "{:}"
        return "{%s}" % ", ".join(
            "%s: %s" % (rex(k), rex(v)) for k, v in e[1])
    if h == "range":
        return "list.range(%s)" % ", ".join(map(rex, e[1]))
    if h == "geom":
        return "list.geometric(%s)" % ", ".join(map(rex, e[1]))
    if h == "repeat":
        return "list.repeat(%s, %s)" % (rex(e[1]), rex(e[2]))
    if h == "fromkeys":
        return "map.from_keys(%s, fill=%s)" % (rex(e[1]), rex(e[2]))
    if h == "mapof":
        return "map(%s, %s)" % (rex(e[1]), rex(e[2]))
    if h == "listof":
        return "list(%s)" % rex(e[1])
    if h == "call":
        return "%s(%s)" % (e[1], ", ".join(
            [rex(x) for x in e[2]] +
            ["%s=%s" % (k, rex(x)) for k, x in e[3]]))
    if h == "meth":
        return "%s.%s(%s)" % (rex(e[1]), e[2], ", ".join(map(rex, e[3])))
    raise AssertionError(e)


def rst(s, ind, out, top=False):
    p = "    " * ind
    h = s[0]
    if h == "emit":
        out.append(("%sprint.tell(%s)" if top else "%sout.append(%s)")
                   % (p, rex(s[1])))
    elif h == "decl" and top:
        out.append("%sconst %s = %s" % (p, s[1], rex(s[3])))
    elif h == "decl":
        if s[2]:
            out.append("%s%s: %s = %s" % (p, s[1], s[2], rex(s[3])))
        else:
            out.append("%s%s := %s" % (p, s[1], rex(s[3])))
    elif h == "set":
        out.append("%s%s = %s" % (p, rex(s[1]), rex(s[2])))
    elif h == "aug":
        out.append("%s%s %s= %s" % (p, rex(s[2]), s[1], rex(s[3])))
    elif h == "ref":
        out.append("%s&%s%s = %s" % (
            p, s[1], ": " + s[3] if len(s) > 3 and s[3] else "", rex(s[2])))
    elif h == "expr":
        out.append(p + rex(s[1]))
    elif h == "if":
        for i, (c, b) in enumerate(s[1]):
            out.append("%s%s %s:" % (p, "elif" if i else "if", rex(c)))
            rblock(b, ind + 1, out)
        if s[2] is not None:
            out.append(p + "else:")
            rblock(s[2], ind + 1, out)
    elif h == "while":
        out.append("%swhile %s:" % (p, rex(s[1])))
        rblock(s[2], ind + 1, out)
    elif h == "for":
        out.append("%sfor %s in %s:" % (p, s[1], rex(s[2])))
        rblock(s[3], ind + 1, out, top)
    elif h == "res":
        out.append("%sresult %s" % (p, rex(s[1])))
    elif h == "pass":
        out.append(p + "pass")
    else:
        raise AssertionError(s)


def rblock(b, ind, out, top=False):
    if not b:
        b = [["pass"]]
    for s in b:
        rst(s, ind, out, top)


CTY = {"int": "int", "bool": "bool", "str": None, "L": "list", "M": "map",
       "none": None}


def tyname(t):
    return CTY[t.split(":")[0]]


def render(prog):
    out = ["import print"]
    for f in prog["funcs"]:
        ps = []
        for n, t, dflt in f["params"]:
            q = n
            if t and tyname(t):
                q += ": " + tyname(t)
            if dflt is not None:
                q += " = " + rex(dflt)
            ps.append(q)
        ret = "" if f["ret"] == "none" else " -> " + (tyname(f["ret"]) or "Any")
        out.append("const def %s(%s)%s:" % (f["name"], ", ".join(ps), ret))
        rblock(f["body"], 1, out)
    if "top" in prog:
        rblock(prog["top"], 0, out, True)
    else:
        out += ["for s0 in entry():", "    print.tell(s0)"]
    return "\n".join(out) + "\n"


# --- generation -----------------------------------------------------------

STRS = ["a", "b", "", "xy", "Z 9", 'q"', "\\", "%0", "é", "{1}", "&", "a b"]
SAFE = "ab"


class CGen:
    """Typed generator.  Lists stay non-empty and maps keep their base key
    unless a deliberate error is generated."""
    TYPES = ["int", "int", "bool", "str", "L:int", "L:str", "L:L:int",
             "M:str:int", "M:int:str", "M:str:L:int"]

    def __init__(self, d, errs=0):
        self.d = d
        self.n = 0
        self.errs = errs
        self.funcs = []
        self.frozen = 0
        self.scopes = [{}]
        self.loops = 0

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def vars(self, t, assignable=False):
        out = []
        for s in self.scopes:
            for n, (ty, asg) in s.items():
                if ty == t and (asg or not assignable):
                    out.append(n)
        return out

    def lits(self, t):
        d = self.d
        if t == "int":
            return ["i", d.pick([0, 1, 2, 3, 5, 7, 10, -1, -2, -7, 100])]
        if t == "bool":
            return ["b", d.flip()]
        if t == "str":
            return ["s", d.pick(STRS)]
        k, _, r = t.partition(":")
        if k == "L":
            return ["list", [self.lits(r) for _ in range(d.int(1, 3))]]
        kt, _, vt = r.partition(":")
        keys = [["s", "a"]] if kt == "str" else [["i", 1]]
        for _ in range(d.int(0, 3)):
            keys.append(self.lits(kt))
        return ["map", [[x, self.lits(vt)] for x in keys]]

    def ex(self, t, dep=2):
        d = self.d
        opts = [(2, lambda: self.lits(t))]
        vs = self.vars(t)
        if vs:
            opts.append((6, lambda: ["v", d.pick(vs)]))
        if dep > 0:
            if self.frozen < 100:
                fs = [f for f in self.funcs
                      if f["ret"] == t and not f.get("rec")
                      and not f["mut"]]
                if fs:
                    opts.append((5, lambda: self.callex(d.pick(fs), dep)))
                fr = [f for f in self.funcs if f["ret"] == t and f.get("rec")]
                if fr:
                    opts.append((1, lambda: [
                        "call", d.pick(fr)["name"], [["i", d.int(0, 6)]],
                        []]))
            ls = self.vars("L:" + t)
            if ls:
                opts.append((3, lambda: self.index(d.pick(ls), dep)))
            for kt in ("str", "int"):
                ms = self.vars("M:%s:%s" % (kt, t))
                if ms:
                    opts.append((2, lambda m=ms, k=kt: self.mget(
                        d.pick(m), k, t, dep)))
            opts += getattr(self, "o_" + t.split(":")[0])(t, dep)
        return d.wpick(*opts)()

    def index(self, n, dep):
        d = self.d
        if d.flip(45):
            return ["idx", ["v", n], ["i", d.pick([0, 0, -1])]]
        if d.flip(self.errs):
            return ["idx", ["v", n], ["i", d.pick([2, 3, 9, -4])]]
        return ["idx", ["v", n], ["bin", "%", self.ex("int", dep - 1),
                                  ["meth", ["v", n], "size", []]]]

    def base(self, kt):
        return ["s", "a"] if kt == "str" else ["i", 1]

    def mget(self, n, kt, t, dep):
        d = self.d
        k = d.int(0, 2)
        if k == 0:
            return ["idx", ["v", n], self.base(kt)]
        if d.flip(self.errs):
            return ["idx", ["v", n], self.ex(kt, dep - 1)]
        return ["meth", ["v", n], "get",
                [self.ex(kt, dep - 1), self.ex(t, dep - 1)]]

    def callex(self, f, dep):
        d = self.d
        args, kw = [], []
        named = d.flip(30)
        for n, t, dflt in f["params"]:
            if dflt is not None and d.flip(40):
                named = True
                continue
            if t is None:
                t = "int"
            a = self.ex(t, min(dep - 1, 1))
            if named:
                kw.append([n, a])
            else:
                args.append(a)
        if d.flip(30):
            kw = d.shuffle(kw)
        return ["call", f["name"], args, kw]

    def o_int(self, t, dep):
        d = self.d

        def arith():
            op = d.pick("++--*/%")
            a = self.ex("int", dep - 1)
            if op == "*":
                b = ["i", d.pick([2, 3, -2, 7])]
            elif op in "/%":
                b = ["i", d.pick([2, 3, -2, 5, 7])]
                if d.flip(self.errs):
                    b = self.ex("int", dep - 1)
            else:
                b = self.ex("int", dep - 1)
            if d.flip(30) and op not in "/%":
                a, b = b, a
            return ["bin", op, a, b]

        def size():
            c = [n for s in self.scopes for n, (ty, _) in s.items()
                 if ty[0] in "LM"]
            if not c:
                return self.lits("int")
            return ["meth", ["v", d.pick(c)], "size", []]
        return [(4, arith), (1, size),
                (1, lambda: ["neg", self.ex("int", dep - 1)])]

    def o_bool(self, t, dep):
        d = self.d

        def cmp():
            n = d.pick([1, 1, 1, 1, 2, 2, 3, 4])
            if d.flip(15):
                return ["cmp", [d.pick(["==", "!="])],
                        [self.ex("bool", dep - 1) for _ in range(2)]]
            return ["cmp", [d.pick(["==", "!=", "<", "<=", ">", ">="])
                            for _ in range(n)],
                    [self.ex("int", dep - 1) for _ in range(n + 1)]]

        def has():
            for kt in ("str", "int"):
                for vt in ("int", "str", "L:int"):
                    ms = self.vars("M:%s:%s" % (kt, vt))
                    if ms and d.flip(70):
                        return ["meth", ["v", d.pick(ms)], "has",
                                [self.ex(kt, dep - 1)]]
            return cmp()
        return [(4, cmp), (1, has),
                (1, lambda: ["not", self.ex("bool", dep - 1)]),
                (2, lambda: [d.pick(["and", "or"]),
                             [self.ex("bool", dep - 1)
                              for _ in range(d.int(2, 3))]])]

    def o_str(self, t, dep):
        d = self.d
        return [(2, lambda: ["bin", "+", self.ex("str", dep - 1),
                             self.ex("str", dep - 1)]),
                (3, lambda: ["fmt", [
                    d.pick(STRS) if d.flip(40) else
                    self.ex(d.pick(["int", "str", "int", "bool"]), dep - 1)
                    for _ in range(d.int(1, 3))]])]

    def o_L(self, t, dep):
        el = t[2:]
        out = [(2, lambda: ["list", [
            self.ex(el, dep - 1) for _ in range(self.d.int(1, 3))]])]
        vs = self.vars(t)
        if vs:
            out.append((2, lambda: ["meth", ["v", self.d.pick(vs)], "copy",
                                    []]))
            out.append((1, lambda: ["meth", ["v", self.d.pick(vs)], "cycle",
                                    [["i", self.d.int(1, 2)]]]))
        if self.top:
            out.append((3, lambda: ["bin", "+", self.ex(t, dep - 1),
                                    self.ex(t, dep - 1)]))
            out.append((1, lambda: ["bin", "*", self.ex(t, dep - 1),
                                    ["i", self.d.int(1, 3)]]))
            out.append((1, lambda: ["repeat", self.ex(el, dep - 1),
                                    ["i", self.d.int(1, 3)]]))
            out.append((2, lambda: ["bin", "+", ["list", [
                self.ex(el, dep - 1)]], ["meth", self.ex(t, dep - 1),
                                         "slice", self.slice_args()]]))
            out.append((1, lambda: ["listof", self.ex(t, dep - 1)]))
        if el == "int":
            # runtime-style constructors give constant lists: copy them
            out.append((1, lambda: ["meth", [
                "range", [["i", self.d.int(1, 4)]]], "copy", []]))
            out.append((1, lambda: ["meth", ["geom", [
                ["i", self.d.int(-3, 3)], ["i", self.d.int(-2, 3)],
                ["i", self.d.int(1, 4)]]], "copy", []]))
        if el in ("int", "str"):
            for kt in ("str", "int"):
                for vt in ("int", "str"):
                    ms = self.vars("M:%s:%s" % (kt, vt))
                    if not ms:
                        continue
                    if kt == el:
                        out.append((1, lambda m=ms: [
                            "meth", ["v", self.d.pick(m)], "keys", []]))
                    if vt == el:
                        out.append((1, lambda m=ms: [
                            "meth", ["v", self.d.pick(m)], "values", []]))
        return out

    def o_M(self, t, dep):
        d = self.d
        _, kt, vt = t.split(":", 2)

        def lit():
            ks = [self.base(kt)] + [self.ex(kt, dep - 1)
                                    for _ in range(d.int(0, 2))]
            ks = d.shuffle(ks)
            return ["map", [[k, self.ex(vt, dep - 1)] for k in ks]]
        out = [(2, lit)]
        vs = self.vars(t)
        if vs:
            out.append((2, lambda: ["meth", ["v", d.pick(vs)], "copy", []]))

        def frk():
            ks = [self.base(kt)] + [self.lits(kt)
                                    for _ in range(d.int(0, 2))]
            return ["fromkeys", ["list", d.shuffle(ks)], self.ex(vt, dep - 1)]

        def mapof():
            ks = [self.base(kt)] + [self.lits(kt)
                                    for _ in range(d.int(0, 2))]
            return ["mapof", ["list", ks], ["list", [
                self.ex(vt, dep - 1) for _ in range(
                    len(ks) + d.pick([0, 0, 1]))]]]
        out += [(1, frk), (1, mapof)]
        return out

    # statements

    def small(self, e):
        """keeps stored integers small"""
        return ["bin", "%", e, ["i", 997]]

    def val(self, t, dep=2):
        e = self.ex(t, dep)
        return self.small(e) if t == "int" and e[0] == "bin" else e

    def target(self, t):
        d = self.d
        c = [["v", n] for n in self.vars(t, True)]
        if not self.frozen or True:
            for n in self.vars("L:" + t):
                c.append(["idx", ["v", n], ["i", d.pick([0, -1])]])
            for kt in ("str", "int"):
                for n in self.vars("M:%s:%s" % (kt, t)):
                    c.append(["idx", ["v", n], self.base(kt)])
        return d.pick(c) if c else None

    def emit(self, out, e):
        """append a printable value to the log"""
        out.append(["emit", e])

    def obs(self, out, n, t):
        """log the whole value of a variable"""
        if t[0] == "L":
            v = self.name("q")
            body = []
            self.obs(body, v, t[2:])
            self.emit(out, ["fmt", ["L", ["meth", ["v", n], "size", []]]])
            out.append(["for", v, ["v", n], body])
        elif t[0] == "M":
            _, kt, vt = t.split(":", 2)
            k = self.name("k")
            body = []
            self.emit(body, ["fmt", ["K", ["v", k]]])
            w = self.name("w")
            body.append(["decl", w, None, ["idx", ["v", n], ["v", k]]])
            self.obs(body, w, vt)
            out.append(["for", k, ["v", n], body])
        else:
            self.emit(out, ["fmt", [["v", n], ";"]])

    def stmt(self, out, depth):
        d = self.d
        kinds = [(4, self.s_decl), (5, self.s_set), (3, self.s_aug),
                 (4, self.s_list), (3, self.s_map), (2, self.s_ref),
                 (1, self.s_obs)]
        if any(f.get("mut") for f in self.funcs):
            kinds.append((3, self.s_call))
        if not self.frozen and not self.loops:
            kinds.append((3, self.s_derive))
        if depth > 0:
            kinds += [(3, self.s_if), (3, self.s_for), (2, self.s_while)]
        d.wpick(*kinds)(out, depth)

    def s_decl(self, out, depth):
        d = self.d
        if self.frozen:
            return self.s_set(out, depth)
        t = d.pick(self.TYPES)
        n = self.name("x")
        e = self.val(t)
        out.append(["decl", n, tyname(t) if d.flip(40) else None, e])
        self.scopes[-1][n] = (t, True)

    def s_set(self, out, depth):
        t = self.d.pick(self.TYPES)
        tg = self.target(t)
        if tg:
            out.append(["set", tg, self.val(t)])

    def s_call(self, out, depth):
        if self.iterating():
            return
        f = self.d.pick([f for f in self.funcs if f.get("mut")])
        c = self.callex(f, 1)
        tg = [n for n in self.vars(f["ret"], True)]
        if tg and self.d.flip(60):
            out.append(["set", ["v", self.d.pick(tg)], c])
        else:
            out.append(["expr", c])

    def s_aug(self, out, depth):
        d = self.d
        t = d.pick(["int", "int", "str"])
        tg = self.target(t)
        if not tg:
            return
        if t == "str":
            if self.loops:
                return
            out.append(["aug", "+", tg, self.ex("str", 1)])
            return
        op = d.pick("+-*/%")
        v = self.ex("int", 1) if op in "+-" else \
            ["i", d.pick([2, 3, -2, 5])]
        out.append(["aug", op, tg, v])
        if self.loops or op == "*":
            out.append(["aug", "%", tg, ["i", 997]])

    def s_list(self, out, depth):
        d = self.d
        t = d.pick(["L:int", "L:str", "L:L:int"])
        vs = self.vars(t)
        if not vs or self.iterating():
            return
        n = ["v", d.pick(vs)]
        el = t[2:]
        k = d.int(0, 5)
        if k == 0:
            out.append(["expr", ["meth", n, "append", [self.val(el)]]])
        elif k == 1:
            if self.loops:
                return
            src = self.ex(t, 1)
            if d.flip(40):
                w = d.pick(vs)
                src = ["meth", ["v", w], "slice", self.slice_args()]
            out.append(["expr", ["meth", n, "extend", [src]]])
        elif k == 2:
            out.append(["expr", ["meth", n, "insert",
                                 [["i", d.pick([0, -1])], self.val(el)]]])
        elif k == 3:
            out.append(["expr", ["meth", n, "reverse", []]])
        elif k == 4:
            pop = ["meth", n, "pop", [["i", d.pick([0, -1, -1])]]]
            tg = self.target(el)
            if tg and d.flip() and tg[0] == "v":
                s = ["set", tg, pop]
            else:
                s = ["expr", pop]
            out.append(["if", [[["cmp", [">"], [
                ["meth", n, "size", []], ["i", 1]]], [s]]], None])
        else:
            self.emit(out, ["fmt", [["meth", n, "size", []]]])

    def s_derive(self, out, depth):
        """a container made from another one, one of the two modified by
        an element assignment or reference, both shown"""
        d = self.d
        t = d.pick(["L:int", "L:str", "L:L:int", "M:str:int", "M:int:str",
                    "M:str:L:int"])
        vs = self.vars(t)
        if not vs:
            return
        a, b = d.pick(vs), self.name("y")
        if t[0] == "L":
            src = d.wpick(
                (3, lambda: ["meth", ["v", a], "slice", self.slice_args()]),
                (3, lambda: ["meth", ["v", a], "cycle",
                             [["i", d.pick([1, 2, 2, 3])]]]),
                (2, lambda: ["meth", ["v", a], "copy", []]),
                (1, lambda: ["v", a]))()
            el, ix = t[2:], lambda: ["i", d.pick([0, -1, 0, 1])]
        else:
            src = ["v", a] if d.flip(20) else ["meth", ["v", a], "copy", []]
            _, kt, el = t.split(":", 2)
            ix = lambda: self.base(kt)
        out.append(["decl", b, tyname(t) if d.flip(30) else None, src])
        self.scopes[-1][b] = (t, True)
        body = []
        for _ in range(d.int(1, 2)):
            tg = ["idx", ["v", d.pick([a, b])], ix()]
            if d.flip(30):
                n = self.name("r")
                body.append(["ref", n, tg,
                             tyname(el) if d.flip(40) else None])
                tg = ["v", n]
            body.append(["set", tg, self.val(el, 1)])
        if t[0] == "L":
            body = [["if", [[["and", [
                ["cmp", [">"], [["meth", ["v", n], "size", []], ["i", 1]]]
                for n in (a, b)]], body]], None]]
        out += body
        self.obs(out, a, t)
        self.obs(out, b, t)

    def slice_args(self):
        d = self.d
        k = d.int(1, 3)
        r = [["i", d.int(-3, 3)]]
        if k >= 2:
            r = [["none"] if d.flip(25) else ["i", d.int(-3, 3)]
                 for _ in range(2)]
        if k == 3:
            r.append(["i", d.pick([1, 2, -1, -2])])
        return r

    def iterating(self):
        return self.loops > 0 and self.inloop

    inloop = False
    top = False      # module level
    copied = False   # functions copy their container arguments

    def s_map(self, out, depth):
        d = self.d
        t = d.pick(["M:str:int", "M:int:str", "M:str:L:int"])
        vs = self.vars(t)
        if not vs or self.iterating():
            return
        _, kt, vt = t.split(":", 2)
        n = ["v", d.pick(vs)]
        k = d.int(0, 4)
        if k == 0:
            out.append(["expr", ["meth", n, "update", [
                self.ex(t, 1)]]])
        elif k == 1:
            key_ = ["s", d.pick(["b", "", "xy"])] if kt == "str" else \
                ["i", d.pick([0, 2, 3, 5, 7])]
            out.append(["expr", ["meth", n, "pop",
                                 [key_, self.ex(vt, 1)]]])
        elif k == 2:
            e = ["meth", n, "set_default", [self.ex(kt, 1), self.ex(vt, 1)]]
            tg = self.target(vt)
            if tg and tg[0] == "v" and d.flip():
                out.append(["set", tg, e])
            else:
                out.append(["expr", e])
        elif k == 3:
            out.append(["expr", ["meth", n, "clear", []]])
            out.append(["expr", ["meth", n, "update", [
                ["map", [[self.base(kt), self.ex(vt, 1)]]]]]])
        else:
            self.emit(out, ["fmt", [["meth", n, "size", []]]])

    def s_ref(self, out, depth):
        if self.frozen:
            return
        t = self.d.pick(self.TYPES)
        tg = self.target(t)
        if tg:
            n = self.name("r")
            out.append(["ref", n, tg,
                        tyname(t) if self.d.flip(40) else None])
            self.scopes[-1][n] = (t, True)

    def s_obs(self, out, depth):
        c = [(n, ty) for s in self.scopes for n, (ty, _) in s.items()]
        if c:
            n, t = self.d.pick(c)
            self.obs(out, n, t)

    def sub(self, depth, n=3):
        body = []
        for _ in range(self.d.int(1, n)):
            self.stmt(body, depth - 1)
        return body

    def s_if(self, out, depth):
        d = self.d
        self.frozen += 1
        br = [[self.ex("bool", 2), self.sub(depth)]
              for _ in range(d.int(1, 2))]
        els = self.sub(depth) if d.flip(60) else None
        self.frozen -= 1
        out.append(["if", br, els])

    def s_for(self, out, depth):
        d = self.d
        t = d.pick(["L:int", "L:str", "M:str:int", "L:int"])
        n = self.name("f")
        el = t[2:] if t[0] == "L" else t.split(":")[1]
        if d.flip(30) and t == "L:int":
            it = ["range", [["i", d.int(-2, 3)], ["i", d.int(-2, 4)],
                            ["i", d.pick([1, 2, -1, -2])]][:d.pick([1, 2, 3])]]
        else:
            it = self.ex(t, 1)
        self.scopes.append({n: (el, False)})
        old, f = self.inloop, self.frozen
        self.inloop = it[0] == "v" or old
        self.frozen = 0
        self.loops += 1
        body = self.sub(depth)
        self.loops -= 1
        self.inloop, self.frozen = old, f
        self.scopes.pop()
        out.append(["for", n, it, body])

    def s_while(self, out, depth):
        d = self.d
        if self.frozen:
            return
        n = self.name("w")
        out.append(["decl", n, None, ["i", d.int(0, 4)]])
        self.frozen += 1
        self.loops += 1
        body = self.sub(depth)
        self.loops -= 1
        self.frozen -= 1
        body.insert(d.int(0, len(body)), ["aug", "-", ["v", n], ["i", 1]])
        c = ["cmp", [">"], [["v", n], ["i", 0]]]
        if d.flip(25):
            c = ["and", [c, self.ex("bool", 1)]]
        out.append(["while", c, body])
        self.scopes[-1][n] = ("int", False)

    def func(self, entry=False):
        d = self.d
        f = {"name": self.name("fn") if not entry else "entry",
             "params": [], "body": []}
        self.scopes = [{}]
        if entry:
            f["ret"] = "L:str"
            f["body"].append(["decl", "out", None, ["list", []]])
        else:
            f["ret"] = d.pick(self.TYPES + ["none"])
            dflt = False
            # a function that changes its arguments is only called as a
            # statement of its own
            cp = self.copied or d.flip()
            f["mut"] = not cp
            for _ in range(d.int(0, 3)):
                n = self.name("p")
                t = d.pick(self.TYPES)
                if cp and t in ("L:L:int", "M:str:L:int"):
                    continue
                v = None
                if (dflt or d.flip(25)) and t in ("int", "str", "bool"):
                    v = self.lits(t)
                    dflt = True
                elif dflt:
                    continue
                f["params"].append([n, t, v])
                self.scopes[0][n] = (t, True)
                if cp and t[0] in "LM":
                    f["body"].append(["set", ["v", n], [
                        "meth", ["v", n], "copy", []]])
        ob = self.s_obs
        em = self.emit
        if not entry:
            # only the entry function has the log
            self.s_obs = lambda *_: None
            self.emit = lambda *_: None
        for _ in range(d.int(1, 6) + (4 if entry else 0)):
            self.stmt(f["body"], 2)
        self.s_obs, self.emit = ob, em
        if entry:
            for n, (t, _) in list(self.scopes[0].items()):
                self.obs(f["body"], n, t)
            f["body"].append(["res", ["v", "out"]])
        elif f["ret"] != "none":
            f["body"].append(["res", self.val(f["ret"])])
            if d.flip(20):
                f["body"].append(["if", [[self.ex("bool", 1), [
                    ["res", self.val(f["ret"])]]]], None])
        self.funcs.append(f)

    def recfunc(self):
        d = self.d
        n = self.name("rec")
        k = self.name("p")
        f = {"name": n, "params": [[k, "int", None]], "ret": "int",
             "rec": True, "body": [["if", [[
                 ["cmp", ["<="], [["v", k], ["i", d.int(0, 1)]]],
                 [["res", ["i", d.int(0, 3)]]]]],
                 [["res", ["bin", d.pick("+-*"),
                           ["call", n, [["bin", "-", ["v", k],
                                         ["i", d.int(1, 2)]]], []],
                           d.pick([["v", k], ["i", 2]])]]]]]}
        if d.flip(40):
            # the parameter is changed before the call that reads it
            f["body"].insert(0, ["aug", "+", ["v", k], ["i", 0]])
        self.funcs.append(f)

    def program(self):
        for _ in range(self.d.int(0, 3)):
            if self.d.flip(25):
                self.recfunc()
            else:
                self.func()
        self.func(True)
        return {"funcs": self.funcs}

    def constants(self):
        """module level constants, evaluated by the other evaluator"""
        d = self.d
        self.copied = True
        for _ in range(d.int(0, 2)):
            if d.flip(25):
                self.recfunc()
            else:
                self.func()
        self.scopes = [{}]
        self.top = True
        body = []
        for _ in range(d.int(2, 7)):
            t = d.pick(self.TYPES)
            n = self.name("c")
            body.append(["decl", n, None, self.val(t, 3)])
            self.scopes[0][n] = (t, False)
            if d.flip(25):
                self.scopes.append({})
                it = d.pick(["L:int", "L:str"])
                v = self.name("f")
                inner = []
                e = self.ex(it)
                self.scopes[-1][v] = (it[2:], False)
                t2 = d.pick(self.TYPES)
                n2 = self.name("c")
                inner.append(["decl", n2, None, self.val(t2)])
                self.obs(inner, n2, t2)
                self.scopes.pop()
                body.append(["for", v, e, inner])
        for n, (t, _) in list(self.scopes[0].items()):
            self.obs(body, n, t)
        return {"funcs": self.funcs, "top": body}
