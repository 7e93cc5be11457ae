"""P17: entity templates - construction, fields, inheritance, dispatch."""
from ..core import Check, Skip, Violation, need
from ..h import build, execute, same, try_build

RULE = ("at least two entities are created and a method is dispatched to a "
        "template different from the declared one, or at least four method "
        "calls are made; or a declaration that must be refused")
ASSUMPTIONS = [
    "one player is online and no entity is at the summoning spot",
    "methods do not recurse; fields are set before they are read",
    "entity variables are used only while they refer to an entity",
]


# --- static tables ----------------------------------------------------------

def mros(temps):
    cls = []
    for i, t in enumerate(temps):
        try:
            c = type("T%d" % i, tuple(cls[p] for p in t["parents"]) or
                     (object,), {"i": i})
        except TypeError:
            raise Skip("mro")
        cls.append(c)
    return [[c.i for c in x.__mro__ if c is not object] for x in cls]


class G:
    def __init__(self, d):
        self.d = d
        self.temps = []
        self.funcs = []
        self.sigs = {}      # method name -> (params, ret)
        self.nv = 0
        self.cur = -1       # template whose bodies are being written

    def fresh(self, p):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    # fields visible on template t: name -> type
    def fields(self, t):
        out = {}
        for k in self.mro[t]:
            for n, ty in self.temps[k]["fields"]:
                out[n] = ty
        return out

    def methods(self, t):
        out = {}
        for k in reversed(self.mro[t]):
            for m in self.temps[k]["methods"]:
                out[m["name"]] = m
        return out

    def seen_as(self, t):
        """a template that an entity of template t is declared with"""
        c = [u for u in self.mro[t] if self.methods(u)]
        v = [u for u in c if u != t and any(
            m["qual"] in ("virtual", "override")
            for m in self.methods(u).values())]
        d = self.d
        if v and d.flip(60):
            return d.pick(v)
        return d.pick(c if c and d.flip(85) else self.mro[t])

    def sub(self, a, b):
        return b in self.mro[a]

    def program(self):
        d = self.d
        # with few fields, templates may meet again at a common ancestor
        bare = d.flip(35)
        n = d.int(4, 6) if bare else d.int(2, 5)    # T0 is an empty root
        for i in range(n):
            parents = []
            if i and d.flip(90):
                parents = [d.int(d.int(0, i - 1), i - 1)]
                if i > 2 and parents[0] and d.flip(30):
                    q = d.int(1, i - 1)
                    if q not in parents:
                        parents.append(q)
            if bare and 1 < i:
                # siblings, and templates that extend two of them
                parents = [1] if d.flip(60) else [d.int(1, i - 1)]
                two = [(a, b) for a in range(2, i) for b in range(2, i)
                       if a not in self.mro[b] and b not in self.mro[a] and
                       set(self.mro[a]) & set(self.mro[b]) - {0}]
                if two and d.flip(75):
                    parents = list(d.pick(two))
            self.temps.append({"parents": parents, "fields": [],
                               "methods": [], "new": None})
            self.mro = mros(self.temps)
            t = self.temps[i]
            # a field may reach a template by one way only
            seen = set()
            for p in parents:
                f = set(self.fields(p))
                if f & seen:
                    t["parents"] = parents[:1]
                    self.mro = mros(self.temps)
                    break
                seen |= f
            k = 0 if i == 0 or bare and d.flip(70) else \
                d.int(1, 3) if i == 1 else d.int(0, 2)
            t["fields"] = [["f%d%s" % (i, "abc"[j]), d.wpick(
                (4, "int"), (1, "bool"), (1, "S"))] for j in range(k)]
        # method names and categories
        for i in range(n):
            t = self.temps[i]
            inherited = {}
            for p in self.mro[i][1:]:
                for m in self.temps[p]["methods"]:
                    inherited.setdefault(m["name"], m["qual"])
            names = []
            for nm, q in sorted(inherited.items()):
                if d.flip(70 if q in ("virtual", "override") else 25):
                    names.append((nm, {"virtual": "override",
                                       "override": "override"}.get(q, q)))
            for j in range(d.int(i == 1, 2) if i else 0):
                q = d.wpick((3, "virtual"), (2, ""), (1, "static"))
                names.append(("%s%d%d" % ({"virtual": "v", "": "s",
                                           "static": "t"}[q], i, j), q))
            for nm, q in names:
                if nm not in self.sigs:
                    self.sigs[nm] = (
                        [d.wpick((3, "int"), (1, "bool"), (1, "ent"))
                         for _ in range(d.int(0, 2))],
                        d.wpick((3, "int"), (1, "bool"), (2, None),
                                (1, "ent")))
                inline = d.flip(25)
                t["methods"].append({
                    "name": nm, "qual": q, "inline": inline,
                    "params": ["p%d" % x
                               for x in range(len(self.sigs[nm][0]))],
                    "def": i, "body": []})
        # two parents must not define a name in incompatible ways
        self.order = sorted(self.sigs)
        for i, t in enumerate(self.temps):
            for m in t["methods"]:
                ps, ret = self.sigs[m["name"]]
                if ret == "ent" and "ent" not in ps and (
                        m["qual"] == "static" or 0 not in self.mro[i]):
                    self.sigs[m["name"]] = (ps, None)
        for i in range(n):
            self.cur = i
            self.new(i)
        for i in range(n):
            self.cur = i
            for m in self.temps[i]["methods"]:
                self.method(i, m)
        self.cur = -1
        for _ in range(d.int(0, 2)):
            self.func()
        return {"temps": self.temps, "funcs": self.funcs,
                "sigs": {k: list(v) for k, v in self.sigs.items()},
                "main": self.main()}

    # --- constructors
    def new(self, i):
        d = self.d
        t = self.temps[i]
        base = None
        if t["parents"] and d.flip(60):
            base = d.pick(self.mro[i][1:])
        # without a constructor of its own, the first parent's is used, which
        # initialises that parent's fields only
        rest = set(self.fields(i)) - (
            set(self.fields(self.mro[i][1])) if t["parents"] else set())
        if not rest and (i == 0 or d.flip(
                75 if len(t["parents"]) > 1 else 40)):
            t["new"] = None
            return
        nparams = d.int(0, 2)
        params = ["a%d" % x for x in range(nparams)]
        env = {p: "int" for p in params}
        new = {"params": params, "inline": d.flip(25), "base": base,
               "dflt": d.flip(20)}
        if base is not None:
            b = self.ctor(base)
            new["args"] = [self.iex(env, 1) for _ in range(
                len(b["params"]) if b else 0)]
            if b is None:
                new["builtin"] = self.builtin()
        else:
            new["builtin"] = self.builtin()
        done = set(self.fields(base)) if base is not None and \
            self.ctor(base) is not None else set()
        body = []
        for n, ty in sorted(self.fields(i).items()):
            if n not in done or d.flip(20):
                body.append(["set", ["f", "self", n], self.ex(ty, env, 1)])
        new["body"] = body
        new["pre"] = [["show", "new%d" % i, [["v", p] for p in params[:1]]]] \
            if d.flip(40) else []
        # a call of the object's own method from its constructor
        t["new"] = new

    def builtin(self):
        d = self.d
        pos = [d.int(-20, 20) for _ in range(3)]
        return {"type": d.pick(["armor_stand", "pig", "minecart"]),
                "pos": pos, "name": d.pick([None, None, "bob", "a b",
                                            "x\"y"]),
                "swap": d.flip(20)}

    def ctor(self, i):
        """constructor data that template i uses; None: the built-in one"""
        for k in [i] + self.mro[i][1:2]:
            pass
        t = self.temps[i]
        if t["new"] is not None:
            return t["new"]
        if len(self.mro[i]) > 1:
            return self.ctor(self.mro[i][1])
        return None

    # --- expressions
    def ents(self, env, t=None):
        out = [n for n, ty in env.items() if isinstance(ty, int) and
               (t is None or self.sub(ty, t))]
        return sorted(out)

    def iex(self, env, depth):
        d = self.d
        k = d.int(0, 5)
        ints = sorted(n for n, ty in env.items() if ty == "int")
        if k <= 1 and ints:
            return ["v", d.pick(ints)]
        if k == 2 or (k <= 1 and not ints):
            return ["k", d.int(-9, 9)]
        es = self.ents(env)
        if k == 3 and es:
            e = d.pick(es)
            fs = sorted(n for n, ty in self.fields(env[e]).items()
                        if ty == "int")
            ss = sorted(n for n, ty in self.fields(env[e]).items()
                        if ty == "S")
            if ss and d.flip(30):
                return ["sf", e, d.pick(ss), d.pick(["x", "y"])]
            if fs:
                return ["f", e, d.pick(fs)]
        if depth > 0:
            return [d.pick("+-*"), self.iex(env, depth - 1),
                    self.iex(env, depth - 1)]
        return ["k", d.int(-9, 9)]

    def bex(self, env, depth):
        d = self.d
        k = d.int(0, 3)
        if k == 0:
            return ["b", d.flip()]
        bs = sorted(n for n, ty in env.items() if ty == "bool")
        if k == 1 and bs:
            return ["v", d.pick(bs)]
        es = self.ents(env)
        if k == 2 and es:
            e = d.pick(es)
            fs = sorted(n for n, ty in self.fields(env[e]).items()
                        if ty == "bool")
            if fs:
                return ["f", e, d.pick(fs)]
        return ["<", self.iex(env, depth), self.iex(env, depth)]

    def ex(self, ty, env, depth=1):
        if ty == "int":
            return self.iex(env, depth)
        if ty == "bool":
            return self.bex(env, depth)
        if ty == "S":
            return ["S", self.iex(env, 0), self.iex(env, 0)]
        # entity
        es = self.ents(env, 0)
        return ["v", self.d.pick(es)]

    # --- statements
    def call(self, env, after, want="any"):
        """a method call expression or None"""
        d = self.d
        es = self.ents(env)
        if not es:
            return None
        es = [e for e in es if self.methods(env[e])] or es
        e = d.pick(es)
        t = env[e]
        names = [n for n in sorted(self.methods(t))
                 if n in self.order and self.order.index(n) > after]
        if want != "any":
            names = [n for n in names if self.sigs[n][1] == want]
        if not names:
            return None
        n = d.pick(names)
        if "ent" in self.sigs[n][0] and not self.ents(env, 0):
            return None
        args = [self.ex(0 if ty == "ent" else ty, env, 1)
                for ty in self.sigs[n][0]]
        q = self.methods(t)[n]["qual"]
        if q == "static" and t != self.cur and d.flip():
            return ["call", ["T", t], n, args]
        if d.flip(20):
            ups = [u for u in self.mro[t] if n in self.methods(u) and
                   u != self.cur]
            if not ups:
                return None
            return ["call", ["up", e, d.pick(ups)], n, args]
        return ["call", ["e", e], n, args]

    def stmts(self, env, n, after, out, depth=1, main=False):
        d = self.d
        for _ in range(n):
            k = d.int(0, 14)
            if k > 11:
                k = 3
            es = self.ents(env)
            if k <= 1 and es:
                e = d.pick(es)
                fs = sorted(self.fields(env[e]).items())
                if fs:
                    f, ty = d.pick(fs)
                    if ty == "S" and d.flip():
                        out.append(["set", ["sf", e, f, d.pick("xy")],
                                    self.iex(env, 1)])
                    elif ty == "int" and d.flip(40):
                        out.append(["aug", d.pick("+-*"), ["f", e, f],
                                    self.iex(env, 1)])
                    else:
                        out.append(["set", ["f", e, f],
                                    self.ex(ty, env, 1)])
            elif k <= 4:
                c = self.call(env, after)
                if c is None:
                    continue
                r = self.sigs[c[2]][1]
                if r is None:
                    out.append(["do", c])
                elif r == "ent":
                    v = self.fresh("e")
                    out.append(["ent", v, c])
                    env[v] = 0
                else:
                    v = self.fresh("x")
                    kk = d.int(0, 3)
                    if r == "int" and kk == 0:
                        c2 = self.call(env, after, "int")
                        if c2 is not None:
                            c = ["+", c, c2]
                    elif r == "int" and kk == 1:
                        # operands are not sequenced: no field here
                        c = ["-", ["k", d.int(-9, 9)], c]
                    out.append(["let", v, c])
                    env[v] = r
            elif k == 5:
                xs = [["v", n] for n in sorted(env) if env[n] in
                      ("int", "bool")]
                fs = []
                for e in es:
                    for f, ty in sorted(self.fields(env[e]).items()):
                        if ty == "S":
                            fs.append(["sf", e, f, "x"])
                            fs.append(["sf", e, f, "y"])
                        else:
                            fs.append(["f", e, f])
                if xs or fs:
                    out.append(["show", "s", d.sample(
                        xs + fs, min(4, len(xs + fs)))])
            elif k == 6 and depth > 0:
                c = self.bex(env, 1)
                a, b = [], []
                self.stmts(dict(env), d.int(1, 2), after, a, depth - 1)
                if d.flip():
                    self.stmts(dict(env), 1, after, b, depth - 1)
                if a:
                    out.append(["if", c, a, b])
            elif k == 7:
                v = self.fresh("x")
                out.append(["let", v, self.iex(env, 1)])
                env[v] = "int"
            elif k == 8 and main:
                t = d.int(0, len(self.temps) - 1)
                c = self.newex(t, env)
                dst = [e for e in es if self.sub(t, env[e])]
                if dst and d.flip(40):
                    out.append(["new", d.pick(dst), c, None])
                else:
                    v = self.fresh("e")
                    ty = self.seen_as(t) if d.flip(60) else None
                    out.append(["new", v, c, "auto" if ty is None else ty])
                    env[v] = t if ty is None else ty
            elif k == 9 and main and es:
                e = d.pick(es)
                dst = [x for x in es if self.sub(env[e], env[x]) and x != e]
                if dst and d.flip(60):
                    out.append(["assign", d.pick(dst), e])
                else:
                    v = self.fresh("e")
                    out.append(["ent", v, ["v", e]])
                    env[v] = env[e]
            elif k == 10 and main and len(es) > 1:
                a = d.pick(es)
                b = [x for x in es if env[x] == env[a] and x != a]
                if b:
                    out.append(["swap", a, d.pick(b)])
            elif k == 11 and main and self.funcs:
                f = d.pick(self.funcs)
                okp = True
                args = []
                for ty in f["ptypes"]:
                    if isinstance(ty, int):
                        cand = self.ents(env, ty)
                        if not cand:
                            okp = False
                            break
                        args.append(["v", d.pick(cand)])
                    else:
                        args.append(self.ex(ty, env, 1))
                if okp:
                    if f["ret"] is None:
                        out.append(["fdo", f["name"], args])
                    else:
                        v = self.fresh("e")
                        out.append(["ent", v, ["fcall", f["name"], args]])
                        env[v] = f["ret"]

    def newex(self, t, env):
        c = self.ctor(t)
        if c is None:
            return ["newb", t, self.builtin()]
        args = [self.iex(env, 1) for _ in c["params"]]
        if c["dflt"] and args and self.d.flip():
            args.pop()
        return ["newt", t, args]

    def method(self, i, m):
        d = self.d
        params, ret = self.sigs[m["name"]]
        env = {} if m["qual"] == "static" else {"self": i}
        for n, ty in zip(m["params"], params):
            env[n] = 0 if ty == "ent" else ty
        body = [["show", "%s@%d" % (m["name"], i),
                 [["v", n] for n in m["params"]
                  if env[n] in ("int", "bool")]]]
        self.stmts(env, d.int(0, 3), self.order.index(m["name"]), body)
        if ret == "ent":
            es = self.ents(env, 0)
            body.append(["result", ["v", d.pick(es)]])
        elif ret:
            body.append(["result", self.ex(ret, env, 1)])
        m["ret"] = ret
        m["body"] = body

    def func(self):
        d = self.d
        ptypes = [d.int(0, len(self.temps) - 1)
                  if d.flip(70) else "int" for _ in range(d.int(1, 2))]
        env = {"q%d" % i: t for i, t in enumerate(ptypes)}
        ret = None
        body = []
        self.stmts(env, d.int(1, 4), -1, body)
        es = self.ents(env)
        if es and d.flip(40):
            e = d.pick(es)
            ret = d.pick(self.mro[env[e]])
            body.append(["result", ["v", e]])
        self.funcs.append({"name": "fn%d" % len(self.funcs),
                           "ptypes": ptypes, "ret": ret, "body": body,
                           "inline": d.flip(25)})

    def main(self):
        d = self.d
        out = []
        env = {}
        for _ in range(d.int(1, 2)):
            t = d.int(d.int(0, 1), len(self.temps) - 1)
            v = self.fresh("e")
            ty = self.seen_as(t)
            out.append(["new", v, self.newex(t, env),
                        "auto" if ty == t else ty])
            env[v] = ty
        self.stmts(env, d.int(3, 12), -1, out, 1, True)
        for e in self.ents(env):
            fs = []
            for f, ty in sorted(self.fields(env[e]).items()):
                fs += [["sf", e, f, "x"], ["sf", e, f, "y"]] \
                    if ty == "S" else [["f", e, f]]
            out.append(["show", "end " + e, fs])
            out.append(["tagit", e])
        return out


# --- rendering --------------------------------------------------------------

def ex(e):
    k = e[0]
    if k == "k":
        return str(e[1])
    if k == "b":
        return str(e[1])
    if k == "v":
        return e[1]
    if k == "f":
        return "%s.%s" % (e[1], e[2])
    if k == "sf":
        return "%s.%s.%s" % (e[1], e[2], e[3])
    if k == "S":
        return "S(x=%s, y=%s)" % (ex(e[1]), ex(e[2]))
    if k == "call":
        if e[1][0] == "T":
            r = "T%d" % e[1][1]
        elif e[1][0] == "up":
            r = "upcast(%s, T%d)" % (e[1][1], e[1][2])
        else:
            r = e[1][1]
        return "%s.%s(%s)" % (r, e[2], ", ".join(map(ex, e[3])))
    if k == "fcall":
        return "%s(%s)" % (e[1], ", ".join(map(ex, e[2])))
    if k == "newb":
        return "T%d(%s)" % (e[1], bargs(e[2]))
    if k == "newt":
        return "T%d(%s)" % (e[1], ", ".join(map(ex, e[2])))
    return "(%s %s %s)" % (ex(e[1]), k, ex(e[2]))


def bargs(b):
    p = "Pos(%s)" % ", ".join(map(str, b["pos"]))
    out = ['type="%s"' % b["type"], "pos=" + p]
    if b["swap"]:
        out = ['"%s"' % b["type"], p]
    if b["name"] is not None:
        out.append('name="%s"' % b["name"].replace('"', '\\"'))
    return ", ".join(out)


def show(label, es):
    pat = label + "".join(" %%{%d}" % i for i in range(len(es)))
    return 'print.tell(print.format("%s"%s))' % (
        pat, "".join(", " + ex(x) for x in es))


def lines(body, pad, out):
    for s in body:
        k = s[0]
        if k == "set":
            out.append(pad + "%s = %s" % (ex(s[1]), ex(s[2])))
        elif k == "aug":
            out.append(pad + "%s %s= %s" % (ex(s[2]), s[1], ex(s[3])))
        elif k == "do":
            out.append(pad + ex(s[1]))
        elif k == "ent" and s[2][0] != "v":
            # results of inline functions keep their own template
            out.append(pad + "%s: %s = %s" % (
                s[1], "T0" if s[2][0] == "call" else
                "T%d" % FRET[s[2][1]], ex(s[2])))
        elif k in ("let", "ent"):
            out.append(pad + "%s := %s" % (s[1], ex(s[2])))
        elif k == "show":
            out.append(pad + show(s[1], s[2]))
        elif k == "if":
            out.append(pad + "if %s:" % ex(s[1]))
            lines(s[2], pad + "    ", out)
            if s[3]:
                out.append(pad + "else:")
                lines(s[3], pad + "    ", out)
        elif k == "new":
            op = "=" if s[3] is None else ":=" if s[3] == "auto" else \
                ": T%d =" % s[3]
            out.append(pad + "%s%s %s" % (
                s[1], op if op.startswith(":") and op != ":=" else " " + op,
                ex(s[2])))
        elif k == "assign":
            out.append(pad + "%s = %s" % (s[1], s[2]))
        elif k == "swap":
            out.append(pad + "swap(%s, %s)" % (s[1], s[2]))
        elif k == "fdo":
            out.append(pad + "%s(%s)" % (s[1], ", ".join(map(ex, s[2]))))
        elif k == "result":
            out.append(pad + "result " + ex(s[1]))
        elif k == "tagit":
            out.append(pad + "/tag ${%s} add is_%s" % (s[1], s[1]))


TN = {"ent": "T0"}


def tname(t):
    return "T%d" % t if isinstance(t, int) else TN.get(t, t)


FRET = {}


def render(p):
    FRET.clear()
    for f in p["funcs"]:
        FRET[f["name"]] = f["ret"]
    out = ["import print", "struct S:", "    x: int", "    y: int"]
    for i, t in enumerate(p["temps"]):
        out.append("entity T%d%s:" % (i, " extends " + ", ".join(
            "T%d" % q for q in t["parents"]) if t["parents"] else ""))
        start = len(out)
        for n, ty in t["fields"]:
            out.append("    %s: %s" % (n, ty))
        nw = t["new"]
        if nw:
            ps = ["%s: int%s" % (a, " = 5" if nw["dflt"] and
                                 a == nw["params"][-1] else "")
                  for a in nw["params"]]
            out.append("    %snew(%s):" % (
                "inline " if nw["inline"] else "", ", ".join(ps)))
            lines(nw["pre"], " " * 8, out)
            if nw["base"] is not None:
                out.append("        T%d.new(%s)" % (
                    nw["base"], bargs(nw["builtin"]) if "builtin" in nw
                    else ", ".join(map(ex, nw["args"]))))
            else:
                out.append("        new(%s)" % bargs(nw["builtin"]))
            lines(nw["body"], " " * 8, out)
        for m in t["methods"]:
            ps = ["%s: %s" % (n, tname(ty)) for n, ty in zip(
                m["params"], p["sigs"][m["name"]][0])]
            ret = p["sigs"][m["name"]][1]
            out.append("    %s%sdef %s(%s)%s:" % (
                m["qual"] + " " if m["qual"] else "",
                "inline " if m["inline"] else "", m["name"], ", ".join(ps),
                " -> " + tname(ret) if ret else ""))
            lines(m["body"], " " * 8, out)
        if len(out) == start:
            out.append("    pass")
    for f in p["funcs"]:
        ps = ["q%d: %s" % (i, tname(t)) for i, t in enumerate(f["ptypes"])]
        out.append("%sdef %s(%s)%s:" % (
            "inline " if f["inline"] else "", f["name"], ", ".join(ps),
            " -> T%d" % f["ret"] if f["ret"] is not None else ""))
        lines(f["body"], "    ", out)
        if not f["body"]:
            out.append("    pass")
    lines(p["main"], "", out)
    return "\n".join(out) + "\n"


# --- reference --------------------------------------------------------------

class Ent:
    def __init__(self, t):
        self.t = t
        self.f = {}
        self.type = self.pos = self.name = None


class Unset(Exception):
    pass


def w32(x):
    return (x + 2 ** 31) % 2 ** 32 - 2 ** 31


class Model:
    def __init__(self, p):
        self.p = p
        self.mro = mros(p["temps"])
        self.out = []
        self.ents = []
        self.calls = 0
        self.other = 0
        self.tags = {}
        self.steps = 0
        self.funcs = {f["name"]: f for f in p["funcs"]}

    def find(self, t, name):
        for k in self.mro[t]:
            for m in self.p["temps"][k]["methods"]:
                if m["name"] == name:
                    return m
        raise AssertionError(name)

    def ev(self, e, env):
        k = e[0]
        if k in ("k", "b"):
            return e[1]
        if k == "v":
            return env[e[1]][0]
        if k == "f":
            v = env[e[1]][0].f.get(e[2])
            if v is None:
                raise Skip("unset field")
            return v
        if k == "sf":
            v = env[e[1]][0].f.get(e[2])
            if v is None:
                raise Skip("unset field")
            return v[e[3]]
        if k == "S":
            return {"x": self.ev(e[1], env), "y": self.ev(e[2], env)}
        if k == "call":
            return self.call(e, env)
        if k == "fcall":
            return self.fcall(e[1], e[2], env)
        if k in ("newb", "newt"):
            x = Ent(e[1])
            self.ents.append(x)
            if k == "newb":
                self.builtin(x, e[2])
            else:
                self.construct(x, e[1], [self.ev(a, env) for a in e[2]])
            return x
        a, b = self.ev(e[1], env), self.ev(e[2], env)
        if k == "<":
            return a < b
        return w32(a + b if k == "+" else a - b if k == "-" else a * b)

    def builtin(self, x, b):
        x.type, x.pos = b["type"], tuple(b["pos"])
        x.name = b["name"] or ""

    def construct(self, x, t, args):
        nw = self.p["temps"][t]["new"]
        if nw is None:
            return self.construct(x, self.mro[t][1], args)
        env = {}
        args = list(args)
        while len(args) < len(nw["params"]):
            args.append(5)
        for n, v in zip(nw["params"], args):
            env[n] = [v, "int"]
        env["self"] = [x, t]
        self.block(nw["pre"], env)
        if "builtin" in nw:
            self.builtin(x, nw["builtin"])
        else:
            self.construct(x, nw["base"],
                           [self.ev(a, env) for a in nw["args"]])
        self.block(nw["body"], env)

    def call(self, e, env):
        self.calls += 1
        ref, name = e[1], e[2]
        args = [self.ev(a, env) for a in e[3]]
        me = st = None
        if ref[0] == "T":
            m = self.find(ref[1], name)
        elif ref[0] == "up":
            me, st = env[ref[1]]
            m = self.find(ref[2], name)
        else:
            me, st = env[ref[1]]
            m = self.find(st, name)
            if m["qual"] in ("virtual", "override"):
                m2 = self.find(me.t, name)
                if m2 is not m:
                    self.other += 1
                m = m2
        env2 = {}
        for n, v, ty, a in zip(m["params"], args, self.p["sigs"][name][0],
                               e[3]):
            env2[n] = [v, ty if ty != "ent" else
                       self.stype(a, env) if m["inline"] else 0]
        if m["qual"] != "static":
            # inline methods see `self` as what the caller knows it as
            env2["self"] = [me, st if m["inline"] and
                            m["def"] in self.mro[st] else m["def"]]
        return self.block(m["body"], env2)

    def fcall(self, name, args, env):
        f = self.funcs[name]
        env2 = {"q%d" % i: [self.ev(a, env), t if not isinstance(t, int)
                            or not f["inline"] else self.stype(a, env)]
                for i, (a, t) in enumerate(zip(args, f["ptypes"]))}
        return self.block(f["body"], env2)

    def text(self, v):
        return str(int(v))

    def block(self, body, env):
        res = None
        for s in body:
            self.steps += 1
            if self.steps > 3000:
                raise Skip("long")
            k = s[0]
            if k == "set":
                v = self.ev(s[2], env)
                self.store(s[1], v, env)
            elif k == "aug":
                a = self.ev(s[2], env)
                v = self.ev([s[1], s[2], s[3]], env)
                self.store(s[2], v, env)
            elif k == "do":
                self.ev(s[1], env)
            elif k == "let":
                env[s[1]] = [self.ev(s[2], env), "int"]
            elif k == "ent":
                v = self.ev(s[2], env)
                env[s[1]] = [v, self.stype(s[2], env)]
            elif k == "show":
                self.out.append(" ".join([s[1]] + [
                    self.text(self.ev(x, env)) for x in s[2]]))
            elif k == "if":
                sub = dict(env)
                self.block(s[2] if self.ev(s[1], env) else s[3], sub)
            elif k == "new":
                v = self.ev(s[2], env)
                ty = v.t if s[3] == "auto" else \
                    env[s[1]][1] if s[3] is None else s[3]
                env[s[1]] = [v, ty]
            elif k == "assign":
                env[s[1]] = [env[s[2]][0], env[s[1]][1]]
            elif k == "swap":
                a, b = env[s[1]][0], env[s[2]][0]
                env[s[1]][0], env[s[2]][0] = b, a
            elif k == "fdo":
                self.fcall(s[1], s[2], env)
            elif k == "result":
                res = self.ev(s[1], env)
            elif k == "tagit":
                # (stays on the entities of earlier runs)
                self.tags.setdefault("is_" + s[1], []).append(env[s[1]][0])
        return res

    def stype(self, e, env):
        if e[0] == "v":
            return env[e[1]][1]
        if e[0] == "fcall":
            return self.funcs[e[1]]["ret"]
        return 0

    def store(self, t, v, env):
        x = env[t[1]][0]
        if t[0] == "f":
            x.f[t[2]] = dict(v) if isinstance(v, dict) else v
        else:
            if x.f.get(t[2]) is None:
                raise Skip("unset field")
            x.f[t[2]][t[3]] = v


def g(d):
    return {"p": G(d).program(), "ver": d.pick([
        [1, 20, 50], [1, 20, 50], [1, 19, 60], [1, 19, 70]]),
        "opt": d.flip(70), "runs": d.pick([1, 1, 1, 1, 2, 3])}


def run(case):
    p = case["p"]
    m = Model(p)
    for _ in range(case["runs"]):
        m.block(p["main"], {})
    src = render(p)
    b = build(src, mc_version=tuple(case["ver"]), optimizer=case["opt"])

    def setup(vm):
        vm.add_ent("player", name="ann", pos=(8.0, 64.0, 8.0))
    vm = execute(b, setup, src)
    for _ in range(case["runs"] - 1):
        execute(b, vm=vm, src=src, init=False)
    got = [e[2] for e in vm.events if e[0] == "tellraw"]
    same(got, m.out, "messages of the methods", src, b)
    mine = [e for e in vm.ents if e.type != "player"]
    same([(e.type, tuple(round(c, 3) for c in e.pos), e.name)
          for e in mine],
         [(x.type, tuple(c + .5 if i != 1 else float(c)
                         for i, c in enumerate(x.pos)), x.name)
          for x in m.ents], "entities in the world", src, b)
    for tag, xs in sorted(m.tags.items()):
        same([i for i, e in enumerate(mine) if tag in e.tags],
             sorted({m.ents.index(x) for x in xs}), "entity that a variable refers to (%s)" % tag,
             src, b)
    return {"nontrivial": len(m.ents) >= 2 and m.other > 0 or m.calls >= 4,
            "tags": ["dispatched"] if m.other else []}


# --- refusals ---------------------------------------------------------------

PRE = """import print
entity A:
    n: int
    new(v: int):
        new(type="pig", pos=Pos(0, 0, 0))
        self.n = v
    def s() -> int:
        result self.n
    virtual def v(x: int) -> int:
        result x + self.n
    static def t():
        pass
entity B extends A:
    m: int
    override def v(x: int) -> int:
        result 2
entity C:
    c: int
    virtual def w():
        pass
entity D:
    virtual def w():
        pass
    def s():
        pass
struct P:
    a: int
"""
OKS = ["entity X extends A, C:\n    pass", "entity X extends B:\n    override "
       "inline def v(x: int) -> int:\n        result x",
       "entity X extends A:\n    def s():\n        pass",
       "entity X extends A:\n    static def t():\n        pass",
       "a := B(3)\nb: A = a\nprint.tell(print.format(\"%0\", b.v(3)))",
       "A.t()\nB.t()", "a: A = B(1)\nupcast(a, A).v(1)",
       "entity X extends A:\n    inline new():\n        A.new(3)",
       "entity X:\n    new():\n        new(\"pig\", Pos(1, 1, 1), "
       "name=\"q\", event=\"e\")\nx := X()",
       "def f(e: A) -> A:\n    result e\nq: A = f(B(4))"]
BADS = [
    "entity X extends A:\n    n: int",                 # field twice
    "entity X extends A, B:\n    pass",                # no MRO
    "entity X extends A:\n    def v(x: int) -> int:\n        result 1",
    "entity X extends A:\n    virtual def v(x: int) -> int:\n"
    "        result 1",
    "entity X extends A:\n    static def v(x: int) -> int:\n"
    "        result 1",
    "entity X extends A:\n    override def s() -> int:\n        result 1",
    "entity X extends A:\n    static def s() -> int:\n        result 1",
    "entity X extends A:\n    virtual def s() -> int:\n        result 1",
    "entity X extends A:\n    def t():\n        pass",
    "entity X extends A:\n    virtual def t():\n        pass",
    "entity X extends A:\n    override def t():\n        pass",
    "entity X extends A:\n    override def nope():\n        pass",
    "entity X:\n    override def nope():\n        pass",
    "entity X extends A:\n    override def v(x: int) -> bool:\n"
    "        result True",
    "entity X extends A:\n    override def v(x: int):\n        pass",
    "entity X extends C, D:\n    pass",                # two virtual
    "entity X extends A:\n    s: int",                 # field vs method
    "entity X extends A:\n    v: int", "entity X extends A:\n    t: int",
    "entity X extends A:\n    def n():\n        pass",
    "entity X:\n    a: int\n    a: bool",
    "entity X:\n    a: int\n    def a():\n        pass",
    "entity X:\n    def a():\n        pass\n    def a():\n        pass",
    "entity X extends P:\n    pass", "entity X extends int:\n    pass",
    "entity X:\n    a: Pos", "entity X:\n    a: A",
    "entity X:\n    a: Engroup[A]",
    "entity X:\n    new() -> int:\n        new(\"pig\", Pos(1, 1, 1))",
    "new(\"pig\", Pos(1, 1, 1))", "A.new(3)",
    "def f():\n    A.new(3)",
    "x := A()", "x := A(1, 2)", "x := A(v=True)", "x := A(w=1)",
    "x := Entity(\"pig\")", "x := Entity()", "x := Entity(1, Pos(0, 0, 0))",
    "x: B = A(1)", "x := B(1)\nx = A(1)", "x: C = A(1)",
    "b := B(1)\nb.t2()", "a := A(1)\na.m = 3", "a: A = B(1)\na.m = 3",
    "a := A(1)\na.n = True", "a := A(1)\na.s = 3", "a := A(1)\na.v()",
    "a := A(1)\na.v(True)", "a := A(1)\na.v(1, 2)", "A.s()", "A.v(1)",
    "A.n = 3", "a := A(1)\nupcast(a, B)", "a := A(1)\nupcast(a, C)",
    "a := A(1)\nx: int = a", "a := 3 + A(1)", "a := A(1)\nif a:\n    pass",
    "self", "x := self.n", "def f(e: B):\n    pass\nf(A(1))",
    "def f() -> B:\n    result A(1)", "entity X:\n    def f():\n"
    "        self = A(1)", "a := A(1)\nb := B(1)\nswap(a, b)",
    "entity X extends A:\n    new():\n        B.new(1, 2)",
    "entity X extends A:\n    new():\n        P.new(1)",
    "entity X:\n    static def f():\n        x := self",
    "entity X:\n    const def f():\n        pass",
    "entity X:\n    virtual new():\n        new(\"pig\", Pos(1, 1, 1))",
]


def g_bad(d):
    return {"ok": d.sample(OKS, d.int(0, 1)), "bad": d.pick(BADS)}


def run_bad(case):
    good = PRE + "\n".join(case["ok"]) + "\n"
    out, r = try_build(good)
    need(out == "ok", "valid entity program refused: %s\n%s",
         r.text if out != "ok" else "", good)
    out, r = try_build(PRE + case["bad"] + "\n")
    need(out == "rejected", "invalid entity program accepted\n%s",
         case["bad"])
    return {"nontrivial": True, "tags": ["refused"]}


CHECKS = [
    Check("programs", g, run, 5000, 120000),
    Check("refused", g_bad, run_bad, 700, 4000),
]
