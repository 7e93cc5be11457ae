"""A model of Acacia programs in which values of every storable type meet:
integers, truth values, structs, entity references and entity groups in
variables, references, fields, parameters and results.

types:  "int" "bool"; "A" "B" (extends A) "C": entity templates;
        "gA" "gB" "gC": groups of them; "P0".. and "S0"..: structs

paths:  [root, field, ...]

expressions:
  ["n", int] ["b", bool] ["p", path] ["bin", op, a, b] ["cmp", op, a, b]
  ["and", a, b] ["or", a, b] ["not", a] ["int", b]
  ["size", path] ["empty", path] ["has", path, entity-expr]
  ["mk", struct, [[field, expr]..]]       ["new", T]  (empty group)
  ["copy", path]   ["chain", gexpr, [method..]]
  ["call", func, [expr..]]                ["meth", path, method, [expr..]]
group methods: ["add", e] ["remove", e] ["extend", path] ["subtract", path]
  ["intersect", path] ["clear"]
"""
from .core import Skip
from .mcvm import wrap

TN = {"gA": "Engroup[A]", "gB": "Engroup[B]", "gC": "Engroup[C]"}
SUP = {"B": "A", "gB": "gA"}


def tname(t):
    return TN.get(t, t)


class Types:
    """static facts about the declarations of a program"""

    def __init__(self, structs, temps):
        self.s = {s["name"]: s for s in structs}
        self.t = temps

    def sub(self, a, b):
        while a is not None:
            if a == b:
                return True
            a = self.s[a]["base"] if a in self.s else SUP.get(a)
        return False

    def fields(self, t):
        """field name -> type, inherited ones first"""
        out = {}
        if t in self.s:
            if self.s[t]["base"]:
                out.update(self.fields(self.s[t]["base"]))
            out.update(self.s[t]["fields"])
        elif t in self.t:
            if t in SUP:
                out.update(self.fields(SUP[t]))
            out.update(self.t[t]["fields"])
        return out

    def methods(self, t):
        out = {}
        if t in SUP:
            out.update(self.methods(SUP[t]))
        for m in self.t[t]["methods"]:
            out[m["name"]] = m
        return out

    def hops(self, p, types):
        """does the path lead through an entity"""
        t = types[p[0]]
        for f in p[1:]:
            if t in self.t:
                return True
            t = self.fields(t)[f]
        return False


# --- generator --------------------------------------------------------------

class Gen:
    def __init__(self, d, size=None):
        self.d = d
        self.structs, self.temps, self.funcs = [], {}, []
        self.ty = Types(self.structs, self.temps)
        self.ty.s = {}
        self.vars = {}          # visible name -> type
        self.ro = set()         # names that are not assigned
        self.local = None       # names of the function being written, or None
        self.eff = True         # may the code change what others see
        self.named = []         # types that can be written down
        self.rank = 0           # methods of a lower rank may be called
        self.nv = 0
        self.budget = size or d.pick([6, 12, 18, 26])
        self.nest = 0
        self.spawns = 0
        self.tasks = []

    def fresh(self, p):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    # -- declarations

    def struct(self, name, tys):
        d = self.d
        bases = [s["name"] for s in self.structs if s["name"][0] == name[0]]
        s = {"name": name, "base": d.pick(bases) if bases and d.flip(35)
             else None, "fields": []}
        for i in range(d.int(0 if s["base"] else 1, 3)):
            s["fields"].append([name.lower() + "xyz"[i], d.pick(tys)])
        self.structs.append(s)
        self.ty.s[name] = s
        self.named.append(name)

    def template(self, name):
        d = self.d
        t = {"name": name, "fields": [], "methods": []}
        if name != "B":
            t["fields"] += [["id", "int"], ["bit", "int"]]
        ps = [s["name"] for s in self.structs if s["name"][0] == "P"]
        for i in range(d.int(1, 3)):
            t["fields"].append([name.lower() + "f%d" % i, d.pick(
                ["int", "int", "bool"] + ps * 2)])
        self.temps[name] = t
        for i in range(d.int(0, 2)):
            self.method(name, name.lower() + "m%d" % i, "")
        if name == "A" and d.flip(70):
            self.method(name, "v", "virtual")
        if name == "B" and "v" in self.ty.methods("A") and d.flip(70):
            self.method(name, "v", "override")
        self.named += [name, "g" + name]

    def signature(self):
        d = self.d
        ps = []
        for _ in range(d.pick([0, 1, 1, 2, 3])):
            ps.append([self.fresh("p"), self.d.pick(self.named)])
        return ps, d.pick(self.named) if d.flip(75) else None

    def method(self, t, name, qual):
        d = self.d
        m = {"name": name, "qual": qual, "inline": d.flip(25), "ref": []}
        if qual == "override":
            v = self.ty.methods("A")["v"]
            m.update(ret=v["ret"], eff=v["eff"], rank=v["rank"],
                     params=[[self.fresh("p"), x] for _, x in v["params"]])
        else:
            self.rank += 1
            m["rank"] = self.rank
            m["eff"] = d.flip()
            m["params"], m["ret"] = self.signature()
        self.body(m, dict(m["params"], self=t), {"self"}, m["rank"])
        self.temps[t]["methods"].append(m)

    def body(self, f, vars_, ro, rank):
        d = self.d
        save = (self.vars, self.ro, self.local, self.eff, self.budget,
                self.rank, self.nest)
        if "self" in vars_:
            # methods are written before the globals
            self.vars = dict(vars_)
        else:
            self.vars = dict(self.vars, **vars_)
        self.ro = self.ro | ro
        self.local = {n for n in vars_ if n != "self"
                      and n not in f["ref"]}
        self.eff, self.budget = f["eff"], 4
        self.rank = rank
        self.nest = 1
        f["body"] = b = []
        for _ in range(d.int(0, 3)):
            self.stmt(b)
        if f["ret"] and not (self.canx(f["ret"]) if f["inline"] else
                             self.can(f["ret"])):
            if f.get("qual") == "override":
                f["inline"] = False
            else:
                f["ret"] = None
        if f["ret"]:
            b.append(["result", self.ex(f["ret"], 2, f["inline"])])
        if not b:
            b.append(["pass"])
        (self.vars, self.ro, self.local, self.eff, self.budget,
         _, self.nest) = save
        self.rank = max(save[5], rank)

    def func(self):
        d = self.d
        f = {"name": self.fresh("f"), "inline": d.flip(40), "eff": d.flip(),
             "ref": []}
        f["params"], f["ret"] = self.signature()
        if f["inline"]:
            f["ref"] = [n for n, _ in f["params"] if d.flip(35)]
            if f["ref"]:
                f["eff"] = True
        self.body(f, dict(f["params"]), set(), 99)
        self.funcs.append(f)

    # -- paths

    def grow(self, p, t, want, out, depth):
        if want(t):
            out.append(p)
        if depth:
            if t in self.ty.s or t in self.temps:
                for f, u in self.ty.fields(t).items():
                    self.grow(p + [f], u, want, out, depth - 1)

    def paths(self, want):
        out = []
        for n in sorted(self.vars):
            self.grow([n], self.vars[n], want, out, 3)
        return out

    def reads(self, t):
        return self.paths(lambda u: self.ty.sub(u, t))

    def writes(self, t):
        """paths of exactly this type that may be assigned here"""
        out = []
        for p in self.paths(lambda u: u == t):
            if len(p) == 1 and p[0] in self.ro:
                continue
            if p[-1] in ("id", "bit"):
                continue
            if not self.eff and (self.ty.hops(p, self.vars) or
                                 p[0] not in self.local):
                continue
            out.append(p)
        return out

    def can(self, t, seen=()):
        if t in ("int", "bool"):
            return True
        if t in self.temps or t in ("A", "B", "C"):
            return bool(self.reads(t))
        if t[0] == "g":
            return t in self.named or bool(self.reads(t))
        return t in self.named and all(
            self.can(u) for u in self.ty.fields(t).values())

    def canx(self, t):
        """is there a value of exactly this type"""
        if t in ("A", "B", "C"):
            return bool(self.paths(lambda u: u == t))
        if t in TN and t not in self.named:
            return bool(self.paths(lambda u: u == t))
        return self.can(t)

    # -- expressions

    def lit(self):
        d = self.d
        # folded constants must not overflow
        return ["n", d.wpick((5, d.int(-3, 9)), (1, d.int(-99, 99)))]

    def calls(self, t, eff=False):
        """callables whose result fits t"""
        out = []
        if self.local is None or self.d.flip(50):
            for f in self.funcs:
                if f["ret"] and self.ty.sub(f["ret"], t) and \
                        (eff or not f["eff"]):
                    out.append((None, f))
        for p in self.paths(lambda u: u in self.temps):
            u = self.typeof(p)
            for n, m in self.ty.methods(u).items():
                if m["ret"] and self.ty.sub(m["ret"], t) and \
                        (eff or not m["eff"]) and self.callable(m):
                    out.append((p, m))
        return out

    def callable(self, m):
        # no recursion through methods
        return self.in_main() or "self" not in self.vars or \
            m["rank"] < self.rank

    def in_main(self):
        return self.local is None

    def typeof(self, p):
        t = self.vars[p[0]]
        for f in p[1:]:
            t = self.ty.fields(t)[f]
        return t

    def callex(self, c, dep):
        p, f = c
        if any(not self.can(t) for _, t in f["params"]):
            return None
        args = []
        refs = []
        for n, t in f["params"]:
            if n in f["ref"]:
                ps = [q for q in self.writes(t)
                      if not self.ty.hops(q, self.vars)]
                if not ps:
                    return None
                refs.append(self.d.pick(ps))
                args.append(["p", refs[-1]])
            else:
                # parameters of inline functions keep the type they are
                # given, and an override may be inline
                exact = f["inline"] or f.get("qual", "") != ""
                if exact and not self.canx(t):
                    return None
                args.append(self.ex(t, dep, exact))
        if p is None:
            return ["call", f["name"], args]
        return ["meth", p, f["name"], args]

    def ex(self, t, dep=2, exact=False):
        """an expression of type t or, unless exact, of a subtype"""
        d = self.d
        k = d.int(0, 11)
        if k >= 10 and dep > 0:
            cs = [c for c in self.calls(t) if not exact or c[1]["ret"] == t]
            if cs:
                c = self.callex(d.pick(cs), dep - 1)
                if c:
                    return c
        ps = self.paths(lambda u: u == t) if exact else self.reads(t)
        if t == "int":
            if k <= 1 or dep <= 0:
                return ["p", d.pick(ps)] if ps and d.flip(75) else self.lit()
            if k <= 4 and ps:
                return ["p", d.pick(ps)]
            if k == 5:
                gs = self.paths(lambda u: u in TN)
                if gs:
                    return ["size", d.pick(gs)]
            if k == 6:
                return ["int", self.ex("bool", dep - 1)]
            return ["bin", d.pick("++-*"), self.ex("int", dep - 1),
                    self.ex("int", dep - 1)]
        if t == "bool":
            if k <= 1 or dep <= 0:
                return ["p", d.pick(ps)] if ps and d.flip(75) else \
                    ["b", d.flip()]
            if k <= 3 and ps:
                return ["p", d.pick(ps)]
            if k <= 5:
                gs = self.paths(lambda u: u in TN)
                if gs:
                    g = d.pick(gs)
                    e = self.typeof(g)[1]
                    if d.flip(75) and self.reads(e):
                        return ["has", g, ["p", d.pick(self.reads(e))]]
                    return ["empty", g]
            if k == 6:
                return [d.pick(["and", "or"]), self.ex("bool", dep - 1),
                        self.ex("bool", dep - 1)]
            if k == 7:
                return ["not", self.ex("bool", dep - 1)]
            return ["cmp", d.pick(["==", "!=", "<", "<=", ">", ">="]),
                    self.ex("int", dep - 1), self.ex("int", dep - 1)]
        if t in self.temps or t in "ABC":
            return ["p", d.pick(ps)]
        if t in TN:
            if ps and k <= 4:
                return ["p", d.pick(ps)]
            ts = [u for u in TN if (u == t if exact else self.ty.sub(u, t))
                  and u in self.named]
            if ps and (k <= 7 or not ts):
                p = d.pick(ps)
                g, u = ["copy", p], self.typeof(p)
            else:
                u = d.pick(ts)
                g = ["new", u[1]]
            ms = [self.gmeth(u) for _ in range(d.pick([0, 1, 1, 2]))]
            return ["chain", g, ms] if ms else g
        if ps and k <= 5:
            return ["p", d.pick(ps)]
        ts = [u for u in self.ty.s if self.can(u) and
              (u == t if exact else self.ty.sub(u, t))]
        if dep <= 0:
            # a subtype may have a field of type t
            if ps:
                return ["p", d.pick(ps)]
            ts = [t]
        u = d.pick(ts)
        fs = list(self.ty.fields(u).items())
        return ["mk", u, [[n, self.ex(ft, dep - 1)]
                          for n, ft in d.shuffle(fs)]]

    def gmeth(self, t):
        d = self.d
        k = d.pick(["add", "add", "add", "add", "remove", "remove", "extend",
                    "extend", "extend", "subtract", "intersect", "clear"])
        if k in ("add", "remove"):
            es = self.reads(t[1])
            if not es:
                gs = self.reads(t)
                return ["extend", d.pick(gs)] if gs else ["clear"]
            return [k, d.pick(es)]
        if k == "clear":
            return [k]
        gs = self.reads(t)
        return [k, d.pick(gs)] if gs else ["clear"]

    # -- statements

    def types(self):
        ts = [t for t in self.named if self.can(t)]
        return ts

    def pick_type(self):
        d = self.d
        ts = self.types()
        big = [t for t in ts if t not in ("int", "bool")]
        return d.pick(big) if big and d.flip(75) else d.pick(ts)

    def block(self, n=None):
        save = dict(self.vars), set(self.ro), self.local and set(self.local)
        self.nest += 1
        out = []
        for _ in range(n or self.d.int(1, 3)):
            self.stmt(out)
        self.nest -= 1
        self.vars, self.ro, self.local = save
        return out or [["pass"]]

    def declare(self, n, t):
        self.vars[n] = t
        if self.local is not None:
            self.local.add(n)

    def stmt(self, out):
        d = self.d
        self.budget -= 1
        k = d.int(0, 24)
        if 4 <= k <= 14 and d.flip(85):
            # something is stored
            for _ in range(4):
                if self.store(out, k):
                    return
                k = d.int(4, 14)
        self.other(out, d.int(0, 3) if k <= 14 else k)

    def store(self, out, k):
        d = self.d
        if k <= 8:
            t = self.pick_type()
            ps = self.writes(t)
            if ps:
                out.append(["set", d.pick(ps), self.ex(t), t])
                return True
        elif k <= 10:
            t = self.pick_type()
            ps = self.writes(t)
            if len(ps) >= 2:
                a, b = d.sample(ps, 2)
                out.append(["swap", a, b])
                return True
        elif k == 11:
            ps = self.writes("int")
            if ps:
                out.append(["aug", d.pick("+-*"), d.pick(ps), self.ex("int")])
                return True
        else:
            gs = [g for t in TN for g in self.writes(t)]
            if gs:
                g = d.pick(gs)
                t = self.typeof(g)
                if d.flip(25):
                    hs = self.reads(t)
                    out.append(["gaug", g, d.pick("+-"), d.pick(hs)])
                else:
                    out.append(["gdo", g, [self.gmeth(t) for _ in
                                           range(d.pick([1, 1, 2]))]])
                return True
        return False

    def other(self, out, k):
        d = self.d
        if k <= 3:
            t = self.pick_type()
            e = self.ex(t)
            n = self.fresh("v")
            # the type is written or taken from the value
            auto = e[0] in ("p", "mk", "new", "bin", "cmp", "size") and \
                self.static(e) == t and d.flip()
            out.append(["decl", n, None if auto else t, e])
            self.declare(n, t)
            return
        if k <= 16 and self.nest < 3 and self.budget > 0:
            out.append(["if", self.ex("bool"), self.block(),
                        self.block() if d.flip(40) else None])
            return
        if k == 17 and self.nest < 2 and self.budget > 0:
            n = self.fresh("w")
            self.declare(n, "int")
            self.ro.add(n)
            out.append(["while", n, d.int(1, 3), self.block(d.int(1, 2))])
            return
        if k <= 19 and self.nest < 3 and self.budget > 0:
            gs = self.paths(lambda u: u in TN)
            if gs:
                g = d.pick(gs)
                n = self.fresh("m")
                save = dict(self.vars)
                self.vars[n] = self.typeof(g)[1]
                self.ro.add(n)
                b = self.block(d.int(1, 2))
                self.vars = save
                out.append(["for", n, g, b])
                return
        if k <= 21:
            c = self.anycall()
            if c:
                p, f = c
                e = self.callex(c, 1)
                if e:
                    if f["ret"] and d.flip(70):
                        # the result goes to a new or a plain local variable
                        n = self.fresh("v")
                        out.append(["decl", n, f["ret"], e])
                        self.declare(n, f["ret"])
                    else:
                        out.append(["ex", e])
                    return
        if k == 23 and self.eff:
            gs = [g for g in self.paths(lambda u: u in TN)
                  if self.typeof(g)[1] in self.named]
            if gs and self.nest < 3:
                g = d.pick(gs)
                n = self.fresh("e")
                save = dict(self.vars), self.local and set(self.local)
                self.declare(n, self.typeof(g)[1])
                b = self.block(d.int(1, 2))
                self.vars, self.local = save
                out.append(["single", n, self.vt(g), g, b])
                return
        if k == 22 and self.tasks and self.in_main():
            out.append(["after", d.pick(self.tasks), d.int(0, 3)])
            return
        if k == 24 and self.in_main() and self.spawns < 2 and self.nest < 2:
            self.spawns += 1
            self.spawn(out, d.pick(["A", "B", "C"]))
            return
        if self.eff:
            self.say(out)
        else:
            out.append(["pass"])

    def vt(self, g):
        return self.typeof(g)[1]

    def static(self, e):
        if e[0] == "p":
            return self.typeof(e[1])
        if e[0] == "mk":
            return e[1]
        if e[0] == "new":
            return "g" + e[1]
        return {"bin": "int", "cmp": "bool", "size": "int"}[e[0]]

    def anycall(self):
        out = []
        for f in self.funcs if self.in_main() else []:
            if self.eff or not f["eff"]:
                out.append((None, f))
        for p in self.paths(lambda u: u in self.temps):
            for n, m in self.ty.methods(self.typeof(p)).items():
                if (self.eff or not m["eff"]) and self.callable(m):
                    out.append((p, m))
        return self.d.pick(out) if out else None

    def say(self, out):
        d = self.d
        es = [self.ex(d.pick(["int", "int", "bool"]), 1)
              for _ in range(d.int(1, 2))]
        out.append(["say", es])

    def spawn(self, out, t, ty=None):
        n = self.fresh("e")
        ty = ty or t
        fs = []
        for f, u in self.ty.fields(t).items():
            if f not in ("id", "bit"):
                fs.append([f, self.ex(u, 1)])
        out.append(["spawn", n, t, fs])
        self.declare(n, t)

    def task(self):
        """a function with arguments that is run later, or again and again;
        the arguments are what their variables hold at that time"""
        d = self.d
        f = d.pick(self.funcs)
        args = []
        if f["ref"]:
            return None
        for n, t in f["params"]:
            ps = self.paths(lambda u: u == t) if f["inline"] else \
                self.reads(t)
            if not ps:
                return None
            args.append(["p", d.pick(ps)])
        return {"name": self.fresh("t"), "func": f["name"], "args": args,
                "every": d.int(1, 3) if d.flip(30) else None}

    def program(self):
        d = self.d
        self.named = ["int", "bool"]
        for i in range(d.int(1, 2)):
            self.struct("P%d" % i, list(self.named))
        self.template("A")
        self.template("B")
        ns = 0
        for _ in range(d.int(0, 1)):
            self.struct("S%d" % ns, self.named[2:] * 2 + ["int", "bool"])
            ns += 1
        self.template("C")
        for _ in range(d.int(1, 2)):
            self.struct("S%d" % ns, self.named[2:] * 2 + ["int", "bool"])
            ns += 1
        pre = []
        for t in ("A", "B", "C"):
            self.spawn(pre, t)
        if d.flip():
            self.spawn(pre, d.pick("AB"))
        for _ in range(d.int(2, 4)):
            t = self.pick_type()
            n = self.fresh("v")
            pre.append(["decl", n, t, self.ex(t)])
            self.declare(n, t)
        for _ in range(d.int(1, 3)):
            self.func()
        tasks = []
        for _ in range(d.pick([0, 0, 1, 2])):
            t = self.task()
            if t:
                tasks.append(t)
        self.tasks = [t["name"] for t in tasks if t["every"] is None]
        body = []
        while self.budget > 0:
            self.stmt(body)
        ifs = []
        for i in range(d.pick([0, 0, 1, 2])):
            self.budget = 3
            ifs.append(self.block(d.int(1, 3)))
        return {"structs": self.structs,
                "temps": [self.temps[t] for t in "ABC"],
                "order": [x for x in self.named if x in self.ty.s or
                          x in self.temps],
                "pre": pre, "funcs": self.funcs, "body": body, "ifs": ifs,
                "tasks": tasks,
                "watch": sorted(self.vars.items())}


# --- rendering --------------------------------------------------------------

def rp(p):
    return ".".join(p)


def re_(e):
    k = e[0]
    if k == "n":
        return str(e[1])
    if k == "b":
        return str(e[1])
    if k == "p":
        return rp(e[1])
    if k in ("bin", "cmp"):
        return "(%s %s %s)" % (re_(e[2]), e[1], re_(e[3]))
    if k in ("and", "or"):
        return "(%s %s %s)" % (re_(e[1]), k, re_(e[2]))
    if k == "not":
        return "(not %s)" % re_(e[1])
    if k == "int":
        return "int(%s)" % re_(e[1])
    if k == "size":
        return rp(e[1]) + ".size()"
    if k == "empty":
        return rp(e[1]) + ".is_empty()"
    if k == "has":
        return "%s.has(%s)" % (rp(e[1]), re_(e[2]))
    if k == "mk":
        return "%s(%s)" % (e[1], ", ".join(
            "%s=%s" % (n, re_(x)) for n, x in e[2]))
    if k == "new":
        return "Engroup[%s]()" % e[1]
    if k == "copy":
        return rp(e[1]) + ".copy()"
    if k == "chain":
        return re_(e[1]) + "".join(map(rm, e[2]))
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(map(re_, e[2])))
    return "%s.%s(%s)" % (rp(e[1]), e[2], ", ".join(map(re_, e[3])))


def rm(m):
    return ".%s(%s)" % (m[0], rp(m[1]) if len(m) > 1 else "")


def rs(s, I, out):
    k = s[0]
    if k == "decl":
        out.append("%s%s := %s" % (I, s[1], re_(s[3])) if s[2] is None else
                   "%s%s: %s = %s" % (I, s[1], tname(s[2]), re_(s[3])))
    elif k == "set":
        out.append("%s%s = %s" % (I, rp(s[1]), re_(s[2])))
    elif k == "swap":
        out.append("%sswap(%s, %s)" % (I, rp(s[1]), rp(s[2])))
    elif k == "aug":
        out.append("%s%s %s= %s" % (I, rp(s[2]), s[1], re_(s[3])))
    elif k == "gaug":
        out.append("%s%s %s= %s" % (I, rp(s[1]), s[2], rp(s[3])))
    elif k == "gdo":
        out.append(I + rp(s[1]) + "".join(map(rm, s[2])))
    elif k == "if":
        out.append("%sif %s:" % (I, re_(s[1])))
        rb(s[2], I + "    ", out)
        if s[3]:
            out.append(I + "else:")
            rb(s[3], I + "    ", out)
    elif k == "while":
        out.append("%s%s := 0" % (I, s[1]))
        out.append("%swhile %s < %d:" % (I, s[1], s[2]))
        rb(s[3], I + "    ", out)
        out.append("%s    %s += 1" % (I, s[1]))
    elif k == "for":
        out.append("%sfor %s in %s:" % (I, s[1], rp(s[2])))
        rb(s[3], I + "    ", out)
    elif k == "single":
        out.append("%sif %s.size() == 1:" % (I, rp(s[3])))
        out.append("%s    %s: %s = %s.to_single()" % (I, s[1], s[2],
                                                      rp(s[3])))
        rb(s[4], I + "    ", out)
    elif k == "say":
        out.append('%sprint.tell(print.format("%s", %s))' % (
            I, " ".join("%" + str(i) for i in range(len(s[1]))),
            ", ".join(map(re_, s[1]))))
    elif k == "ex":
        out.append(I + re_(s[1]))
    elif k == "result":
        out.append("%sresult %s" % (I, re_(s[1])))
    elif k == "spawn":
        out.append('%s%s: %s = %s("pig", Pos(0, 0, 0))' % (
            I, s[1], s[2], s[2]))
        out.append("%s%s.id = nid" % (I, s[1]))
        out.append("%s%s.bit = nid * nid * nid + 1" % (I, s[1]))
        out.append("%snid += 1" % I)
        for f, e in s[3]:
            out.append("%s%s.%s = %s" % (I, s[1], f, re_(e)))
    elif k == "after":
        out.append("%s%s.after(%d)" % (I, s[1], s[2]))
    else:
        out.append(I + "pass")


def rb(b, I, out):
    for s in b:
        rs(s, I, out)


def params(f):
    return ", ".join("%s%s: %s" % ("&" if n in f["ref"] else "", n, tname(t))
                     for n, t in f["params"])


def watch(ty, p, t, out):
    """statements that display everything reachable at a path"""
    if t in ("int", "bool"):
        out.append('print.tell(print.format("%s %%0", %s))' % (rp(p), rp(p)))
    elif t in TN:
        out += ["acc = 0", "for z_%s in %s:" % ("_".join(p), rp(p)),
                "    acc += z_%s.bit" % "_".join(p),
                'print.tell(print.format("%s %%0", acc))' % rp(p)]
    elif t in ty.t:
        for f, u in ty.fields(t).items():
            watch(ty, p + [f], u, out)
    else:
        for f, u in ty.fields(t).items():
            watch(ty, p + [f], u, out)


def render(p):
    ty = Types(p["structs"], {t["name"]: t for t in p["temps"]})
    out = defs = []
    for n in p["order"]:
        if n in ty.s:
            s = ty.s[n]
            out.append("struct %s%s:" % (n, " extends " + s["base"]
                                         if s["base"] else ""))
            out += ["    %s: %s" % (f, tname(t)) for f, t in s["fields"]] or \
                ["    pass"]
            continue
        t = ty.t[n]
        out.append("entity %s%s:" % (n, " extends A" if n == "B" else ""))
        out += ["    %s: %s" % (f, tname(u)) for f, u in t["fields"]]
        for m in t["methods"]:
            out.append("    %s%sdef %s(%s)%s:" % (
                m["qual"] + " " if m["qual"] else "",
                "inline " if m["inline"] else "", m["name"], params(m),
                " -> " + tname(m["ret"]) if m["ret"] else ""))
            rb(m["body"], "        ", out)
    out = ["nid := 0", "acc := 0"]
    rb(p["pre"], "", out)
    for f in p["funcs"]:
        out.append("%sdef %s(%s)%s:" % (
            "inline " if f["inline"] else "", f["name"], params(f),
            " -> " + tname(f["ret"]) if f["ret"] else ""))
        rb(f["body"], "    ", out)
    for t in p["tasks"]:
        a = ", ".join([t["func"]] + [re_(x) for x in t["args"]])
        if t["every"]:
            a = ", ".join([t["func"], str(t["every"])] +
                          [re_(x) for x in t["args"]])
        out.append("schedule.register_loop(%s)" % a if t["every"] else
                   "const %s = schedule.Task(%s)" % (t["name"], a))
    return defs, out, ty


def source(p, split=0):
    """split: in how many more modules the declarations are"""
    defs, lib, ty = render(p)
    use = ["import print", "import schedule"]
    files = {}
    if split == 2:
        files["defs.aca"] = "\n".join(use + defs) + "\n"
        defs = ["from defs import *"]
    if split:
        files["lib.aca"] = "\n".join(use + defs + lib) + "\n"
        out = use + ["from lib import *"]
        if split == 2:
            out += defs
    else:
        out = use + defs + lib
    rb(p["body"], "", out)
    w = []
    for n, t in p["watch"]:
        watch(ty, [n], t, w)
    out.append("interface show:")
    out += ["    " + x for x in w] or ["    pass"]
    for i, b in enumerate(p["ifs"]):
        # an interface without commands may be left out
        out += ["interface i%d:" % i, "    acc = 0"]
        rb(b, "    ", out)
    files["main.aca"] = "\n".join(out) + "\n"
    return files


# --- reference --------------------------------------------------------------

class Ent:
    def __init__(self, t, i):
        self.t, self.i, self.f = t, i, {}


class Model:
    def __init__(self, p):
        self.p = p
        self.ty = Types(p["structs"], {t["name"]: t for t in p["temps"]})
        self.funcs = {f["name"]: f for f in p["funcs"]}
        self.out = []
        self.ents = []
        self.steps = 0
        self.writes = self.called = self.ticked = 0
        self.kinds = set()

    def start(self):
        self.glob = {"nid": [0, "int"]}
        self.block(self.p["pre"], [self.glob])
        self.timer = {t["name"]: -1 if t["every"] is None else 0
                      for t in self.p["tasks"]}
        self.block(self.p["body"], [self.glob])

    def tick(self):
        for t in self.p["tasks"]:
            n, k = t["name"], self.timer[t["name"]]
            if k == 0 or t["every"] and k < 0:
                self.ticked += 1
                self.call(self.funcs[t["func"]], t["args"], [self.glob], {})
                if t["every"]:
                    self.timer[n] = t["every"]
            if t["every"] or self.timer[n] >= 0:
                self.timer[n] -= 1

    # a variable is a list [value, declared type]
    def lookup(self, n, env):
        for e in env:
            if n in e:
                return e[n]
        raise KeyError(n)

    def get(self, p, env):
        v = self.lookup(p[0], env)[0]
        for f in p[1:]:
            v = (v.f if isinstance(v, Ent) else v)[f]
        return v

    def shape(self, v, t):
        """the value a variable of type t holds after `= v`"""
        if isinstance(v, dict):
            return {f: self.shape(v[f], u)
                    for f, u in self.ty.fields(t).items()}
        return set(v) if isinstance(v, set) else v

    def put(self, p, v, env):
        self.writes += 1
        self.kinds.add("S" if isinstance(v, dict) else "g" if
                       isinstance(v, set) else "e" if isinstance(v, Ent)
                       else "i")
        if len(p) == 1:
            c = self.lookup(p[0], env)
            c[0] = self.shape(v, c[1])
            return
        o = self.get(p[:-1], env)
        t = self.ptype(p, env)
        (o.f if isinstance(o, Ent) else o)[p[-1]] = self.shape(v, t)

    def ptype(self, p, env):
        t = self.lookup(p[0], env)[1]
        for f in p[1:]:
            t = self.ty.fields(t)[f]
        return t

    def ev(self, e, env):
        k = e[0]
        if k in ("n", "b"):
            return e[1]
        if k == "p":
            return self.get(e[1], env)
        if k == "bin":
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            return wrap(a + b if e[1] == "+" else a - b if e[1] == "-" else
                        a * b)
        if k == "cmp":
            a, b = self.ev(e[2], env), self.ev(e[3], env)
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b,
                    ">": a > b, ">=": a >= b}[e[1]]
        if k in ("and", "or"):
            a, b = self.ev(e[1], env), self.ev(e[2], env)
            return (a and b) if k == "and" else (a or b)
        if k == "not":
            return not self.ev(e[1], env)
        if k == "int":
            return int(self.ev(e[1], env))
        if k == "size":
            return len(self.get(e[1], env))
        if k == "empty":
            return not self.get(e[1], env)
        if k == "has":
            return self.ev(e[2], env) in self.get(e[1], env)
        if k == "mk":
            fs = self.ty.fields(e[1])
            return {n: self.shape(self.ev(x, env), fs[n]) for n, x in e[2]}
        if k == "new":
            return set()
        if k == "copy":
            return set(self.get(e[1], env))
        if k == "chain":
            return self.gms(set(self.ev(e[1], env)), e[2], env)
        if k == "call":
            return self.call(self.funcs[e[1]], e[2], env, {})
        me = self.get(e[1], env)
        st = self.ptype(e[1], env)
        m = self.ty.methods(st)[e[2]]
        if m["qual"]:
            m = self.ty.methods(me.t)[e[2]]
        return self.call(m, e[3], env, {"self": [me, me.t]})

    def call(self, f, args, env, loc):
        self.steps += 1
        if any(t not in ("int", "bool", None)
               for t in [f["ret"]] + [t for _, t in f["params"]]):
            self.called += 1
        for (n, t), a in zip(f["params"], args):
            if n in f["ref"]:
                loc[n] = Ref(self, a[1], env)
            else:
                loc[n] = [self.shape(self.ev(a, env), t), t]
        r = self.block(f["body"], [loc, self.glob])
        if r is not None and f["ret"]:
            r = self.shape(r, f["ret"])
        return r

    def gms(self, g, ms, env):
        for m in ms:
            x = self.get(m[1], env) if len(m) > 1 else None
            if m[0] == "add":
                g = g | {x}
            elif m[0] == "remove":
                g = g - {x}
            elif m[0] == "extend":
                g = g | x
            elif m[0] == "subtract":
                g = g - x
            elif m[0] == "intersect":
                g = g & x
            else:
                g = set()
        return g

    def block(self, b, env):
        r = None
        for s in b:
            x = self.st(s, env)
            if s[0] == "result":
                r = x
        return r

    def st(self, s, env):
        self.steps += 1
        if self.steps > 2500:
            raise Skip("long")
        k = s[0]
        if k == "decl":
            v = self.ev(s[3], env)
            t = s[2] or self.stype(s[3], env)
            env[0][s[1]] = [self.shape(v, t), t]
        elif k == "set":
            self.put(s[1], self.ev(s[2], env), env)
        elif k == "swap":
            a, b = self.get(s[1], env), self.get(s[2], env)
            a, b = self.shape(a, self.ptype(s[1], env)), \
                self.shape(b, self.ptype(s[2], env))
            self.put(s[1], b, env)
            self.put(s[2], a, env)
        elif k == "aug":
            a, b = self.get(s[2], env), self.ev(s[3], env)
            self.put(s[2], wrap(a + b if s[1] == "+" else a - b
                                if s[1] == "-" else a * b), env)
        elif k == "gaug":
            a, b = self.get(s[1], env), self.get(s[3], env)
            self.put(s[1], a | b if s[2] == "+" else a - b, env)
        elif k == "gdo":
            for m in s[2]:
                self.put(s[1], self.gms(self.get(s[1], env), [m], env), env)
        elif k == "if":
            if self.ev(s[1], env):
                self.block(s[2], env)
            elif s[3]:
                self.block(s[3], env)
        elif k == "while":
            c = env[0][s[1]] = [0, "int"]
            while c[0] < s[2]:
                self.block(s[3], env)
                c[0] += 1
        elif k == "for":
            t = self.ptype(s[2], env)[1]
            for e in sorted(self.get(s[2], env), key=lambda x: x.i):
                env[0][s[1]] = [e, t]
                self.block(s[3], env)
        elif k == "single":
            g = self.get(s[3], env)
            if len(g) == 1:
                env[0][s[1]] = [min(g, key=lambda x: x.i), s[2]]
                self.block(s[4], env)
        elif k == "say":
            self.out.append(" ".join(str(int(self.ev(x, env)))
                                     for x in s[1]))
        elif k == "ex":
            self.ev(s[1], env)
        elif k == "result":
            return self.ev(s[1], env)
        elif k == "after":
            self.timer[s[1]] = s[2]
        elif k == "spawn":
            e = Ent(s[2], len(self.ents))
            self.ents.append(e)
            env[0][s[1]] = [e, s[2]]
            nid = self.glob["nid"]
            e.f["id"] = nid[0]
            e.f["bit"] = nid[0] ** 3 + 1
            nid[0] += 1
            fs = self.ty.fields(s[2])
            for f, x in s[3]:
                e.f[f] = self.shape(self.ev(x, env), fs[f])

    def stype(self, e, env):
        if e[0] == "p":
            return self.ptype(e[1], env)
        if e[0] == "mk":
            return e[1]
        if e[0] == "new":
            return "g" + e[1]
        return {"bin": "int", "cmp": "bool", "size": "int"}[e[0]]

    def show(self):
        for n, t in self.p["watch"]:
            self.shown([n], self.lookup(n, [self.glob])[0], t)

    def shown(self, p, v, t):
        if t in ("int", "bool"):
            self.out.append("%s %d" % (rp(p), v))
        elif t in TN:
            self.out.append("%s %d" % (rp(p), sum(e.f["bit"] for e in v)))
        else:
            for f, u in self.ty.fields(t).items():
                self.shown(p + [f], (v.f if isinstance(v, Ent) else v)[f], u)


class Ref:
    """a reference parameter: another name of the caller's variable"""

    def __init__(self, m, p, env):
        self.m, self.p, self.env = m, p, env

    def __getitem__(self, i):
        return self.m.get(self.p, self.env) if i == 0 else \
            self.m.ptype(self.p, self.env)

    def __setitem__(self, i, v):
        self.m.put(self.p, v, self.env)
