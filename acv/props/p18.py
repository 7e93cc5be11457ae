"""P18: entity groups and filters denote the sets they describe."""
import math

from ..core import Check, Skip, Violation, need
from ..h import build, execute, same, try_build
from ..mcvm import VM
from .. import static

RULE = ("at least two selections are made, a selection keeps some but not "
        "all entities, and at least three groups are observed; or a "
        "call that must be refused")
ASSUMPTIONS = [
    "no two entities are at the same distance at the limit of a nearest or "
    "farthest selection",
    "level, game mode and permission criteria concern players only",
    "entity variables are used only while they refer to an entity",
    "the entities of a group are visited in the game's order; the body "
    "works on the members the group had when the loop began",
]

TYPES = ["player", "pig", "cow", "armor_stand", "arrow"]
NAMES = ["ann", "bob", "foo bar", "x=1", "o'k", ""]
TAGS = ["t1", "t 2", "red", "a=b"]
OBJS = ["ob1", "ob 2"]
ITEMS = ["apple", "bow", "stick"]
SLOTS = ["slot.hotbar", "slot.weapon.mainhand", "slot.armor"]
PERMS = ["camera", "movement"]
MODES = ["survival", "creative", "adventure"]
TEMPS = ["T0", "T1", "T3"]     # T3 extends T1 extends T0; T2 is unrelated
SUB = {("T0", "T0"), ("T1", "T1"), ("T1", "T0"), ("T2", "T2"), ("X", "X"),
       ("T3", "T3"), ("T3", "T1"), ("T3", "T0")}


# --- filters ----------------------------------------------------------------

def quart(d, lo=-24, hi=24):
    return d.int(lo, hi) / 4.0


def g_pos(d, ents):
    """ents: names of entity variables"""
    if ents and d.flip(45):
        return ["ent", d.pick(ents)]
    if d.flip(30):
        return ["int", d.int(-5, 5), d.int(-3, 3), d.int(-5, 5)]
    return ["abs", quart(d) + 0.125, quart(d, -8, 8), quart(d) + 0.0625]


def g_range(d):
    k = d.int(0, 5)
    a = d.int(-1, 4)
    if k == 0:
        return a
    if k == 1:
        return str(a)
    if k == 2:
        return "%d.." % a
    if k == 3:
        return "..%d" % a
    if k == 4:
        return "%d..%d" % (a, a + d.int(0, 3))
    return "!" + d.pick(["%d", "%d..", "..%d"]) % a


def g_filter(d, ents):
    out = []
    kind = None      # what the filter is known to select: random() needs it
    for _ in range(d.pick([0, 1, 1, 2, 2, 3, 4])):
        k = d.pick(["players", "type", "type", "ntype", "tag", "tag", "ntag",
                    "near", "near", "near", "far", "dist", "dist", "inside",
                    "vert", "horz", "name", "nname", "scores", "scores",
                    "level", "mode", "nmode", "item", "item", "random",
                    "random", "perm", "nperm"])
        if k == "players":
            kind = "player"
            out.append([k])
        elif k == "type":
            kind = d.pick(TYPES[:4])
            out.append([k, kind])
        elif k == "ntype":
            out.append([k, d.sample(TYPES, d.int(1, 2))])
        elif k in ("tag", "ntag"):
            out.append([k, d.sample(TAGS, d.pick([1, 1, 2]))])
        elif k in ("near", "far"):
            out.append([k, g_pos(d, ents), d.pick([None, 1, 2, 3, 4])])
        elif k == "dist":
            a = d.pick([None, d.int(0, 20) / 4.0])
            b = d.pick([None, d.int(0, 40) / 4.0])
            out.append([k, g_pos(d, ents), a, b])
        elif k == "inside":
            out.append([k, g_pos(d, ents)] + [
                d.pick([None, quart(d)]) for _ in range(3)])
        elif k == "vert":
            out.append([k, d.pick([None, quart(d, -90, 90)]),
                        d.pick([None, quart(d, -90, 90)])])
        elif k == "horz":
            out.append([k, d.pick([None, quart(d, -90, 90)]),
                        d.pick([None, quart(d, -90, 90)])])
        elif k == "name":
            out.append([k, d.pick(NAMES[:-1])])
        elif k == "nname":
            out.append([k, d.sample(NAMES[:-1], d.int(1, 2))])
        elif k == "scores":
            out.append([k, d.pick(OBJS), g_range(d)])
        elif k == "level":
            kind = "player"
            out.append([k, d.pick([None, d.int(0, 6)]),
                        d.pick([None, d.int(2, 9)])])
            if out[-1][1:] == [None, None]:
                out[-1][1] = 1
        elif k == "mode":
            kind = "player"
            out.append([k, d.pick(MODES)])
        elif k == "nmode":
            # says something about players only
            kind = "player"
            out.append(["players"])
            out.append([k, d.sample(MODES, d.int(1, 2))])
        elif k in ("perm", "nperm"):
            if any(f[0] in ("perm", "nperm") for f in out):
                continue
            kind = "player"
            out.append([k, d.sample(PERMS, d.int(1, 2))])
        elif k == "item":
            slot = d.pick([None, d.pick(SLOTS)])
            out.append([k, d.pick(ITEMS), d.pick([None, g_range(d)]),
                        d.pick([None, 0, 1, None]), slot,
                        g_range(d) if slot and d.flip(50) else None])
        else:
            t = None
            if kind is None:
                kind = t = d.pick(TYPES[:4])
            elif d.flip(20):
                t = kind
            out.append([k, t, d.pick([None, 1, 2, 3])])
    return out


def q(s):
    return '"%s"' % s


def qs(xs):
    return ", ".join(map(q, xs))


def rpos(p):
    if p[0] == "ent":
        return "Pos(%s)" % p[1]
    return "Pos(%s, %s, %s)" % tuple(p[1:])


def kw(*pairs):
    return "".join(", %s=%s" % (k, v) for k, v in pairs if v is not None)


def rr(r):
    return None if r is None else q(r) if isinstance(r, str) else str(r)


def rfilter(f):
    out = "Enfilter()"
    for c in f:
        k = c[0]
        if k == "players":
            t = "all_players("
        elif k == "type":
            t = "is_type(" + q(c[1])
        elif k == "ntype":
            t = "is_not_type(" + qs(c[1])
        elif k == "tag":
            t = "has_tag(" + qs(c[1])
        elif k == "ntag":
            t = "has_no_tag(" + qs(c[1])
        elif k in ("near", "far"):
            t = ("nearest_from(" if k == "near" else "farthest_from(") + \
                rpos(c[1]) + kw(("limit", c[2]))
        elif k == "dist":
            t = "distance_from(" + rpos(c[1]) + kw(
                ("min", c[2]), ("max", c[3]))
        elif k == "inside":
            t = "inside(" + rpos(c[1]) + kw(
                ("dx", c[2]), ("dy", c[3]), ("dz", c[4]))
        elif k in ("vert", "horz"):
            t = {"vert": "rot_vertical(", "horz": "rot_horizontal("}[k] + kw(
                ("min", c[1]), ("max", c[2]))[2:]
        elif k == "name":
            t = "is_name(" + q(c[1])
        elif k == "nname":
            t = "is_not_name(" + qs(c[1])
        elif k == "scores":
            t = "scores(%s, %s" % (q(c[1]), rr(c[2]))
        elif k == "level":
            t = "level(" + kw(("min", c[1]), ("max", c[2]))[2:]
        elif k == "mode":
            t = "is_game_mode(" + q(c[1])
        elif k == "nmode":
            t = "is_not_game_mode(" + qs(c[1])
        elif k == "perm":
            t = "has_permission(" + qs(c[1])
        elif k == "nperm":
            t = "has_no_permission(" + qs(c[1])
        elif k == "item":
            t = "has_item(" + q(c[1]) + kw(
                ("quantity", rr(c[2])), ("data", c[3]),
                ("slot_type", q(c[4]) if c[4] else None),
                ("slot_num", rr(c[5])))
        else:
            t = "random(" + ", ".join(
                x for x in (q(c[1]) if c[1] else "",
                            "limit=%d" % c[2] if c[2] else "") if x)
        out += "." + t + ")"
    return out


# --- programs ---------------------------------------------------------------
#
# groups: name -> template ("X" for ExternEngroup)
# group expressions: ["g", name] ["new", T] ["copy", G] ["m", G, meth, arg]
#                    ["call", fn, args] ["res", name, T]

class Gen:
    def __init__(self, d):
        self.d = d
        self.groups = {}
        self.ents = {}
        self.consts = {}
        self.ints = []
        self.funcs = []
        self.nv = 0
        self.budget = d.pick([4, 8, 12, 18])
        self.loops = 0
        self.infn = False
        self.nobs = 0

    def fresh(self, p):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    def filt(self):
        d = self.d
        cs = [n for n, es in self.consts.items()]
        if cs and d.flip(40):
            return ["c", d.pick(sorted(cs))]
        return ["f", g_filter(d, sorted(self.ents))]

    def gname(self, ts=None):
        c = [n for n, t in self.groups.items() if ts is None or t in ts]
        return self.d.pick(sorted(c)) if c else None

    def sub(self, t):
        """group variables that are accepted where Engroup[t] is needed"""
        return self.gname([a for a, b in SUB if b == t])

    def eof(self, t):
        c = [e for e, u in self.ents.items() if (u, t) in SUB]
        return self.d.pick(sorted(c)) if c else None

    def method(self, t):
        """a method call applied to a group of template t"""
        d = self.d
        k = d.pick(["select", "select", "select", "drop", "filter", "filter",
                    "extend", "subtract", "intersect", "clear", "add",
                    "remove"])
        if k in ("select", "drop", "filter"):
            return [k, self.filt()]
        if k in ("extend", "subtract", "intersect"):
            o = self.sub(t)
            return [k, o] if o else ["select", self.filt()]
        if k == "clear":
            return [k]
        e = self.eof(t)
        if e is None:
            return ["select", self.filt()]
        e2 = self.eof(t)
        return [k, [e] if d.flip(60) else [e, e2]]

    def gx(self, t):
        """expression of type Engroup[t] or a subtemplate -> (expr, type)"""
        d = self.d
        n = self.sub(t)
        k = d.int(0, 9)
        if k <= 2 or n is None:
            e = ["new", t]
            u = t
        elif k <= 5:
            e, u = ["g", n], self.groups[n]
        elif k <= 7 and not self.infn:
            fs = [f for f in self.funcs if (f["ret"], t) in SUB]
            if fs:
                f = d.pick(fs)
                c = self.call(f)
                if c:
                    return c, f["ret"]
            e, u = ["copy", ["g", n]], self.groups[n]
        else:
            e, u = ["copy", ["g", n]], self.groups[n]
        if e[0] != "g":
            for _ in range(d.pick([0, 0, 1, 1, 2])):
                e = ["m", e] + self.method(u)
        return e, u

    def call(self, f):
        args = []
        for n, t in f["params"]:
            if f["inline"] and t != "int":
                # inline parameters have the type of their argument
                c = [x for x, u in (self.ents if t[0] == "e" else
                                    self.groups).items()
                     if u == (t[1:] if t[0] == "e" else t)]
                if not c:
                    return None
                args.append([t[0] if t[0] == "e" else "g",
                             self.d.pick(sorted(c))])
            elif t == "int":
                args.append(["i", self.ix(1)])
            elif t.startswith("e"):
                e = self.eof(t[1:])
                if e is None:
                    return None
                args.append(["e", e])
            else:
                a = self.sub(t)
                if a is None:
                    return None
                args.append(["g", a])
        return ["call", f["name"], args]

    def ix(self, dep=2):
        d = self.d
        k = d.int(0, 6)
        if k <= 1 or dep <= 0:
            n = self.gname()
            return ["size", n] if n and d.flip(80) else ["n", d.int(-2, 5)]
        if k == 2 and self.ints:
            return ["iv", d.pick(self.ints)]
        if k == 3:
            return ["n", d.int(-2, 9)]
        return ["op", d.pick("+-*"), self.ix(dep - 1), self.ix(dep - 1)]

    def bx(self, dep=2):
        d = self.d
        k = d.int(0, 7)
        n = self.gname()
        if n and k <= 2:
            return ["empty", n]
        if k <= 4 and self.ents:
            e = d.pick(sorted(self.ents))
            g = self.gname([b for a, b in SUB if a == self.ents[e]])
            if g:
                return ["has", g, e]
        if k == 5 and dep:
            return ["not", self.bx(dep - 1)]
        if k == 6 and dep:
            return [d.pick(["and", "or"]), self.bx(dep - 1),
                    self.bx(dep - 1)]
        return ["cmp", d.pick(["==", "!=", "<", "<=", ">", ">="]),
                self.ix(1), self.ix(1)]

    def block(self, n, new=True):
        g, e, i, c = (dict(self.groups), dict(self.ents), list(self.ints),
                      dict(self.consts))
        out = [s for s in (self.stmt() for _ in range(n)) if s]
        self.groups, self.ents, self.ints, self.consts = g, e, i, c
        return out or [["pass"]]

    def stmt(self):
        d = self.d
        self.budget -= 1
        k = d.int(0, 19)
        n = self.gname()
        if n is None or k <= 1:
            t = d.pick(["T0", "T0", "T1", "X", "T2", "T1", "T3"])
            e, u = self.gx(t)
            v = self.fresh("g")
            # a declared type or an inferred one
            if d.flip(30) or u != t:
                self.groups[v] = t
                return ["declt", v, t, e]
            self.groups[v] = u
            return ["decl", v, e]
        t = self.groups[n]
        if k <= 6:
            m = [self.method(t) for _ in range(d.pick([1, 1, 1, 2]))]
            return ["do", n, m]
        if k == 7:
            e, u = self.gx(t)
            return ["set", n, e]
        if k == 8:
            o = self.gname([t])
            return ["swap", n, o]
        if k == 9:
            o = self.sub(t)
            return ["aug", n, d.pick("+-"), o] if o else None
        if k == 10:
            return self.obs()
        if k == 11:
            v = self.fresh("i")
            s = ["int", v, self.ix()]
            self.ints.append(v)
            return s
        if k == 12:
            if self.ints:
                return ["say", [["iv", v] for v in self.ints[-2:]] +
                        [self.ix(1)]]
            return ["say", [self.ix(1)]]
        if k == 13 and self.budget > 0:
            b = self.bx()
            return ["if", b, self.block(d.int(1, 2)),
                    self.block(d.int(1, 2)) if d.flip(40) else None]
        if k == 14 and self.budget > 0 and self.loops < 2:
            # to_single: one member only
            v = self.fresh("e")
            save = dict(self.ents)
            self.ents[v] = t
            b = self.block(d.int(1, 3))
            self.ents = save
            return ["single", v, n, d.flip(), b]
        if k in (15, 16) and self.budget > 0 and self.loops < 2:
            v = self.fresh("e")
            save = dict(self.ents)
            self.ents[v] = t
            self.loops += 1
            b = self.block(d.int(1, 4))
            if self.loops == 1 and d.flip(35):
                # a loop within, then the variable of this one again
                w = self.fresh("e")
                n2 = self.gname([t])
                self.loops += 1
                inner = dict(self.ents)
                self.ents[w] = t
                b.append(["for", w, n2 or n, self.block(d.int(1, 2))])
                self.ents = inner
                self.loops -= 1
                b.append(["tag", v, d.pick(TAGS), d.pick(["add", "remove"])]
                         if d.flip() else
                         ["score", v, d.pick(OBJS), d.int(0, 4)])
            self.loops -= 1
            self.ents = save
            return ["for", v, n, b]
        if k == 17 and self.loops == 0 and not self.infn:
            return ["drain", n, d.pick(["near", "far", "random"]),
                    g_pos(d, []), d.int(1, 3), self.fresh("i")]
        if k == 18 and self.ents:
            e = d.pick(sorted(self.ents))
            if d.flip():
                return ["tag", e, d.pick(TAGS), d.pick(["add", "remove"])]
            return ["score", e, d.pick(OBJS), d.int(0, 4)]
        if k == 19:
            es = sorted(self.ents)
            if not self.infn and self.loops == 0 and d.flip(30):
                v = self.fresh("F")
                s = ["const", v, g_filter(d, [])]
                self.consts[v] = []
                return s
            if len(es) >= 1 and d.flip(50):
                v = self.fresh("e")
                e = d.pick(es)
                self.ents[v] = self.ents[e]
                return ["edecl", v, e]
            if len(es) >= 2:
                a, b = d.sample(es, 2)
                if self.ents[a] == self.ents[b] and d.flip():
                    return ["swap", a, b]
                if (self.ents[b], self.ents[a]) in SUB:
                    return ["set", a, ["g", b]]
            if self.funcs and not self.infn:
                c = self.call(d.pick(self.funcs))
                if c:
                    return ["ex", c]
        return ["do", n, [self.method(t)]]

    def obs(self):
        self.nobs += 1
        return ["obs", self.gname(), "s%d" % self.nobs]

    def func(self):
        d = self.d
        f = {"name": self.fresh("f"), "inline": d.flip(30),
             "params": [], "consts": []}
        for _ in range(d.int(1, 3)):
            k = d.int(0, 5)
            if k <= 2:
                f["params"].append([self.fresh("p"), d.pick(TEMPS)])
            elif k <= 4:
                f["params"].append([self.fresh("p"),
                                    "e" + d.pick(TEMPS)])
            else:
                f["params"].append([self.fresh("p"), "int"])
        save = (self.groups, self.ents, self.ints, self.budget)
        self.groups = {n: t for n, t in self.groups.items()}
        self.ents = {}
        self.ints = []
        for n, t in f["params"]:
            if t == "int":
                self.ints.append(n)
            elif t[0] == "e":
                self.ents[n] = t[1:]
            else:
                self.groups[n] = t
        self.infn = True
        self.budget = 5
        body = []
        for _ in range(d.int(1, 3)):
            s = self.stmt()
            if s:
                body.append(s)
        f["ret"] = t = d.pick(TEMPS)
        e, u = self.gx(t)
        if f["inline"]:
            f["ret"] = u
        f["body"] = body
        f["res"] = e
        # the result is set in a loop: once for every member
        f["loop"] = None
        if d.flip(25) and u in TEMPS:
            f["loop"] = self.gname()
            f["first"] = ["new", u] if d.flip(50) else None
        self.infn = False
        self.groups, self.ents, self.ints, self.budget = save
        return f

    def program(self):
        d = self.d
        pre = []
        for t in d.sample(["T0", "T1", "X", "T0"], d.int(1, 3)):
            v = self.fresh("g")
            self.groups[v] = t
            pre.append(["decl", v, ["new", t]])
        if d.flip(60):
            # entities of the world that are given a template
            temps = {y: d.pick(["T0", "T1", "T2", "T3"])
                     for y in TYPES[:4]}
            for y in d.sample(TYPES[:4], d.int(1, 3)):
                x, v = self.fresh("g"), self.fresh("g")
                self.groups[x], self.groups[v] = "X", temps[y]
                f = [["players"] if y == "player" else ["type", y]]
                if d.flip(25):
                    f.append(["tag", [d.pick(TAGS)]])
                pre += [["decl", x, ["new", "X"]],
                        ["do", x, [["select", ["f", f]]]],
                        ["decl", v, ["res", x, temps[y]]]]
                for t in sorted(b for a, b in SUB if a == temps[y]):
                    if d.flip(40):
                        w = self.fresh("g")
                        self.groups[w] = t
                        pre.append(["decl", w, ["m", ["new", t], "extend",
                                                v]])
        for _ in range(d.int(0, 2)):
            v = self.fresh("F")
            pre.append(["const", v, g_filter(d, [])])
            self.consts[v] = []
        fs = []
        for _ in range(d.int(0, 2)):
            f = self.func()
            fs.append(f)
            self.funcs.append(f)
        body = []
        while self.budget > 0:
            s = self.stmt()
            if s:
                body.append(s)
        for n in sorted(self.groups):
            self.nobs += 1
            body.append(["obs", n, "s%d" % self.nobs])
        return {"pre": pre, "funcs": fs, "body": body}


def g_ents(d):
    out = []
    for i in range(d.pick([0, 1, 3, 5, 8, 10])):
        t = d.pick(TYPES)
        e = {"type": t, "name": d.pick(NAMES),
             "pos": [quart(d) + 0.01 * i, quart(d, -8, 8), quart(d) +
                     0.003 * i],
             "rot": [quart(d, -90, 90), quart(d, -90, 90)],
             "tags": d.sample(TAGS, d.int(0, 2)),
             "scores": [[o, d.int(-1, 5)] for o in OBJS if d.flip(60)],
             "items": [[d.pick(ITEMS), d.int(0, 1), d.int(1, 4),
                        d.pick(SLOTS), d.int(0, 3)]
                       for _ in range(d.pick([0, 0, 1, 2]))],
             "level": 0, "mode": "survival", "perms": []}
        if t == "player":
            e["name"] = "pl%d" % i if d.flip(60) else e["name"] or "z"
            e["level"] = d.int(0, 9)
            e["mode"] = d.pick(MODES)
            e["perms"] = d.sample(PERMS, d.int(0, 2))
        out.append(e)
    return out


# --- rendering --------------------------------------------------------------

def ty(t):
    return "ExternEngroup" if t == "X" else "Engroup[%s]" % t


def rflt(f):
    return f[1] if f[0] == "c" else rfilter(f[1])


def rmeth(m):
    if m[0] in ("select", "drop", "filter"):
        return ".%s(%s)" % (m[0], rflt(m[1]))
    if m[0] == "clear":
        return ".clear()"
    if m[0] in ("add", "remove"):
        return ".%s(%s)" % (m[0], ", ".join(m[1]))
    return ".%s(%s)" % (m[0], m[1])


def rg(e):
    if e[0] == "g":
        return e[1]
    if e[0] == "new":
        return ty(e[1]) + "()"
    if e[0] == "copy":
        return rg(e[1]) + ".copy()"
    if e[0] == "m":
        return rg(e[1]) + rmeth(e[2:])
    if e[0] == "res":
        return "%s.resolve(%s)" % (e[1], e[2])
    return "%s(%s)" % (e[1], ", ".join(
        ri(a[1]) if a[0] == "i" else a[1] for a in e[2]))


def ri(e):
    if e[0] == "n":
        return str(e[1])
    if e[0] == "iv":
        return e[1]
    if e[0] == "size":
        return e[1] + ".size()"
    return "(%s %s %s)" % (ri(e[2]), e[1], ri(e[3]))


def rb(e):
    if e[0] == "empty":
        return e[1] + ".is_empty()"
    if e[0] == "has":
        return "%s.has(%s)" % (e[1], e[2])
    if e[0] == "not":
        return "(not %s)" % rb(e[1])
    if e[0] in ("and", "or"):
        return "(%s %s %s)" % (rb(e[1]), e[0], rb(e[2]))
    return "(%s %s %s)" % (ri(e[2]), e[1], ri(e[3]))


def render(p):
    out = ["import print", "entity T0:", "    pass",
           "entity T1 extends T0:", "    pass", "entity T2:", "    pass",
           "entity T3 extends T1:", "    pass"]

    def blk(b, i):
        for s in b:
            st(s, i)

    def st(s, i):
        I = "    " * i
        k = s[0]
        if k == "decl":
            out.append(I + "%s := %s" % (s[1], rg(s[2])))
        elif k == "declt":
            out.append(I + "%s: %s = %s" % (s[1], ty(s[2]), rg(s[3])))
        elif k == "const":
            out.append(I + "const %s = %s" % (s[1], rfilter(s[2])))
        elif k == "do":
            out.append(I + s[1] + "".join(map(rmeth, s[2])))
        elif k == "set":
            out.append(I + "%s = %s" % (s[1], rg(s[2])))
        elif k == "swap":
            out.append(I + "swap(%s, %s)" % (s[1], s[2]))
        elif k == "aug":
            out.append(I + "%s %s= %s" % (s[1], s[2], s[3]))
        elif k == "obs":
            out.append(I + "for o_%s in %s:" % (s[2], s[1]))
            out.append(I + "    /tag ${o_%s} add %s" % (s[2], s[2]))
        elif k == "int":
            out.append(I + "%s := %s" % (s[1], "0 + " + ri(s[2])
                                         if s[2][0] == "n" else ri(s[2])))
        elif k == "say":
            out.append(I + 'print.tell(print.format("%s", %s))' % (
                " ".join("%" + str(j) for j in range(len(s[1]))),
                ", ".join(map(ri, s[1]))))
        elif k == "if":
            out.append(I + "if %s:" % rb(s[1]))
            blk(s[2], i + 1)
            if s[3]:
                out.append(I + "else:")
                blk(s[3], i + 1)
        elif k == "single":
            out.append(I + "if %s.size() == 1:" % s[2])
            out.append(I + "    %s := %s.to_single()" % (s[1], s[2]))
            blk(s[4], i + 1)
        elif k == "for":
            out.append(I + "for %s in %s:" % (s[1], s[2]))
            blk(s[3], i + 1)
        elif k == "drain":
            g = s[1]
            out.append(I + "%s := 0" % s[5])
            out.append(I + "while not %s.is_empty():" % g)
            if s[2] == "random":
                # one member each time, whichever it is
                out.append(I + "    %s.drop(Enfilter().nearest_from(%s, 1))"
                           % (g, rpos(s[3])))
            else:
                out.append(I + "    %s.drop(%s)" % (g, rfilter(
                    [[s[2], s[3], s[4]]])))
            out.append(I + "    %s += 1" % s[5])
            out.append(I + 'print.tell(print.format("%%0", %s))' % s[5])
        elif k == "tag":
            out.append(I + "/tag ${%s} %s %s" % (s[1], s[3], mcq(s[2])))
        elif k == "score":
            out.append(I + "/scoreboard players set ${%s} %s %d"
                       % (s[1], mcq(s[2]), s[3]))
        elif k == "edecl":
            out.append(I + "%s := %s" % (s[1], s[2]))
        elif k == "ex":
            out.append(I + rg(s[1]))
        elif k == "pass":
            out.append(I + "pass")
        else:
            raise AssertionError(s)
    blk(p["pre"], 0)
    for f in p["funcs"]:
        out.append("%sdef %s(%s) -> %s:" % (
            "inline " if f["inline"] else "", f["name"], ", ".join(
                "%s: %s" % (n, t if t == "int" else t[1:] if t[0] == "e"
                            else ty(t)) for n, t in f["params"]),
            ty(f["ret"])))
        blk(f["body"], 1)
        if f.get("loop"):
            if f["first"]:
                out.append("    result " + rg(f["first"]))
            out.append("    for m_%s in %s:" % (f["name"], f["loop"]))
            out.append("        result " + rg(f["res"]))
        else:
            out.append("    result " + rg(f["res"]))
    blk(p["body"], 0)
    return "\n".join(out) + "\n"


def mcq(s):
    return s if s.replace("_", "").isalnum() else '"%s"' % s


# --- model ------------------------------------------------------------------

def rng_of(r):
    """(inverted, low, high)"""
    if isinstance(r, int):
        return False, r, r
    inv = r.startswith("!")
    if inv:
        r = r[1:]
    if ".." in r:
        a, b = r.split("..")
        return inv, int(a) if a else -10 ** 9, int(b) if b else 10 ** 9
    return inv, int(r), int(r)


def within(r, v):
    inv, lo, hi = rng_of(r)
    return (lo <= v <= hi) != inv


class Model:
    def __init__(self, ents, log):
        self.e = [dict(e, tags=set(e["tags"]), scores=dict(
            (o, v) for o, v in e["scores"])) for e in ents]
        self.log = list(log)
        self.out = []
        self.steps = 0
        self.sel = 0
        self.partial = 0
        self.seen = 0

    def pos(self, p, env):
        if p[0] == "ent":
            return self.e[env[p[1]]]["pos"]
        if p[0] == "int":
            return [p[1] + 0.5, float(p[2]), p[3] + 0.5]
        return p[1:]

    def apply(self, f, cand, env):
        """entities of the sorted list cand that pass the filter"""
        if f[0] == "c":
            f = env[f[1]]
        else:
            f = f[1]
        cur = list(cand)
        self.sel += 1
        for c in f:
            cur = self.crit(c, cur, env)
        if 0 < len(cur) < len(cand):
            self.partial += 1
        return cur

    def crit(self, c, cur, env):
        k = c[0]
        E = self.e
        if k == "players":
            return [i for i in cur if E[i]["type"] == "player"]
        if k == "type":
            return [i for i in cur if E[i]["type"] == c[1]]
        if k == "ntype":
            return [i for i in cur if E[i]["type"] not in c[1]]
        if k == "tag":
            return [i for i in cur if set(c[1]) <= E[i]["tags"]]
        if k == "ntag":
            return [i for i in cur if not set(c[1]) & E[i]["tags"]]
        if k in ("near", "far"):
            o = self.pos(c[1], env)
            n = c[2] or 1
            ds = sorted((math.dist(E[i]["pos"], o), i) for i in cur)
            if k == "far":
                ds.reverse()
            if len(ds) > n and abs(ds[n - 1][0] - ds[n][0]) < 1e-6:
                raise Skip("tie")
            return sorted(i for _, i in ds[:n])
        if k == "dist":
            o = self.pos(c[1], env)
            out = []
            for i in cur:
                x = math.dist(E[i]["pos"], o)
                for b in c[2:]:
                    if b is not None and abs(x - b) < 1e-6:
                        raise Skip("tie")
                if (c[2] is None or x > c[2]) and \
                        (c[3] is None or x < c[3]):
                    out.append(i)
            return out
        if k == "inside":
            o = self.pos(c[1], env)
            out = []
            for i in cur:
                ok = True
                for x, b, s in zip(E[i]["pos"], o, c[2:]):
                    s = s or 0.0
                    lo, hi = min(b, b + s), max(b, b + s) + 1
                    if abs(x - lo) < 1e-6 or abs(x - hi) < 1e-6:
                        raise Skip("tie")
                    ok = ok and lo < x < hi
                if ok:
                    out.append(i)
            return out
        if k in ("vert", "horz"):
            j = 1 if k == "vert" else 0
            lim = 90.0 if k == "vert" else 180.0
            lo = -lim if c[1] is None else c[1]
            hi = lim if c[2] is None else c[2]
            return [i for i in cur if lo <= E[i]["rot"][j] <= hi]
        if k == "name":
            return [i for i in cur if E[i]["name"] == c[1]]
        if k == "nname":
            return [i for i in cur if E[i]["name"] not in c[1]]
        if k == "scores":
            return [i for i in cur if c[1] in E[i]["scores"] and
                    within(c[2], E[i]["scores"][c[1]])]
        P = [i for i in cur if E[i]["type"] == "player"]
        if k == "level":
            return [i for i in P if (c[1] is None or E[i]["level"] >= c[1])
                    and (c[2] is None or E[i]["level"] <= c[2])]
        if k == "mode":
            return [i for i in P if E[i]["mode"] == c[1]]
        if k == "nmode":
            return [i for i in P if E[i]["mode"] not in c[1]]
        if k == "perm":
            return [i for i in P if set(c[1]) <= set(E[i]["perms"])]
        if k == "nperm":
            return [i for i in P if not set(c[1]) & set(E[i]["perms"])]
        if k == "item":
            out = []
            for i in cur:
                n = sum(qt for it, da, qt, st, sn in E[i]["items"]
                        if it == c[1] and (c[3] is None or c[3] == da) and
                        (c[4] is None or c[4] == st) and
                        (c[5] is None or within(c[5], sn)))
                if within("1.." if c[2] is None else c[2], n):
                    out.append(i)
            return out
        if k == "random":
            if c[1] is not None:
                cur = [i for i in cur if E[i]["type"] == c[1]]
            rest, out = list(cur), []
            while rest and len(out) < (c[2] or 1):
                if not self.log:
                    raise Violation("a random selection was not made")
                hi, j = self.log.pop(0)
                if hi != len(rest) - 1:
                    raise Violation(
                        "random selection among %d entities, expected %d"
                        % (hi + 1, len(rest)))
                out.append(rest.pop(j))
            return sorted(out)
        raise AssertionError(c)

    # programs
    def meth(self, cur, m, env):
        k = m[0]
        allw = list(range(len(self.e)))
        if k == "select":
            return cur | set(self.apply(m[1], allw, env))
        if k == "drop":
            return cur - set(self.apply(m[1], sorted(cur), env))
        if k == "filter":
            return set(self.apply(m[1], sorted(cur), env))
        if k == "extend":
            return cur | env[m[1]]
        if k == "subtract":
            return cur - env[m[1]]
        if k == "intersect":
            return cur & env[m[1]]
        if k == "clear":
            return set()
        if k == "add":
            return cur | {env[e] for e in m[1]}
        if k == "remove":
            return cur - {env[e] for e in m[1]}
        raise AssertionError(m)

    def gx(self, e, env):
        if e[0] == "g":
            return env[e[1]]
        if e[0] == "new":
            return set()
        if e[0] == "copy":
            return set(self.gx(e[1], env))
        if e[0] == "res":
            return set(env[e[1]])
        if e[0] == "m":
            return self.meth(self.gx(e[1], env), e[2:], env)
        f = self.funcs[e[1]]
        loc = Env(self.glob)
        for (n, t), a in zip(f["params"], e[2]):
            loc.own[n] = self.ix(a[1], env) if a[0] == "i" else env[a[1]]
        self.block(f["body"], loc)
        if f.get("loop"):
            if f["first"]:
                r = self.gx(f["first"], loc)
            elif not loc[f["loop"]]:
                raise Skip("no result")
            for _ in sorted(loc[f["loop"]]):
                r = self.gx(f["res"], loc)
            return r
        return self.gx(f["res"], loc)

    def ix(self, e, env):
        if e[0] == "n":
            return e[1]
        if e[0] == "iv":
            return env[e[1]]
        if e[0] == "size":
            return len(env[e[1]])
        a, b = self.ix(e[2], env), self.ix(e[3], env)
        return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b

    def bx(self, e, env):
        if e[0] == "empty":
            return not env[e[1]]
        if e[0] == "has":
            return env[e[2]] in env[e[1]]
        if e[0] == "not":
            return not self.bx(e[1], env)
        if e[0] == "and":
            return self.bx(e[1], env) and self.bx(e[2], env)
        if e[0] == "or":
            return self.bx(e[1], env) or self.bx(e[2], env)
        a, b = self.ix(e[2], env), self.ix(e[3], env)
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b,
                ">": a > b, ">=": a >= b}[e[1]]

    def block(self, b, env):
        for s in b:
            self.st(s, env)

    def st(self, s, env):
        self.steps += 1
        if self.steps > 3000:
            raise Skip("long")
        k = s[0]
        if k == "decl":
            env.own[s[1]] = self.gx(s[2], env)
        elif k == "declt":
            env.own[s[1]] = self.gx(s[3], env)
        elif k == "const":
            env.own[s[1]] = s[2]
        elif k == "do":
            for m in s[2]:
                env.set(s[1], self.meth(env[s[1]], m, env))
        elif k == "set":
            env.set(s[1], self.gx(s[2], env))
        elif k == "swap":
            a, b = env[s[1]], env[s[2]]
            env.set(s[1], b)
            env.set(s[2], a)
        elif k == "aug":
            env.set(s[1], env[s[1]] | env[s[3]] if s[2] == "+" else
                    env[s[1]] - env[s[3]])
        elif k == "obs":
            for i in env[s[1]]:
                self.e[i]["tags"].add(s[2])
                self.seen += 1
        elif k == "int":
            env.own[s[1]] = self.ix(s[2], env)
        elif k == "say":
            self.out.append(" ".join(str(self.ix(x, env)) for x in s[1]))
        elif k == "if":
            if self.bx(s[1], env):
                self.block(s[2], env)
            elif s[3]:
                self.block(s[3], env)
        elif k == "single":
            if len(env[s[2]]) == 1:
                env.own[s[1]] = min(env[s[2]])
                self.block(s[4], env)
        elif k == "for":
            for i in sorted(env[s[2]]):
                env.own[s[1]] = i
                self.block(s[3], env)
        elif k == "drain":
            n = 0
            cur = env[s[1]]
            while cur:
                n += 1
                c = ["near", s[3], 1] if s[2] == "random" else \
                    [s[2], s[3], s[4]]
                cur = cur - set(self.apply(["f", [c]], sorted(cur), env))
            env.set(s[1], set())
            env.own[s[5]] = n
            self.out.append(str(n))
        elif k == "tag":
            t = self.e[env[s[1]]]["tags"]
            (t.add if s[3] == "add" else t.discard)(s[2])
        elif k == "score":
            self.e[env[s[1]]]["scores"][s[2]] = s[3]
        elif k == "edecl":
            env.own[s[1]] = env[s[2]]
        elif k == "ex":
            self.gx(s[1], env)

    def run(self, p):
        self.glob = Env(None)
        self.block(p["pre"], self.glob)
        self.funcs = {f["name"]: f for f in p["funcs"]}
        self.block(p["body"], self.glob)


class Env:
    def __init__(self, up):
        self.up, self.own = up, {}

    def __getitem__(self, n):
        return self.own[n] if n in self.own else self.up[n]

    def set(self, n, v):
        if n in self.own or self.up is None:
            self.own[n] = v
        else:
            self.up.set(n, v)


def world(vm, ents):
    for o in OBJS:
        vm.objectives[o] = "dummy"
    for e in ents:
        x = vm.add_ent(e["type"], name=e["name"], pos=tuple(e["pos"]),
                       level=e["level"], gamemode=e["mode"],
                       rot=tuple(e["rot"]))
        x.tags |= set(e["tags"])
        x.items = [tuple(i) for i in e["items"]]
        x.perms = set(e["perms"])
        for o, v in e["scores"]:
            vm.set_score(x.uid, o, v)


def g_again(d, ents):
    """what happens to the entities before each further start"""
    out = []
    for _ in range(d.pick([0, 0, 1, 1, 2, 3])):
        ch = []
        for _ in range(d.int(0, 6) if ents else 0):
            i = d.int(0, len(ents) - 1)
            k = d.pick(["tag", "tag", "score", "pos", "rot", "level", "mode"])
            e = ents[i]
            if k == "tag":
                ch.append([i, k, d.pick(TAGS), d.flip()])
            elif k == "score":
                ch.append([i, k, d.pick(OBJS), d.int(-1, 5)])
            elif k == "pos":
                ch.append([i, k, 0, [quart(d) + 0.01 * i, quart(d, -8, 8),
                                     quart(d) + 0.003 * i]])
            elif k == "rot":
                ch.append([i, k, 0, [quart(d, -90, 90), quart(d, -90, 90)]])
            elif e["type"] == "player":
                ch.append([i, k, 0, d.int(0, 9) if k == "level" else
                           d.pick(MODES)])
        out.append(ch)
    return out


def disturb(ch, vm):
    for i, k, x, y in ch:
        e = vm.ents[i]
        if k == "tag":
            (e.tags.add if y else e.tags.discard)(x)
        elif k == "score":
            vm.set_score(e.uid, x, y)
        elif k == "mode":
            e.gamemode = y
        elif k == "pos":
            e.x, e.y, e.z = y
        elif k == "rot":
            e.yrot, e.xrot = y
        else:
            e.level = y


def run(case):
    src = render(case["prog"])
    b = build(src, mc_version=(1, 20, 10))
    static.lint(b, False, extra_objs=OBJS, src=src)
    log = []
    st = [case["seed"]]

    def rng(lo, hi):
        st[0] = (st[0] * 1103515245 + 12345) % 2 ** 31
        v = (st[0] >> 8) % (hi + 1)
        log.append((hi, v))
        return v
    vm = execute(b, lambda v: world(v, case["ents"]), src, rng=rng)
    for ch in case["again"]:
        disturb(ch, vm)
        execute(b, vm=vm, src=src, init=False)
    m = Model(case["ents"], log)
    try:
        m.run(case["prog"])
        for ch in case["again"]:
            for i, k, x, y in ch:
                e = m.e[i]
                if k == "tag":
                    (e["tags"].add if y else e["tags"].discard)(x)
                elif k == "score":
                    e["scores"][x] = y
                else:
                    e[k] = y
            m.run(case["prog"])
        if m.log:
            raise Violation("more random selections than expected")
        if any(isinstance(x, str) and False for x in m.out):
            raise Skip
    except Violation as e:
        raise Violation("%s\n%s\n%s" % (e, src, case["ents"])) from None
    for s in m.out:
        if any(abs(int(x)) >= 2 ** 31 for x in s.split()):
            raise Skip("overflow")
    got = [e[2] for e in vm.events if e[0] == "tellraw"]
    same(got, m.out, "counts", src, b)
    for i, (x, y) in enumerate(zip(m.e, vm.ents)):
        mine = {t for t in y.tags if not t.startswith(b.cfg.entity_tag)}
        if mine != x["tags"]:
            raise Violation(
                "entity %d (%s %r at %s): tags %s, expected %s\n%s\n%s" % (
                    i, x["type"], x["name"], x["pos"], sorted(mine),
                    sorted(x["tags"]), src, b.text()[:5000]))
    return {"nontrivial": m.sel >= 2 and m.partial >= 1 and m.seen >= 3,
            "tags": ["again"] if case["again"] else []}


def g(d):
    ents = g_ents(d)
    return {"prog": Gen(d).program(), "ents": ents,
            "again": g_again(d, ents), "seed": d.int(0, 10 ** 6)}


# --- one filter --------------------------------------------------------------

def g_one(d):
    """A filter applied in each of the ways it can be applied."""
    f = g_filter(d, [])
    for _ in range(3):
        if len(f) < 2:
            f = g_filter(d, [])
    es = g_ents(d)
    if len(es) < 3:
        es = g_ents(d)
    how = d.pick(["select", "drop", "filter", "filter"])
    body = [["decl", "g1", ["new", "T0"]]]
    if how != "select":
        body.append(["do", "g1", [["select", ["f", g_filter(d, [])]]]])
    body += [["do", "g1", [[how, ["f", f]]]], ["obs", "g1", "s1"],
             ["say", [["size", "g1"]]]]
    return {"prog": {"pre": [], "funcs": [], "body": body}, "ents": es,
            "again": g_again(d, es) if d.flip(40) else [],
            "seed": d.int(0, 10 ** 6)}


def run_one(case):
    i = run(case)
    f = case["prog"]["body"][-3][2][0][1][1]
    i["nontrivial"] = len(f) >= 2 and len(case["ents"]) >= 3
    return i


# --- refusals ----------------------------------------------------------------

PRE = """entity A:
    pass
entity B extends A:
    pass
entity C:
    pass
a := Engroup[A]()
b := Engroup[B]()
c := Engroup[C]()
x := ExternEngroup()
ea: A
eb: B
ec: C
n := 3
"""
OKS = ["a = b", "a += b", "a.extend(b)", "a.add(eb)", "a.add(ea, eb)",
       "a.intersect(b)", "n = a.size()", "if a.has(eb):\n    pass",
       "a.select(Enfilter().random(\"pig\"))",
       "a.select(Enfilter().is_type(\"pig\").random())",
       "a.select(Enfilter().level(1).random(\"player\"))",
       "c = x.resolve(C)", "a = x.resolve(B)", "ea = eb",
       "ea = a.to_single()", "for t in x:\n    x.remove(t)", "swap(a, a)",
       "a.select(Enfilter().scores(\"o\", \" ! 3 .. 4 \"))",
       "a.select(Enfilter().has_item(\"i\", 3, slot_type=\"s\", "
       "slot_num=2))", "a.select(filter=Enfilter())",
       "const f = Enfilter()\na.select(f.has_tag(\"x\")).select(f)"]
BADS = ["b = a", "b += a", "b.extend(a)", "a.extend(c)", "a.subtract(x)",
        "b.add(ea)", "a.add(ec)", "a.add(a)", "a.add(eb, ec)", "x.add(ea)",
        "b.intersect(a)", "c = a", "x = a", "a = x", "a += ea", "a *= b",
        "q := a + b", "q := a - b", "if a == b:\n    pass",
        "if b.has(ea):\n    pass", "if a.has(a):\n    pass", "eb = ea",
        "eb = a.to_single()", "a.resolve(B)", "x.resolve(a)",
        "x.resolve(Enfilter)", "x.resolve()", "b = x.resolve(A)",
        "swap(a, b)", "swap(ea, eb)", "a.select()", "a.select(a)",
        "a.select(Enfilter)", "a.select(Enfilter(), Enfilter())",
        "a.select(f=Enfilter())", "a.clear(1)", "a.size(1)",
        "a.copy(b)", "q := Engroup()", "q := Engroup[int]()",
        "q := Engroup[3]()", "q := Engroup[A](b)", "q := Engroup[A, B]()",
        "q := ExternEngroup(A)", "q: Engroup", "q: Engroup[int]",
        "q: Enfilter", "q := Enfilter()", "n = a", "a = 3", "n = a.is_empty()",
        "if a.size():\n    pass", "if a:\n    pass", "a[0]",
        "a.select(Enfilter().random())",
        "a.select(Enfilter().is_type(\"pig\").random(\"cow\"))",
        "a.select(Enfilter().all_players().random(\"cow\"))",
        "a.select(Enfilter().random(\"pig\", 0))",
        "a.select(Enfilter().random(\"pig\", -1))",
        "a.select(Enfilter().random(\"pig\", n))",
        "a.select(Enfilter().nearest_from(Pos(0, 0, 0), 0))",
        "a.select(Enfilter().farthest_from(Pos(0, 0, 0), -2))",
        "a.select(Enfilter().nearest_from(ea))",
        "a.select(Enfilter().nearest_from(0, 0, 0))",
        "a.select(Enfilter().has_tag(n))", "a.select(Enfilter().has_tag(3))",
        "a.select(Enfilter().scores(\"o\", \"..\"))",
        "a.select(Enfilter().scores(\"o\", \"\"))",
        "a.select(Enfilter().scores(\"o\", \"x\"))",
        "a.select(Enfilter().scores(\"o\", \"1..b\"))",
        "a.select(Enfilter().scores(\"o\", \"1.5\"))",
        "a.select(Enfilter().scores(\"o\", 1.5))",
        "a.select(Enfilter().scores(\"o\", \"1...3\"))",
        "a.select(Enfilter().scores(\"o\"))",
        "a.select(Enfilter().scores(\"o\", n))",
        "a.select(Enfilter().has_item(\"i\", slot_num=1))",
        "a.select(Enfilter().has_item(\"i\", \"..\"))",
        "a.select(Enfilter().has_item(\"i\", 1, \"z\"))",
        "a.select(Enfilter().level(\"1\"))", "a.select(Enfilter().level(1.5))",
        "a.select(Enfilter().is_type(n))", "a.select(Enfilter().is_type())",
        "a.select(Enfilter().is_type(\"a\", \"b\"))",
        "a.select(Enfilter().is_name(\"a\", \"b\"))",
        "a.select(Enfilter().distance_from(Pos(0, 0, 0), \"1\"))",
        "a.select(Enfilter().inside(Pos(0, 0, 0), dq=1))",
        "a.select(Enfilter(1))", "a.select(Enfilter().nope())",
        "for t in a:\n    t = 3", "for t in Enfilter():\n    pass",
        "for t in a:\n    b.add(t)", "for t in x:\n    a.add(t)",
        "for t in ea:\n    pass", "ea = Enfilter()", "a.tag", "s9 := a.size",
        "const g = a", "const g = a.size()"]


def g_bad(d):
    return {"ok": d.sample(OKS, d.int(0, 2)), "bad": d.pick(BADS),
            "fn": d.flip(30)}


def run_bad(case):
    def put(parts):
        if not case["fn"]:
            return "".join(p + "\n" for p in parts)
        return "def ff():\n" + "".join(
            "    " + ln + "\n" for p in parts for ln in p.split("\n")) + \
            "    pass\n"
    good = PRE + put(case["ok"])
    out, r = try_build(good)
    need(out == "ok", "valid entity group program refused: %s\n%s",
         r.text if out != "ok" else "", good)
    out, r = try_build(PRE + put(case["ok"] + [case["bad"]]))
    need(out == "rejected", "invalid use of entity groups accepted\n%s",
         case["bad"])
    return {"nontrivial": True, "tags": ["refused"]}


CHECKS = [
    Check("programs", g, run, 5000, 100000),
    Check("filters", g_one, run_one, 5000, 100000),
    Check("refused", g_bad, run_bad, 700, 4000),
]
