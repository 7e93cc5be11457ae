"""Positions, rotations and world commands: a model of their values and a
command interpreter that records what world commands do, not how they are
spelled."""
import json
import math

from .mcvm import VM, Ctx, Malformed, Q, face, local_offset, parse_int, \
    coord_num, strip_ns


def fr(v):
    return round(v, 5) + 0.0


def pt(p):
    return tuple(fr(v) for v in p)


def parse_states(t):
    """["a"="b","c"=1] -> sorted pairs; also the older form with colons"""
    if not (t.startswith("[") and t.endswith("]")):
        raise Malformed("bad block states %r" % t)
    dec = json.JSONDecoder()
    i, out = 1, []
    t = t.rstrip()
    while t[i:i + 1] not in ("]",):
        try:
            k, i = dec.raw_decode(t, i)
            if t[i:i + 1] not in ("=", ":"):
                raise Malformed("bad block states %r" % t)
            sep = t[i]
            v, i = dec.raw_decode(t, i + 1)
        except ValueError:
            raise Malformed("bad block states %r" % t)
        if not isinstance(k, str) or not isinstance(v, (str, int, bool)):
            raise Malformed("bad block states %r" % t)
        out.append((k, sep, repr(v)))
        if t[i:i + 1] == ",":
            i += 1
            if t[i:i + 1] == "]":
                raise Malformed("bad block states %r" % t)
        elif t[i:i + 1] != "]":
            raise Malformed("bad block states %r" % t)
    if i != len(t) - 1:
        raise Malformed("bad block states %r" % t)
    return tuple(sorted(out))


class WVM(VM):
    """Records world commands in a canonical form."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.hooks = {}

    def cmd(self, ln, ctx):
        ws = self.parsed(ln)
        if ws and hasattr(self, "w_" + ws[0][0]):
            self.steps += 1
            a = Args(self, ln, ws, ctx)
            ev = getattr(self, "w_" + ws[0][0])(a, ctx)
            if ev is not None:
                a.end()
                self.events.append((ws[0][0],) + tuple(ev))
            return
        super().cmd(ln, ctx)

    def w_scriptevent(self, a, ctx):
        """hook:N makes the test change the world"""
        self.hooks[a.word()](self)

    # blocks
    def w_setblock(self, a, ctx):
        p = a.coords()
        b = a.block()
        return p, ctx.dim, b, a.opt("replace", "replace destroy keep")

    def w_fill(self, a, ctx):
        p, q = a.coords(), a.coords()
        b = a.block()
        m = a.opt("replace", "replace destroy keep hollow outline")
        r = a.block() if m == "replace" and a.more() else None
        return p, q, ctx.dim, b, m, r

    def w_clone(self, a, ctx):
        p, q, r = a.coords(), a.coords(), a.coords()
        m = a.opt("replace", "replace masked filtered")
        c = a.opt("normal", "normal move force")
        b = a.block() if m == "filtered" else None
        return p, q, r, ctx.dim, m, c, b

    # entities
    def w_damage(self, a, ctx):
        t, n = a.targets(), a.int(0)
        cause = a.word() if a.more() else None
        by = None
        if a.more():
            a.kw("entity")
            by = a.targets()
        return t, n, cause, by

    def w_effect(self, a, ctx):
        t, e = a.targets(), a.word()
        if e == "clear":
            return t, "clear"
        return (t, e, a.int(0) if a.more() else 30,
                a.int(0, 255) if a.more() else 0,
                a.bool() if a.more() else False)

    def w_enchant(self, a, ctx):
        return a.targets(), a.word(), a.int(1) if a.more() else 1

    def w_event(self, a, ctx):
        a.kw("entity")
        return a.targets(), a.word()

    def w_me(self, a, ctx):
        return self.who(ctx), a.rest()

    def w_say(self, a, ctx):
        return self.who(ctx), a.rest()

    def w_tell(self, a, ctx):
        return self.who(ctx), a.targets(), a.rest()

    def w_replaceitem(self, a, ctx):
        k = a.opt(None, "block entity")
        if k == "block":
            t = (a.coords(), ctx.dim)
            a.kw("slot.container")
            loc = "container"
        else:
            t, loc = a.targets(), a.word()
        slot = a.int()
        old = a.opt(None, "keep destroy")
        return (k, t, loc, slot, old) + a.item()

    def w_ride(self, a, ctx):
        t = a.targets()
        k = a.word()
        if k == "start_riding":
            r = a.targets()
            m = a.opt("teleport_rider", "teleport_rider teleport_ride")
            f = a.opt("until_full", "until_full if_group_fits") \
                if m == "teleport_rider" else None
            return t, k, r, m, f
        if k in ("stop_riding", "evict_riders"):
            return t, k
        if k == "summon_rider":
            return (t, k, strip_ns(a.word())) + a.event_name()
        if k == "summon_ride":
            ty = strip_ns(a.word())
            m = a.opt("reassign_rides",
                      "skip_riders no_ride_change reassign_rides")
            return (t, k, ty, m) + a.event_name()
        raise Malformed(a.ln)

    def w_spreadplayers(self, a, ctx):
        x = fr(self._coord(a.word(), ctx.x))
        z = fr(self._coord(a.word(), ctx.z))
        return x, z, ctx.dim, fr(a.float()), fr(a.float()), a.targets()

    # players
    def w_ability(self, a, ctx):
        return a.targets(), a.word(), a.bool()

    def w_clear(self, a, ctx):
        t = a.targets()
        i = a.word() if a.more() else None
        return (t, i, a.int(-1) if a.more() else -1,
                a.int(-1) if a.more() else -1)

    def w_clearspawnpoint(self, a, ctx):
        return a.targets(),

    def w_gamemode(self, a, ctx):
        m = a.opt(None, "survival creative adventure spectator default")
        return m, a.targets()

    def w_give(self, a, ctx):
        return (a.targets(),) + a.item()

    def w_kick(self, a, ctx):
        return a.word(), a.rest() if a.more() else None

    def w_recipe(self, a, ctx):
        k = a.opt(None, "give take")
        return k, a.targets(), a.qword()

    def w_spawnpoint(self, a, ctx):
        return a.targets(), a.coords(), ctx.dim

    def w_xp(self, a, ctx):
        n = a.word()
        lv = n[-1:] in "Ll"
        try:
            n = int(n[:-1] if lv else n)
        except ValueError:
            raise Malformed(a.ln)
        if n < 0 and not lv:
            raise Malformed("negative experience: %r" % a.ln)
        return n, lv, a.targets()

    # world state
    def is_block(self, p, dim, text):
        words = text.split(" ", 1)
        b = self.blocks.get((p, dim))
        want = parse_states(words[1]) if len(words) > 1 else ()
        i, st = b if b is not None else ("air", {})
        return strip_ns(words[0]) == i and all(
            st.get(k, "?") == v for k, _, v in want)

    def block_at(self, p, dim):
        b = self.blocks.get((p, dim))
        return "air" if b is None else (b[0], tuple(sorted(b[1].items())))

    # c_tp of the base only records the unusual forms
    def w_tp(self, a, ctx):
        sel = a.word()
        if not sel.startswith("@"):
            raise Malformed(a.ln)
        es = self.select(sel, ctx)
        p = self.coords([str(a.word()) for _ in range(3)], ctx)
        rot = chk = None
        if a.more():
            w = str(a.peek())
            if w in ("true", "false"):
                chk = a.bool()
            else:
                rot = (self._coord(a.word(), ctx.yrot),
                       self._coord(a.word(), ctx.xrot))
                if a.more():
                    chk = a.bool()
        for e in es:
            e.x, e.y, e.z = p
            e.dim = ctx.dim
            if rot:
                e.yrot, e.xrot = rot
        if not es:
            # the syntax was checked
            a.end()
            return None
        return (tuple(e.uid for e in es), pt(p), ctx.dim,
                None if rot is None else pt(rot), bool(chk))

    def w_summon(self, a, ctx):
        ty = strip_ns(a.word())
        p = a.coords()
        rot = (0.0, 0.0)
        # <type> <pos> [yRot] [xRot] [event] [name]
        if a.more():
            w = a.peek()
            if not isinstance(w, Q) and (w[:1] in "~-" or w[:1].isdigit()):
                rot = (self._coord(a.word(), ctx.yrot),
                       self._coord(a.word(), ctx.xrot))
        ev, name = a.event_name()
        e = self.add_ent(ty, name=name or "", pos=p, rot=rot)
        e.dim = ctx.dim
        return e.uid, ty, p, ctx.dim, pt(rot), ev, name


class Args:
    def __init__(self, vm, ln, ws, ctx):
        self.vm, self.ln, self.ws, self.ctx = vm, ln, ws, ctx
        self.i = 1

    def more(self):
        return self.i < len(self.ws)

    def peek(self):
        return self.ws[self.i][0]

    def qword(self):
        if not self.more():
            raise Malformed("truncated command %r" % self.ln)
        w = self.ws[self.i][0]
        self.i += 1
        return w

    def word(self):
        return str(self.qword())

    def rest(self):
        if not self.more():
            raise Malformed("truncated command %r" % self.ln)
        s = self.ln[self.ws[self.i][1]:]
        self.i = len(self.ws)
        return s

    def end(self):
        if self.more():
            raise Malformed("unexpected %r in %r" % (self.peek(), self.ln))

    def kw(self, k):
        if self.word() != k:
            raise Malformed("expected %s in %r" % (k, self.ln))

    def opt(self, default, choices):
        if not self.more():
            if default is None:
                raise Malformed("truncated command %r" % self.ln)
            return default
        w = self.word()
        if w not in choices.split():
            raise Malformed("bad %r in %r" % (w, self.ln))
        return w

    def coords(self):
        c = [self.qword() for _ in range(3)]
        return pt(self.vm.coords(c, self.ctx))

    def float(self):
        return coord_num(self.word())

    def int(self, lo=None, hi=None):
        w = self.word()
        n = parse_int(w)
        if (lo is not None and n < lo) or (hi is not None and n > hi):
            raise Malformed("number %d out of range in %r" % (n, self.ln))
        return n

    def bool(self):
        w = self.word()
        if w not in ("true", "false"):
            raise Malformed("expected boolean in %r" % self.ln)
        return w == "true"

    def targets(self):
        w = self.qword()
        if isinstance(w, Q) or not w.startswith("@"):
            raise Malformed("expected selector in %r" % self.ln)
        return tuple(e.uid for e in self.vm.select(str(w), self.ctx))

    def block(self):
        i = strip_ns(self.word())
        st = ()
        if self.more() and str(self.peek()).startswith("["):
            # states may contain spaces inside of strings
            st = parse_states(self.word())
        return i, st

    def item(self):
        """id, amount, data, components"""
        i = self.word()
        n = self.int(1) if self.more() else 1
        d = self.int(0, 32767) if self.more() else 0
        c = None
        if self.more():
            try:
                c = json.loads(self.rest())
            except ValueError:
                raise Malformed("bad item components in %r" % self.ln)
            if not isinstance(c, dict):
                raise Malformed("bad item components in %r" % self.ln)
        return i, n, d, c or {}

    def event_name(self):
        ev = self.word() if self.more() else None
        name = self.word() if self.more() else None
        return (None if ev == "*" else ev), name


# --- values of positions, offsets and rotations ------------------------------

class Mod:
    """Compile-time values and the effect of using them.

    ents: name -> entity (None when it does not exist)"""

    def __init__(self):
        self.ents = {}

    def use(self, ops, ctx):
        """Contexts that a position or rotation turns `ctx` into."""
        c = ctx.clone()
        for o in ops:
            if o[0] in ("at", "as", "face"):
                e = self.ents.get(o[1])
                if e is None:
                    return None
                if o[0] == "at":
                    c.x, c.y, c.z = e.pos
                    c.yrot, c.xrot, c.dim = e.yrot, e.xrot, e.dim
                    c.anchor = o[2]
                elif o[0] == "as":
                    c.yrot, c.xrot = e.yrot, e.xrot
                else:
                    c.yrot, c.xrot = face(c.pos, e.pos)
            elif o[0] == "off":
                c.x, c.y, c.z = self.offset(o[1], c)
            elif o[0] == "in":
                c.dim = o[1]
            elif o[0] == "align":
                for a in o[1]:
                    setattr(c, a, float(math.floor(getattr(c, a))))
            elif o[0] == "rot":
                (t1, a), (t2, b) = o[1]
                c.yrot = a + (c.yrot if t1 else 0.0)
                c.xrot = b + (c.xrot if t2 else 0.0)
            else:
                raise AssertionError(o)
        return c

    def offset(self, v, c):
        if v[0][0] == "^":
            return local_offset(c, v[0][1], v[1][1], v[2][1])
        return tuple(n + (b if t == "~" else 0.0)
                     for (t, n), b in zip(v, c.pos))


def center(n):
    """Integers mean the center of a block on the x and z axes."""
    return float(n) + 0.5 if isinstance(n, int) else n


def set3(v, t, xyz, cent):
    v = [list(p) for p in v]
    for i, n in enumerate(xyz):
        if n is not None:
            v[i] = [t, center(n) if cent and i != 1 else float(n)]
    return v


class Vals:
    """Evaluates expression trees to values."""

    def __init__(self):
        self.env = {}

    def num(self, e):
        k = e[0]
        if k == "i" or k == "f":
            return e[1]
        if k == "none":
            return None
        if k == "c":
            return self.env[e[1]]
        if k == "attr":
            return float(self.abs(e[1])["xyz".index(e[2])])
        a, b = self.num(e[1]), self.num(e[2])
        return a + b if k == "+" else a - b

    def nums(self, names, args):
        """args: [[name, expr]]"""
        d = {n: None for n in names}
        for n, e in args:
            d[n] = self.num(e)
        return [d[n] for n in names]

    # every value is ("P"|"O"|"A"|"R", payload)
    def ev(self, e):
        k = e[0]
        if k == "var":
            return self.env[e[1]]
        if k == "idx":
            return self.env[e[1]][e[2]]
        if k == "fn":
            # compile-time function applied to a value
            return self.method(self.ev(e[2]), e[3], e[4])
        if k == "id":
            return self.ev(e[2])
        if k == "pos":
            x, y, z = [self.num(a) for a in e[1]]
            return "P", [["off", [["", center(x)], ["", float(y)],
                                  ["", center(z)]]]]
        if k == "ent":
            return "P", [["at", e[1], e[2] or "feet"]]
        if k == "abs":
            x, y, z = [self.num(a) for a in e[1]]
            return "A", [center(x), float(y), center(z)]
        if k == "off":
            v = [["~", 0.0]] * 3
            v = set3(v, "~", self.nums("xyz", [a for a in e[1]
                                               if a[0] in "xyz"]), False)
            v = set3(v, "", self.nums(["x_abs", "y_abs", "z_abs"],
                                      [a for a in e[1]
                                       if a[0].endswith("_abs")]), False)
            return "O", v
        if k == "loc":
            return "O", self.local(e[1])
        if k == "rent":
            return "R", [["as", e[1]]]
        if k == "rabs":
            return "R", [["rot", [[0, float(self.num(e[1]))],
                                  [0, float(self.num(e[2]))]]]]
        if k == "rface":
            return "R", [["face", e[1], e[2] or "feet"]]
        if k == "m":
            return self.method(self.ev(e[1]), e[2], e[3])
        raise AssertionError(e)

    def local(self, args):
        ns = self.nums(["left", "up", "front"], args)
        return [["^", float(n or 0.0)] for n in ns]

    def abs(self, e):
        t, v = self.ev(e)
        assert t == "A"
        return v

    def method(self, val, name, args):
        t, v = val
        if t == "A":
            ns = self.nums("xyz", args)
            if name == "abs":
                return "A", [old if n is None else
                             center(n) if i != 1 else float(n)
                             for i, (old, n) in enumerate(zip(v, ns))]
            return "A", [old if n is None else old + n
                         for old, n in zip(v, ns)]
        if t == "O":
            return "O", set3(v, "" if name == "abs" else "~",
                             self.nums("xyz", args), name == "abs")
        if t == "R":
            ns = self.nums(["vertical", "horizontal"], args)
            return "R", v + [["rot", [
                [1, 0.0] if n is None else
                [int(name == "offset"), float(n)] for n in ns]]]
        if name in ("abs", "offset"):
            o = set3([["~", 0.0]] * 3, "" if name == "abs" else "~",
                     self.nums("xyz", args), name == "abs")
            return "P", v + [["off", o]]
        if name == "dim":
            return "P", v + [["in", args]]
        if name == "align":
            return "P", v + [["align", args or "xyz"]]
        if name == "apply":
            return "P", v + [["off", self.as_off(self.ev(args))]]
        if name == "local":
            rot, a = args
            return "P", v + self.ev(rot)[1] + [["off", self.local(a)]]
        raise AssertionError(name)

    @staticmethod
    def as_off(val):
        t, v = val
        return [["", n] for n in v] if t == "A" else v

    @staticmethod
    def as_pos(val):
        t, v = val
        return [["off", [["", n] for n in v]]] if t == "A" else v


# --- generation and rendering of such expressions ----------------------------

ANCH = [None, None, None, "feet", "eyes"]
DIMS = ["overworld", "nether", "the_end"]


class VGen:
    """d: choices; consts: type -> names; ents: entity variables"""

    def __init__(self, d, ents):
        self.d = d
        self.ents = list(ents)
        self.consts = {"P": [], "O": [], "A": [], "R": [], "N": []}
        self.lists = []      # (name, [types])
        self.nn = 0

    def fresh(self, p):
        self.nn += 1
        return p + str(self.nn)

    def lit(self, lo=-30, hi=30):
        d = self.d
        k = d.int(0, 9)
        if k <= 3:
            return ["i", d.int(lo, hi)]
        if k <= 7:
            return ["f", d.int(lo * 4, hi * 4) / 4.0]
        if k == 8:
            return ["f", d.int(-20, 20) / 20000.0]
        return ["f", d.int(-9, 9) * 1e5 + 0.5]

    def num(self, dep=1, lo=-30, hi=30):
        d = self.d
        k = d.int(0, 9)
        if k <= 6 or dep <= 0:
            return self.lit(lo, hi)
        if k == 7 and self.consts["N"]:
            return ["c", d.pick(self.consts["N"])]
        if k == 8 and self.consts["A"]:
            return ["attr", ["var", d.pick(self.consts["A"])], d.pick("xyz")]
        return [d.pick("+-"), self.num(dep - 1, lo, hi),
                self.num(dep - 1, lo, hi)]

    def some(self, names, pc=60, none=True, gen=None):
        """Arguments for a subset of optional parameters."""
        d = self.d
        out = []
        for n in names:
            if d.flip(pc):
                out.append([n, ["none"] if none and d.flip(12) else
                            (gen or self.num)()])
        return out

    def ang(self):
        return self.num(1, -180, 180)

    def opt_ents(self):
        return self.ents

    def P(self, dep=3):
        d = self.d
        k = d.int(0, 13)
        if dep <= 0 or k <= 1:
            if d.flip() and self.ents:
                return ["ent", d.pick(self.ents), d.pick(ANCH)]
            return ["pos", [self.num() for _ in range(3)]]
        if k <= 3 and self.consts["P"]:
            return ["var", d.pick(self.consts["P"])]
        if k == 4 and self.lists:
            n, ts = d.pick(self.lists)
            i = d.int(0, len(ts) - 1)
            if ts[i] == "P":
                return ["idx", n, i]
        if k == 5:
            return ["m", self.P(dep - 1), "dim", d.pick(DIMS)]
        if k == 6:
            return ["m", self.P(dep - 1), "align", d.pick(
                [None, "xyz", "x", "y", "z", "xz", "zx", "yz", "zyx"])]
        if k == 7:
            return ["m", self.P(dep - 1), "apply",
                    self.O(dep - 1) if d.flip(70) else self.A(dep - 1)]
        if k <= 9:
            return ["m", self.P(dep - 1), "local",
                    [self.R(dep - 1), self.some(["left", "up", "front"], 60,
                                                False)]]
        if k == 10:
            return ["fn", self.fn("P"), self.P(dep - 1),
                    d.pick(["abs", "offset"]), self.fnargs()]
        return ["m", self.P(dep - 1), d.pick(["abs", "offset", "offset"]),
                self.some("xyz")]

    def fn(self, t):
        return "fn"

    def fnargs(self):
        return [[d, self.num()] for d in "xyz" if self.d.flip()]

    def O(self, dep=2):
        d = self.d
        k = d.int(0, 9)
        if dep > 0 and k <= 2 and self.consts["O"]:
            return ["var", d.pick(self.consts["O"])]
        if dep > 0 and k <= 5:
            b = self.O(dep - 1)
            if not self.is_local(b):
                return ["m", b, d.pick(["abs", "offset"]), self.some("xyz")]
            return b
        if k == 6:
            return ["loc", self.some(["left", "up", "front"], 70, False)]
        args = []
        for a in "xyz":
            r = d.int(0, 3)
            if r == 1:
                args.append([a, self.num()])
            elif r == 2:
                args.append([a + "_abs", self.num()])
            elif r == 3 and d.flip(20):
                args.append([d.pick([a, a + "_abs"]), ["none"]])
        args.sort(key=lambda p: len(p[0]))
        return ["off", args]

    def is_local(self, e):
        if e[0] == "var":
            return e[1] in getattr(self, "locals", ())
        return e[0] == "loc" or (e[0] == "m" and self.is_local(e[1]))

    def A(self, dep=2):
        d = self.d
        k = d.int(0, 5)
        if dep > 0 and k <= 1 and self.consts["A"]:
            return ["var", d.pick(self.consts["A"])]
        if dep > 0 and k <= 3:
            return ["m", self.A(dep - 1), d.pick(["abs", "offset"]),
                    self.some("xyz")]
        return ["abs", [self.num() for _ in range(3)]]

    def R(self, dep=2):
        d = self.d
        k = d.int(0, 9)
        if dep > 0 and k <= 1 and self.consts["R"]:
            return ["var", d.pick(self.consts["R"])]
        if dep > 0 and k <= 4:
            return ["m", self.R(dep - 1), d.pick(["abs", "offset"]),
                    self.some(["vertical", "horizontal"], 60, True,
                              self.ang)]
        if k <= 6 and self.ents:
            return ["rent", d.pick(self.ents)]
        if k == 7 and self.ents:
            return ["rface", d.pick(self.ents), d.pick(ANCH)]
        return ["rabs", self.ang(), self.ang()]

    def AP(self, dep=3):
        """Something usable as a position"""
        return self.A(2) if self.d.flip(20) else self.P(dep)

    def AO(self, dep=2):
        return self.A(2) if self.d.flip(20) else self.O(dep)


def fl(v):
    if isinstance(v, int):
        return str(v)
    s = format(abs(v), ".6f").rstrip("0")
    s += "0" if s.endswith(".") else ""
    return "-" + s if v < 0 else s


def rnum(e):
    k = e[0]
    if k in ("i", "f"):
        s = fl(e[1])
        return s
    if k == "none":
        return "None"
    if k == "c":
        return e[1]
    if k == "attr":
        return "%s.%s" % (rv(e[1]), e[2])
    return "(%s %s %s)" % (rnum(e[1]), e[0],
                           "(%s)" % rnum(e[2]) if rnum(e[2])[0] == "-"
                           else rnum(e[2]))


def rargs(args, names, pos=0):
    """The first `pos` arguments are written positionally if they are the
    first parameters."""
    out = []
    for i, (n, e) in enumerate(args):
        if i < pos and i < len(names) and n == names[i] and \
                all("=" not in o for o in out):
            out.append(rnum(e))
        else:
            out.append("%s=%s" % (n, rnum(e)))
    return ", ".join(out)


def rv(e, style=2):
    k = e[0]
    if k == "var":
        return e[1]
    if k == "idx":
        return "%s[%d]" % (e[1], e[2])
    if k == "pos":
        return "Pos(%s)" % ", ".join(map(rnum, e[1]))
    if k == "abs":
        return "AbsPos(%s)" % ", ".join(map(rnum, e[1]))
    if k == "ent":
        return "Pos(%s)" % e[1] if e[2] is None else \
            'Pos(%s, "%s")' % (e[1], e[2])
    if k == "off":
        return "Offset(%s)" % rargs(e[1], "xyz", 3)
    if k == "loc":
        return "Offset.local(%s)" % rargs(e[1], ["left", "up", "front"], 1)
    if k == "rent":
        return "Rot(%s)" % e[1]
    if k == "rabs":
        return "Rot(%s, %s)" % (rnum(e[1]), rnum(e[2]))
    if k == "rface":
        return "Rot.face_entity(%s%s)" % (
            e[1], "" if e[2] is None else ', "%s"' % e[2])
    if k == "fn":
        return "%s_%s(%s%s)" % (e[1], e[3], rv(e[2]), "".join(
            ", %s=%s" % (n, rnum(a)) for n, a in e[4]))
    if k == "m":
        b = rv(e[1])
        m, a = e[2], e[3]
        if m == "dim":
            return '%s.dim("%s")' % (b, a)
        if m == "align":
            return "%s.align(%s)" % (b, "" if a is None else '"%s"' % a)
        if m == "apply":
            return "%s.apply(%s)" % (b, rv(a))
        if m == "local":
            r = rargs(a[1], ["left", "up", "front"], 3)
            return "%s.local(%s%s)" % (b, rv(a[0]), ", " + r if r else "")
        names = ["vertical", "horizontal"] if a and a[0][0] in (
            "vertical", "horizontal") else "xyz"
        return "%s.%s(%s)" % (b, m, rargs(a, names, 3))
    raise AssertionError(e)


CONST_FNS = """const def fn_abs(p, x = None, y = None, z = None) -> Any:
    result p.abs(x, y, z)
const def fn_offset(p, x = None, y = None, z = None) -> Any:
    result p.offset(x, y, z)
"""
