"""P23: positions, offsets and rotations denote the places they describe."""
from ..core import Check, Skip, need
from ..h import build, execute, same, try_build
from .. import static
from ..mcvm import Ctx, Ent
from .. import wlang as W

RULE = ("at least three commands act at places that depend on an entity, a "
        "rotation or another position value; or a program that must be "
        "refused")
ASSUMPTIONS = [
    "the first number of a rotation is the first number of Minecraft's "
    "`rotated` (the documentation contradicts itself on its name)",
    "coordinates of world commands depend on the execution context as "
    "documented for Minecraft",
]
PRE = """import world
eg := ExternEngroup()
"""


class Gen:
    def __init__(self, d):
        self.d = d
        self.n = d.int(1, 3)
        self.v = W.VGen(d, ["e%d" % i for i in range(self.n)])
        self.v.locals = set()
        self.mark = 0
        self.fns = []
        self.hooks = []

    def m(self):
        self.mark += 1
        return "m%d" % self.mark

    def const(self):
        d, v = self.d, self.v
        t = d.pick("PPPOOARRN")
        e = getattr(v, t)() if t != "N" else v.num(2)
        n = v.fresh("c" + t.lower())
        v.consts[t].append(n)
        if t == "O" and v.is_local(e):
            v.locals.add(n)
        return ["const", n, t, e]

    def stmt(self, dep=2):
        d, v = self.d, self.v
        k = d.int(0, 17)
        if k <= 2:
            return self.obs()
        if k == 3:
            return self.const_local() if dep < 2 else self.const()
        if k == 4 and dep == 2:
            es = [v.P(2) for _ in range(d.int(1, 3))]
            n = v.fresh("l")
            v.lists.append((n, ["P"] * len(es)))
            return ["list", n, es]
        if k == 5:
            es = [v.AP(2) for _ in range(d.int(1, 3))]
            return ["each", v.fresh("q"), es, self.m()]
        if k == 6 and self.fns and dep:
            return ["call", d.pick(self.fns)]
        if k == 7 and dep == 2:
            self.hooks.append(self.scene())
            return ["hook", len(self.hooks) - 1]
        if k == 8 and dep:
            x = v.fresh("x")
            v.ents.append(x)
            b = self.body(dep - 1)
            v.ents.remove(x)
            return ["for", x, b]
        if k == 9:
            return ["isblock", v.AP(), d.pick(["b1", "b2", "b1"]),
                    self.m(), self.m()]
        if k == 10:
            return ["same", v.AP(2), self.small(), self.small(),
                    d.flip(), self.m(), self.m()]
        if k >= 15:
            # a derived value does not change the one it came from
            t = d.pick("PORA")
            if v.consts[t]:
                return self.twice(t, ["var", d.pick(v.consts[t])])
        if k == 11:
            return ["inl", v.AP(), v.AO() if d.flip() else None, self.m()]
        return self.obs()

    def twice(self, t, e):
        d, v = self.d, self.v
        if t == "P":
            m = d.pick(["abs", "offset", "dim", "align", "apply", "local"])
            a = {"dim": lambda: d.pick(W.DIMS), "align": lambda: "y",
                 "apply": v.O, "local": lambda: [v.R(1), [
                     ["front", v.num()]]]}.get(m, lambda: v.some("xyz"))()
        else:
            m = d.pick(["abs", "offset"])
            a = v.some(["vertical", "horizontal"] if t == "R" else "xyz")
        if t == "O" and v.is_local(e):
            m = None
        new = ["m", e, m, a] if m else e
        out = []
        for x in d.shuffle([new, e]):
            if t in "PA":
                out.append(["setblock", x, self.m()])
            elif t == "O":
                out.append(["fill", v.P(1), x, self.m()])
            else:
                out.append(["setblock", ["m", v.P(1), "local",
                                         [x, [["front", v.num()]]]],
                            self.m()])
        return ["seq", out]

    def small(self):
        d = self.d
        return ["off", [[a, ["i", d.int(-2, 2)]] for a in "xyz"
                        if d.flip(60)]]

    def const_local(self):
        return self.obs()

    def body(self, dep):
        return [self.stmt(dep) for _ in range(self.d.int(1, 3))]

    def obs(self):
        d, v = self.d, self.v
        k = d.int(0, 11)
        if k <= 3:
            return ["setblock", v.AP(), self.m()]
        if k <= 5:
            return ["fill", v.AP(), v.AO(), self.m()]
        if k == 6:
            return ["clone", v.AP(2), v.AO(), v.AO()]
        if k == 7:
            return ["tp", d.pick(self.v.ents), v.AP()]
        if k == 8:
            return ["rotate", d.pick(self.v.ents + ["eg"]), v.R(3)]
        if k == 9:
            return ["summon", self.m(), v.AP(), v.R() if d.flip() else None]
        if k == 10:
            return ["spread", d.pick(self.v.ents + ["eg"]), v.AP(),
                    d.int(8, 40) / 4.0, d.int(0, 4) / 4.0]
        return ["spawn", v.AP()]

    def scene(self):
        d = self.d
        out = []
        for i in range(self.n):
            out.append(None if d.flip(8) else [
                d.int(-80, 80) / 4.0, d.int(0, 400) / 4.0,
                d.int(-80, 80) / 4.0, d.int(-180, 180) * 1.0,
                d.int(-90, 90) * 1.0, d.pick(W.DIMS)])
        return out

    def program(self):
        d = self.d
        self.hooks.append([x or [1.0, 2.0, 3.0, 0.0, 0.0, "overworld"]
                           for x in self.scene()])
        items = []
        for _ in range(d.int(3, 10)):
            if d.flip(18):
                n = self.v.fresh("f")
                items.append(["func", n, self.body(1)])
                self.fns.append(n)
            else:
                items.append(self.stmt(2))
        blocks = [[d.int(-3, 3), d.int(-3, 3), d.int(-3, 3),
                   d.pick(W.DIMS), d.pick(["b1", "b2"])]
                  for _ in range(d.int(0, 12))]
        return {"n": self.n, "items": items, "hooks": self.hooks,
                "blocks": blocks, "typed": d.flip(30)}


def render(case):
    out = [PRE + W.CONST_FNS + "inline def put(const p: Pos, const m, "
           "const o: Offset = Offset()):\n    world.fill(p, o, m)"]
    for i in range(case["n"]):
        out.append("g%d := ExternEngroup()" % i)
        out.append('g%d.select(Enfilter().has_tag("t%d"))' % (i, i))
        out.append("e%d := g%d.to_single()" % (i, i))
    out.append('eg.select(Enfilter().has_tag("all"))')

    def blk(b, i):
        for s in b:
            st(s, i)

    def st(s, i):
        I = "    " * i
        k = s[0]
        if k == "const":
            out.append(I + "const %s = %s" % (
                s[1], W.rnum(s[3]) if s[2] == "N" else W.rv(s[3])))
        elif k == "list":
            out.append(I + "const %s = {%s}" % (s[1], ", ".join(
                map(W.rv, s[2]))))
        elif k == "each":
            out.append(I + "for %s in {%s}:" % (s[1], ", ".join(
                map(W.rv, s[2]))))
            out.append(I + '    world.setblock(%s, "%s")' % (s[1], s[3]))
        elif k == "call":
            out.append(I + s[1] + "()")
        elif k == "seq":
            blk(s[1], i)
        elif k == "hook":
            out.append(I + "/scriptevent hook:%d" % s[1])
        elif k == "for":
            out.append(I + "for %s in eg:" % s[1])
            blk(s[2], i + 1)
        elif k == "func":
            out.append(I + "def %s():" % s[1])
            blk(s[2], i + 1)
        elif k in ("isblock", "same"):
            if k == "isblock":
                c = 'world.is_block(%s, "%s")' % (W.rv(s[1]), s[2])
            else:
                c = "world.is_same_area(%s, %s, %s%s)" % (
                    W.rv(s[1]), W.rv(s[2]), W.rv(s[3]),
                    ", ignore_air=True" if s[4] else "")
            out.append(I + "if %s:" % c)
            out.append(I + '    world.setblock(Pos(0, 0, 0), "%s")' % s[-2])
            out.append(I + "else:")
            out.append(I + '    world.setblock(Pos(0, 0, 0), "%s")' % s[-1])
        elif k == "inl":
            out.append(I + 'put(%s, "%s"%s)' % (
                W.rv(s[1]), s[3], "" if s[2] is None else
                ", o=" + W.rv(s[2])))
        elif k == "setblock":
            out.append(I + 'world.setblock(%s, "%s")' % (W.rv(s[1]), s[2]))
        elif k == "fill":
            out.append(I + 'world.fill(%s, %s, "%s")' % (
                W.rv(s[1]), W.rv(s[2]), s[3]))
        elif k == "clone":
            out.append(I + "world.clone(%s, %s, %s)" % tuple(
                map(W.rv, s[1:4])))
        elif k == "tp":
            out.append(I + "world.tp(%s, %s)" % (s[1], W.rv(s[2])))
        elif k == "rotate":
            out.append(I + "world.rotate(%s, %s)" % (s[1], W.rv(s[2])))
        elif k == "summon":
            out.append(I + 'world.summon("%s", %s%s)' % (
                s[1], W.rv(s[2]), "" if s[3] is None else
                ", rot=" + W.rv(s[3])))
        elif k == "spread":
            out.append(I + "world.spread(%s, %s, %s, %s)" % (
                s[1], W.rv(s[2]), s[3], s[4]))
        elif k == "spawn":
            out.append(I + "world.spawnpoint_set(e0, %s)" % W.rv(s[1]))
        else:
            raise AssertionError(s)
    blk(case["items"], 0)
    return "\n".join(out) + "\n"


class Model(W.Mod):
    def __init__(self, case):
        super().__init__()
        self.case = case
        self.v = W.Vals()
        self.ev = []
        self.base = Ctx()
        self.fn = {}
        self.rel = 0
        n = case["n"]
        self.names = ["e%d" % i for i in range(n)]
        self.uid = n
        for i in range(n):
            self.ents["e%d" % i] = Ent(i + 1, "cow")
        self.blocks = {(tuple(b[:3]), b[3]): (b[4], {})
                       for b in case["blocks"]}
        self.vm = W.WVM({})
        self.vm.blocks = self.blocks

    def scene(self, i):
        for n, s in zip(self.names, self.case["hooks"][i]):
            e = self.ents[n]
            if e is None:
                continue
            if s is None:
                self.ents[n] = None
            else:
                e.x, e.y, e.z, e.yrot, e.xrot, e.dim = s

    def group(self):
        return [self.ents[n] for n in self.names if self.ents[n] is not None]

    def pos(self, e):
        ops = self.v.as_pos(self.v.ev(e))
        if len(ops) > 1 or ops[0][0] == "at":
            self.rel += 1
        return self.use(ops, self.base)

    def off(self, e, c):
        return W.pt(self.offset(self.v.as_off(self.v.ev(e)), c))

    def block(self, b):
        for s in b:
            self.st(s)

    def place(self, m):
        self.ev.append(("setblock", (0.5, 0.0, 0.5), "overworld",
                        (m, ()), "replace"))

    def st(self, s):
        k = s[0]
        v = self.v
        if k == "const":
            v.env[s[1]] = v.num(s[3]) if s[2] == "N" else v.ev(s[3])
        elif k == "list":
            v.env[s[1]] = [v.ev(e) for e in s[2]]
        elif k == "each":
            for e in s[2]:
                self.st(["setblock", e, s[3]])
        elif k == "call":
            self.block(self.fn[s[1]])
        elif k == "func":
            self.fn[s[1]] = s[2]
        elif k == "seq":
            self.block(s[1])
        elif k == "hook":
            self.scene(s[1])
        elif k == "for":
            for e in self.group():
                self.ents[s[1]] = e
                self.block(s[2])
                del self.ents[s[1]]
        elif k == "isblock":
            c = self.pos(s[1])
            ok = c is not None and self.vm.is_block(tuple(
                W.math.floor(x) for x in c.pos), c.dim, s[2])
            self.place(s[-2] if ok else s[-1])
        elif k == "same":
            c = self.pos(s[1])
            ok = c is not None and self.vm.same_area(
                [c.pos] + [self.offset(v.as_off(v.ev(e)), c)
                           for e in s[2:4]], c.dim,
                "masked" if s[4] else "all")
            self.place(s[-2] if ok else s[-1])
        elif k == "inl":
            self.st(["fill", s[1], s[2] or ["off", []], s[3]])
        elif k in ("setblock", "fill", "clone", "summon", "spawn"):
            c = self.pos(s[2] if k == "summon" else s[1])
            if c is None:
                return
            p = W.pt(c.pos)
            if k == "setblock":
                self.ev.append((k, p, c.dim, (s[2], ()), "replace"))
            elif k == "fill":
                self.ev.append((k, p, self.off(s[2], c), c.dim,
                                (s[3], ()), "replace", None))
            elif k == "clone":
                self.ev.append((k, p, self.off(s[2], c), self.off(s[3], c),
                                c.dim, "replace", "normal", None))
            elif k == "spawn":
                self.ev.append(("spawnpoint", (), p, c.dim))
            else:
                rot = (0.0, 0.0)
                if s[3] is not None:
                    r = self.use(v.ev(s[3])[1], c)
                    if r is None:
                        return
                    rot = W.pt((r.yrot, r.xrot))
                self.uid += 1
                self.ev.append((k, self.uid, s[1], p, c.dim, rot, None, None))
        elif k in ("tp", "spread"):
            c = self.pos(s[2])
            if c is None:
                return
            es = self.group() if s[1] == "eg" else \
                [e for e in [self.ents[s[1]]] if e is not None]
            if k == "spread":
                self.ev.append(("spreadplayers", W.fr(c.x), W.fr(c.z), c.dim,
                                W.fr(s[4]), W.fr(s[3]),
                                tuple(e.uid for e in es)))
                return
            for e in es:
                e.x, e.y, e.z = c.pos
                e.dim = c.dim
            if es:
                self.ev.append((k, tuple(e.uid for e in es), W.pt(c.pos),
                                c.dim, None, False))
        elif k == "rotate":
            es = self.group() if s[1] == "eg" else \
                [e for e in [self.ents[s[1]]] if e is not None]
            todo = []
            ops = v.ev(s[2])[1]
            for e in es:
                c = self.base.clone()
                c.x, c.y, c.z = e.pos
                c.yrot, c.xrot, c.dim = e.yrot, e.xrot, e.dim
                c = self.use(ops, c)
                if c is not None:
                    todo.append((e, c))
            for e, c in todo:
                e.yrot, e.xrot = c.yrot, c.xrot
                self.ev.append(("tp", (e.uid,), W.pt(c.pos), c.dim,
                                W.pt((c.yrot, c.xrot)), False))
        else:
            raise AssertionError(s)


def setup(case):
    def f(vm):
        for i in range(case["n"]):
            e = vm.add_ent("cow")
            e.tags |= {"t%d" % i, "all"}
        vm.byname = list(vm.ents)

        def scene(i):
            def go(vm):
                for e, s in zip(vm.byname, case["hooks"][i]):
                    if s is None:
                        vm.remove_ent(e)
                    elif e.alive:
                        e.x, e.y, e.z, e.yrot, e.xrot, e.dim = s
            return go
        for i in range(len(case["hooks"])):
            vm.hooks["hook:%d" % i] = scene(i)
        vm.hooks["hook:0"](vm)
        vm.blocks = {(tuple(b[:3]), b[3]): (b[4], {})
                     for b in case["blocks"]}
    return f


def close(a, b):
    """Equal up to rounding of numbers."""
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-4 + 1e-7 * abs(a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(close, a, b))
    return a == b


def run(case):
    src = render(case)
    b = build(src, mc_version=(1, 20, 10))
    static.lint(b, False, src=src)
    vm = W.WVM(b.files)
    setup(case)(vm)
    execute(b, vm=vm, src=src)
    m = Model(case)
    m.scene(0)
    m.block(case["items"])
    got, want = vm.events, m.ev
    for x, y in zip(got, want):
        if not close(tuple(x), tuple(y)):
            same(x, y, "effect of a command", src + str(case["hooks"]), b)
    same(len(got), len(want), "number of commands that act", src + str(
        case["hooks"]), b)
    return {"nontrivial": m.rel >= 3, "tags": []}


def g(d):
    return Gen(d).program()


# --- refusals ----------------------------------------------------------------

BPRE = PRE + """e := eg.to_single()
n := 3
b := True
"""
OKS = ["const p = Pos(1, 2, 3)", "const p = Pos(e)", 'const p = Pos(e, "eyes")',
       "const p = Pos(e).offset(x=1, y=2.5, z=3)",
       "const p = AbsPos(1, 2, 3)", "const p = Offset()",
       "const p = Offset(1, z_abs=2)", "const p = Offset(x=1, y_abs=2)",
       "const p = Offset(None, x_abs=3)", "const p = Offset.local(1)",
       "const p = Rot(1, 2.5)", "const p = Rot(e)",
       'const p = Rot.face_entity(e, "eyes")',
       "const p = Pos(1, 2, 3).abs(1, None, 2)",
       'const p = Pos(1, 2, 3).align("zx")', "world.tp(e, AbsPos(1, 2, 3))",
       "world.fill(AbsPos(1, 2, 3), AbsPos(1, 2, 4), \"x\")",
       "const p = AbsPos(1, 2, 3).x + 1.5",
       "const p = Pos(1, 2, 3).local(Rot(1, 2))",
       "const p = Rot(1, 2).abs(None, 3)"]
BADS = ["const p = Pos()", "const p = Pos(1, 2)", "const p = Pos(1, 2, 3, 4)",
        "const p = Pos(n, 2, 3)", "const p = Pos(1, n, 3)",
        "const p = Pos(1, 2, True)", 'const p = Pos("1", 2, 3)',
        'const p = Pos(e, "nose")', "const p = Pos(e, 1)", "const p = Pos(eg)",
        'const p = Pos(e, "Eyes")', "const p = Pos(None)",
        "const p = Pos(1, None, 3)",
        "const p = AbsPos()", "const p = AbsPos(e)", "const p = AbsPos(1, 2)",
        "const p = AbsPos(1, n, 3)", "const p = AbsPos(1, 2, None)",
        "const p = Offset(1, x_abs=2)", "const p = Offset(y=1, y_abs=2)",
        "const p = Offset(z=0, z_abs=0.0)", "const p = Offset(n)",
        "const p = Offset(1, 2, 3, 4)", "const p = Offset(True)",
        "const p = Offset(w=1)", 'const p = Offset("1")', "const p = Offset(e)",
        "const p = Offset.local(n)", "const p = Offset.local(None)",
        "const p = Offset.local(1, 2, 3, 4)", "const p = Rot()",
        "const p = Rot(1)", "const p = Rot(n, 2)", "const p = Rot(1, b)",
        "const p = Rot(1, 2, 3)", "const p = Rot(eg)", "const p = Rot(None, 1)",
        'const p = Rot.face_entity(e, "head")', "const p = Rot.face_entity()",
        "const p = Rot.face_entity(eg)", "const p = Rot.face_entity(Pos(e))",
        'const p = Pos(1, 2, 3).align("xx")', 'const p = Pos(1, 2, 3).align("")',
        'const p = Pos(1, 2, 3).align("w")', "const p = Pos(1, 2, 3).align(1)",
        'const p = Pos(1, 2, 3).align("x z")',
        'const p = Pos(1, 2, 3).align("X")',
        "const p = Pos(1, 2, 3).dim(1)", "const p = Pos(1, 2, 3).dim()",
        "const p = Pos(1, 2, 3).apply(Pos(1, 2, 3))",
        "const p = Pos(1, 2, 3).apply()", "const p = Pos(1, 2, 3).apply(1)",
        "const p = Pos(1, 2, 3).local()", "const p = Pos(1, 2, 3).local(1)",
        "const p = Pos(1, 2, 3).local(Rot(1, 2), None)",
        "const p = Pos(1, 2, 3).local(Rot(1, 2), n)",
        "const p = Pos(1, 2, 3).local(Pos(1, 2, 3))",
        "const p = Pos(1, 2, 3).offset(n)", "const p = Pos(1, 2, 3).abs(b)",
        "const p = Pos(1, 2, 3).abs(w=1)", "const p = Pos(1, 2, 3).x",
        "const p = Pos(1, 2, 3) + Pos(1, 2, 3)",
        "const p = AbsPos(1, 2, 3).dim(\"nether\")",
        "const p = AbsPos(1, 2, 3).align()", "const p = AbsPos(1, 2, 3).w",
        "const p = AbsPos(1, 2, 3).apply(Offset())",
        "const p = AbsPos(1, 2, 3).local(Rot(1, 2))",
        "const p = Rot(1, 2).local(1)", "const p = Rot(1, 2).abs(n)",
        "const p = Rot(1, 2).offset(1, 2, 3)", "const p = Rot(1, 2).dim(\"x\")",
        "p := Pos(1, 2, 3)", "p := Rot(1, 2)", "p := Offset()",
        "p := AbsPos(1, 2, 3)", "p: Pos", "n = Pos(1, 2, 3)",
        "world.tp(e, Offset())", "world.tp(e, Rot(1, 2))", "world.tp(e, e)",
        'world.fill(Pos(1, 2, 3), Pos(1, 2, 4), "x")',
        'world.fill(Offset(), Offset(), "x")',
        "world.rotate(e, Pos(1, 2, 3))", "world.rotate(e, Offset())",
        "b = Pos(1, 2, 3) == Pos(1, 2, 3)", "if Pos(1, 2, 3):\n    pass"]


def g_bad(d):
    return {"ok": d.pick(OKS), "bad": d.pick(BADS)}


def run_bad(case):
    good = BPRE + case["ok"] + "\n"
    out, r = try_build(good)
    need(out == "ok", "valid position refused: %s\n%s",
         r.text if out != "ok" else "", good)
    out, r = try_build(BPRE + case["bad"] + "\n")
    need(out == "rejected", "invalid position accepted\n%s", case["bad"])
    return {"nontrivial": True, "tags": ["refused"]}


CHECKS = [
    Check("places", g, run, 6000, 120000),
    Check("refused", g_bad, run_bad, 500, 3000),
]
