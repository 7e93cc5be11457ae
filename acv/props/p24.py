"""P24: every call of the world module is the game action it documents."""
import json

from ..core import Check, need
from ..h import build, execute, same, try_build
from .. import static
from ..mcvm import Ctx, Ent
from .. import wlang as W

RULE = ("at least four calls act on the world with non-default arguments; or "
        "a call that must be refused")
ASSUMPTIONS = [
    "the syntax of world commands is that of the Minecraft reference; "
    "omitted trailing arguments have their documented default",
    "`world.move` is precise to three decimals",
]

# A parameter: (name, kind, default) -- REQ: no default
REQ = object()
NONE = ["none"]

IDS = ["stone", "minecraft:dirt", "my:thing", "oak_log"]
ENUM = {
    "clonemode": [None, "move", "force"],
    "repl": ["destroy", "hollow", "outline", "aironly", "all"],
    "repl1": ["aironly", "destroy", "all"],
    "fillr": ["if_group_fits", "until_full"],
    "ridem": ["skip_riders", "no_ride_change", "reassign_rides"],
    "gm": ["survival", "creative", "adventure", "spectator", "default"],
    "lock": [None, "lock_in_slot", "lock_in_inventory"],
}
RANGE = {"u": (0, None), "byte": (0, 255), "pos1": (1, None),
         "int": (None, None), "m1": (-1, None), "stack": (1, 32767),
         "data": (0, 32767)}

SPEC = {
    "clone": [("origin", "P", REQ), ("offset", "O", REQ), ("dest", "O", REQ),
              ("mode", "clonemode", None), ("no_air", "bool", False)],
    "clone_only": [("origin", "P", REQ), ("offset", "O", REQ),
                   ("dest", "O", REQ), ("block", "block", REQ),
                   ("mode", "clonemode", None)],
    "fill": [("origin", "P", REQ), ("offset", "O", REQ),
             ("block", "block", REQ), ("replacement", "repl", "all")],
    "fill_replace": [("origin", "P", REQ), ("offset", "O", REQ),
                     ("block", "block", REQ), ("replaces", "block", REQ)],
    "setblock": [("pos", "P", REQ), ("block", "block", REQ),
                 ("replacement", "repl1", "all")],
    "damage": [("target", "sel", REQ), ("amount", "u", REQ),
               ("cause", "nid", None), ("damager", "nent", None)],
    "effect_give": [("target", "sel", REQ), ("effect", "id", REQ),
                    ("duration", "u", REQ), ("amplifier", "byte", 0),
                    ("particle", "bool", True)],
    "effect_clear": [("target", "sel", REQ)],
    "enchant": [("target", "sel", REQ), ("enchantment", "id", REQ),
                ("level", "pos1", 1)],
    "event_entity": [("target", "sel", REQ), ("event", "id", REQ)],
    "kill": [("target", "sel", REQ)],
    "msg_me": [("sender", "ent", REQ), ("message", "msg", REQ)],
    "replaceitem_block": [("pos", "P", REQ), ("slot", "int", REQ),
                          ("item", "item", REQ), ("amount", "pos1", 1),
                          ("keep_old", "bool", False)],
    "replaceitem_entity": [("target", "sel", REQ), ("location", "id", REQ),
                           ("slot", "int", REQ), ("item", "item", REQ),
                           ("amount", "pos1", 1), ("keep_old", "bool", False)],
    "ride_start_tp_ride": [("rider", "ent", REQ), ("ride", "ent", REQ)],
    "ride_start_tp_rider": [("rider", "sel", REQ), ("ride", "ent", REQ),
                            ("fill", "fillr", "until_full")],
    "ride_stop": [("rider", "sel", REQ)],
    "ride_evict_riders": [("ride", "sel", REQ)],
    "summon_rider": [("ride", "sel", REQ), ("type", "id", REQ),
                     ("event", "nid", None), ("name", "nname", None)],
    "summon_ride": [("rider", "sel", REQ), ("type", "id", REQ),
                    ("event", "nid", None), ("name", "nname", None),
                    ("mode", "ridem", "reassign_rides")],
    "msg_say": [("sender", "ent", REQ), ("message", "msg", REQ)],
    "spread": [("target", "sel", REQ), ("center", "P", REQ),
               ("range", "range", REQ), ("interval", "ival", 0.0)],
    "summon": [("type", "id", REQ), ("pos", "P", REQ), ("event", "nid", None),
               ("name", "nname", None), ("rot", "R", None)],
    "tag_add": [("target", "sel", REQ), ("tag", "name", REQ)],
    "tag_remove": [("target", "sel", REQ), ("tag", "name", REQ)],
    "msg_tell": [("sender", "ent", REQ), ("receiver", "sel", REQ),
                 ("message", "msg", REQ)],
    "tp": [("target", "sel", REQ), ("dest", "P", REQ),
           ("check_for_blocks", "bool", False)],
    "rotate": [("target", "sel", REQ), ("rot", "R", REQ)],
    "move": [("target", "sel", REQ), ("x", "f3", 0.0), ("y", "f3", 0.0),
             ("z", "f3", 0.0), ("check_for_blocks", "bool", False)],
    "move_local": [("target", "sel", REQ), ("left", "f3", 0.0),
                   ("up", "f3", 0.0), ("front", "f3", 0.0),
                   ("check_for_blocks", "bool", False)],
    "ability": [("player", "pl", REQ), ("ability", "id", REQ),
                ("value", "bool", REQ)],
    "clear_inventory": [("player", "pl", REQ)],
    "clear": [("player", "pl", REQ), ("item_id", "id", REQ),
              ("item_data", "m1", -1), ("max_count", "m1", -1)],
    "spawnpoint_clear": [("player", "pl", REQ)],
    "gamemode": [("player", "pl", REQ), (None, "gm", REQ)],
    "give": [("player", "pl", REQ), ("item", "item", REQ),
             ("amount", "stack", 1)],
    "kick": [("player_name", "name", REQ), ("reason", "nmsg", None)],
    "recipe": [("player", "pl", REQ), ("recipe", "rec", REQ),
               ("unlock", "bool", REQ)],
    "spawnpoint_set": [("player", "pl", REQ), ("pos", "P", REQ)],
    "xp_add_levels": [("player", "pl", REQ), ("amount", "int", REQ)],
    "xp_add_points": [("player", "pl", REQ), ("amount", "u", REQ)],
    "is_block": [("pos", "P", REQ), ("block", "block", REQ)],
    "is_same_area": [("pos", "P", REQ), ("offset", "so", REQ),
                     ("other", "so", REQ), ("ignore_air", "bool", False)],
}
ITEM = [("id", "id", REQ), ("data", "data", 0),
        ("keep_on_death", "bool", False), ("can_destroy", "ids", []),
        ("can_place_on", "ids", []), ("lock", "lock", None)]
BLOCK = [("id", "id", REQ), ("states", "states", {})]
CONDS = ("is_block", "is_same_area")

PRE = "import world\neg := ExternEngroup()\npg := ExternEngroup()\n"


class Gen:
    def __init__(self, d):
        self.d = d
        self.n = d.int(1, 3)      # cows
        self.p = d.int(1, 2)      # players
        self.ents = ["e%d" % i for i in range(self.n + self.p)]
        self.v = W.VGen(d, self.ents)
        self.v.locals = set()
        self.mark = 0
        self.ver = d.pick([(1, 20, 10), (1, 19, 50), (1, 19, 70), (1, 20, 0),
                           (1, 20, 30)])
        self.consts = []      # (name, kind, value)

    def m(self):
        self.mark += 1
        return "m%d" % self.mark

    def value(self, kind):
        """-> JSON value in terms of the kind"""
        d, v = self.d, self.v
        if kind in ENUM:
            return d.pick(ENUM[kind])
        if kind in RANGE:
            lo, hi = RANGE[kind]
            lo = -2 ** 31 if lo is None else lo
            hi = 2 ** 31 - 1 if hi is None else hi
            return d.pick([lo, hi, d.int(max(lo, -20), min(hi, 40)),
                           d.int(max(lo, -20), min(hi, 40)), d.int(
                               max(lo, -99999), min(hi, 99999))])
        if kind == "P":
            return v.AP(2)
        if kind == "O":
            return v.AO(2)
        if kind == "so":
            return ["off", [[a, ["i", d.int(-2, 2)]] for a in "xyz"
                            if d.flip(60)]]
        if kind == "R":
            return v.R(2)
        if kind == "bool":
            return d.flip()
        if kind == "id":
            return d.pick(IDS + ["_x.%d" % d.int(0, 9)])
        if kind == "nid":
            return None if d.flip(30) else self.value("id")
        if kind in ("name", "nname"):
            if kind == "nname" and d.flip(30):
                return None
            return d.pick(["bob", "Two Words", 'q"uote', "back\\slash",
                           "a,b=c", "x]y", "~1", "@a", "\u00e9\u4e2d", "12",
                           "-3", "true", "*", "a:b", "tag!"])
        if kind in ("msg", "nmsg"):
            if kind == "nmsg" and d.flip(30):
                return None
            return d.pick(["hello", "two  words", 'say "hi"', "@a [x] \\ {}",
                           "100%", "%s", "\u00e9\u4e2d!", "run kill @a",
                           "a ' b", "${x}"])
        if kind == "rec":
            return d.pick(["*", "minecraft:axe", "bed"])
        if kind == "range":
            return d.pick([1, 1.0, 2.5, d.int(4, 40) / 4.0, d.int(1, 40)])
        if kind == "ival":
            return 0.0
        if kind == "f3":
            return d.pick([d.int(-40, 40), d.int(-4000, 4000) / 8.0,
                           d.int(-9, 9) / 1000.0])
        if kind == "sel":
            return d.pick(v.ents + ["eg", "pg"])
        if kind == "pl":
            return d.pick(v.ents + ["eg", "pg"])
        if kind == "ent":
            return d.pick(v.ents)
        if kind == "nent":
            return None if d.flip() else d.pick(v.ents)
        if kind == "ids":
            return [self.value("id") for _ in range(d.int(0, 2))]
        if kind == "states":
            out = {}
            for _ in range(d.int(0, 3)):
                out[d.pick(["color", "my:st", "facing", "lit"])] = d.pick(
                    ["red", "a b", d.int(0, 9), True, False])
            return out
        if kind == "block":
            if d.flip():
                return self.value("id")
            return {"new": self.args(BLOCK)}
        if kind == "item":
            if d.flip():
                return self.value("id")
            return {"new": self.args(ITEM)}
        raise AssertionError(kind)

    def args(self, params):
        d = self.d
        out = []
        for name, kind, dflt in params:
            if dflt is not REQ and d.flip(40):
                continue
            out.append([name, kind, self.value(kind)])
        return out

    def call(self, name):
        d = self.d
        a = self.args(SPEC[name])
        given = {x[0]: x for x in a}
        if name == "damage" and given.get("damager", [0, 0, None])[2] \
                is not None and given.get("cause", [0, 0, None])[2] is None:
            a = [x for x in a if x[0] != "damager"]
        if name == "spread":
            r = given["range"][2]
            a = [x for x in a if x[0] != "interval"]
            if d.flip():
                a.append(["interval", "ival", d.pick(
                    [0.0, r - 1, d.int(0, int((r - 1) * 4)) / 4.0])])
        if name == "summon" and self.ver < (1, 19, 70):
            a = [x for x in a if x[0] != "rot"]
        npos = d.int(0, len(a))
        style = []
        ps = SPEC[name]
        for i, x in enumerate(a):
            ok = i < npos and i < len(ps) and ps[i][0] == x[0] and \
                all(s == "p" for s in style)
            style.append("p" if ok or x[0] is None else "k")
        if any(x[0] is None for x in a):
            k = [x[0] for x in a].index(None)
            style[:k + 1] = ["p"] * (k + 1)
        kw = [i for i, s in enumerate(style) if s == "k"]
        order = [i for i, s in enumerate(style) if s == "p"] + d.shuffle(kw)
        c = [name, [a[i] for i in order], len(a) - len(kw)]
        if d.flip(25):
            self.lift(c)
        return ["call", c] + ([self.m(), self.m()] if name in CONDS else [])

    def lift(self, c):
        """Give a literal by a compile-time constant"""
        d = self.d
        x = d.pick(c[1])
        if x[1] in RANGE or x[1] in ("id", "bool", "f3", "name", "msg") or \
                (x[1] in ENUM and x[2] is not None) or \
                (x[1] in ("block", "item") and isinstance(x[2], dict)):
            n = self.v.fresh("k")
            self.consts.append([n, x[1], x[2]])
            x.append(n)

    def stmt(self, dep=2):
        d, v = self.d, self.v
        k = d.int(0, 11)
        if k == 0 and dep == 2:
            t = d.pick("PORA")
            e = getattr(v, t)()
            n = v.fresh("c" + t.lower())
            v.consts[t].append(n)
            if t == "O" and v.is_local(e):
                v.locals.add(n)
            return ["const", n, t, e]
        if k == 1 and dep:
            x = v.fresh("x")
            v.ents.append(x)
            b = [self.stmt(dep - 1) for _ in range(d.int(1, 2))]
            v.ents.remove(x)
            return ["for", x, d.pick(["eg", "pg"]), b]
        if k == 2 and dep:
            return ["if", d.flip(70), [self.stmt(dep - 1)
                                       for _ in range(d.int(1, 2))]]
        if k == 3 and dep == 2:
            return ["inline", v.fresh("f"), [self.stmt(0) for _ in
                                             range(d.int(1, 2))], d.int(1, 2)]
        if k == 4 and dep == 2:
            return ["func", v.fresh("f"), [self.stmt(1) for _ in
                                           range(d.int(1, 2))], d.int(1, 2)]
        names = sorted(SPEC)
        # one kind of command must not hide the others
        c = d.pick(names)
        if c == "kill" and d.flip(70):
            c = d.pick(names)
        if c == "ability":
            c = d.pick(["ability", "give"])
        return self.call(c)

    def program(self):
        d = self.d
        items = [self.stmt() for _ in range(d.int(3, 9))]
        ents = []
        for i in range(self.n + self.p):
            ents.append([d.int(-80, 80) / 4.0, d.int(0, 400) / 4.0,
                         d.int(-80, 80) / 4.0, d.int(-180, 180) * 1.0,
                         d.int(-90, 90) * 1.0, d.pick(W.DIMS),
                         d.pick([[], ["bob"], ["Two Words", "12"], ["@a"]])])
        blocks = [[d.int(-3, 3), d.int(-3, 3), d.int(-3, 3),
                   d.pick(W.DIMS), d.pick(["stone", "oak_log"]),
                   d.pick([{}, {"color": "red"}, {"lit": True},
                           {"lit": 1, "facing": 3}])]
                  for _ in range(d.int(0, 12))]
        return {"n": self.n, "p": self.p, "items": items, "ents": ents,
                "blocks": blocks, "ver": list(self.ver),
                "consts": self.consts}


# --- rendering ---------------------------------------------------------------

def rstr(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace(
        "${", "\\${")


def rlit(v):
    if v is None:
        return "None"
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, (int, float)):
        return W.fl(v) if v != -2 ** 31 else "(-2147483647 - 1)"
    return rstr(v)


def rval(kind, v):
    if kind in ("P", "O", "R", "so"):
        return W.rv(v)
    if kind in ("sel", "pl", "ent"):
        return v
    if kind == "nent":
        return "None" if v is None else v
    if kind in ("block", "item") and isinstance(v, dict):
        return "world.%s(%s)" % (kind.capitalize(), ", ".join(
            ("" if i == 0 else n + "=") + rval(k, x)
            for i, (n, k, x) in enumerate(v["new"])))
    if kind == "ids":
        return "{%s}" % ", ".join(map(rstr, v))
    if kind == "states":
        return "{%s}" % (", ".join("%s: %s" % (rstr(k), rlit(x))
                                   for k, x in v.items()) or ":")
    return rlit(v)


def rcall(c):
    name, args, npos = c
    out = []
    for i, a in enumerate(args):
        s = a[3] if len(a) > 3 else rval(a[1], a[2])
        out.append(s if i < npos else "%s=%s" % (a[0], s))
    return "world.%s(%s)" % (name, ", ".join(out))


def render(case):
    out = [PRE + "one := 1\n" + W.CONST_FNS]
    for i in range(case["n"] + case["p"]):
        out.append("g%d := ExternEngroup()" % i)
        out.append('g%d.select(Enfilter().has_tag("t%d"))' % (i, i))
        out.append("e%d := g%d.to_single()" % (i, i))
    out.append('eg.select(Enfilter().has_tag("all"))')
    out.append('pg.select(Enfilter().has_tag("pp"))')
    for n, k, v in case["consts"]:
        out.append("const %s = %s" % (n, rval(k, v)))

    def blk(b, i):
        for s in b:
            st(s, i)

    def st(s, i):
        I = "    " * i
        k = s[0]
        if k == "const":
            out.append(I + "const %s = %s" % (s[1], W.rv(s[3])))
        elif k == "for":
            out.append(I + "for %s in %s:" % (s[1], s[2]))
            blk(s[3], i + 1)
        elif k == "if":
            out.append(I + "if one == %d:" % s[1])
            blk(s[2], i + 1)
        elif k in ("inline", "func"):
            out.append("%sdef %s():" % ("inline " if k == "inline" else "",
                                        s[1]))
            blk(s[2], 1)
            out.extend([s[1] + "()"] * s[3])
        elif len(s) == 2:
            out.append(I + rcall(s[1]))
        else:
            out.append(I + "if %s:" % rcall(s[1]))
            out.append(I + '    world.setblock(Pos(0, 0, 0), "%s")' % s[2])
            out.append(I + "else:")
            out.append(I + '    world.setblock(Pos(0, 0, 0), "%s")' % s[3])
    blk(case["items"], 0)
    return "\n".join(out) + "\n"


# --- model -------------------------------------------------------------------

class Model(W.Mod):
    def __init__(self, case):
        super().__init__()
        self.v = W.Vals()
        self.ev = []
        self.base = Ctx()
        self.acts = 0
        self.ver = tuple(case["ver"])
        self.all = []
        for i, x in enumerate(case["ents"]):
            e = Ent(i + 1, "player" if i >= case["n"] else "cow")
            e.x, e.y, e.z, e.yrot, e.xrot, e.dim = x[:6]
            e.tags |= set(x[6])
            self.ents["e%d" % i] = e
            self.all.append(e)
        self.uid = len(self.all)
        self.vm = W.WVM({})
        self.vm.blocks = blocks(case)

    def group(self, w):
        if w == "eg":
            return [e for e in self.all if e.alive]
        if w == "pg":
            return [e for e in self.all if e.alive and e.type == "player"]
        e = self.ents[w]
        return [e] if e is not None and e.alive else []

    def use(self, ops, ctx):
        dead = {k: e for k, e in self.ents.items()
                if e is not None and not e.alive}
        for k in dead:
            self.ents[k] = None
        try:
            return super().use(ops, ctx)
        finally:
            self.ents.update(dead)

    def place(self, m):
        self.ev.append(("setblock", (0.5, 0.0, 0.5), "overworld",
                        (m, ()), "replace"))

    def block_(self, b):
        for s in b:
            self.st(s)

    def st(self, s):
        k = s[0]
        if k == "const":
            self.v.env[s[1]] = self.v.ev(s[3])
        elif k == "for":
            for e in self.group(s[2]):
                self.ents[s[1]] = e
                self.block_(s[3])
                del self.ents[s[1]]
        elif k == "if":
            if s[1]:
                self.block_(s[2])
        elif k in ("inline", "func"):
            for _ in range(s[3]):
                self.block_(s[2])
        else:
            name, args, _ = s[1]
            kinds = {p[0]: p[1] for p in SPEC[name]}
            vals = {p[0]: p[2] for p in SPEC[name] if p[2] is not REQ}
            full = {a[0]: a[2] for a in args}
            if len(full) > 2:
                self.acts += 1
            vals.update(full)
            if name in CONDS:
                self.place(s[2] if getattr(self, name)(vals) else s[3])
            else:
                ev = getattr(self, "x_" + name)(vals)
                if ev is not None:
                    self.ev.append(tuple(ev))

    # values
    def pos(self, e):
        return self.use(self.v.as_pos(self.v.ev(e)), self.base)

    def off(self, e, c):
        return W.pt(self.offset(self.v.as_off(self.v.ev(e)), c))

    def sel(self, w):
        return tuple(e.uid for e in self.group(w))

    def pl(self, w):
        return tuple(e.uid for e in self.group(w) if e.type == "player")

    def blk(self, b):
        if isinstance(b, str):
            return W.strip_ns(b), ()
        v = {n: x for n, _, x in b["new"]}
        sep = "=" if self.ver >= (1, 20, 10) else ":"
        return W.strip_ns(v["id"]), tuple(sorted(
            (k, sep, repr(x)) for k, x in v.get("states", {}).items()))

    def item(self, i, n):
        if isinstance(i, str):
            return i, n, 0, {}
        v = {k: x for k, _, x in i["new"]}
        c = {}
        if v.get("can_destroy"):
            c["minecraft:can_destroy"] = {"blocks": v["can_destroy"]}
        if v.get("can_place_on"):
            c["minecraft:can_place_on"] = {"blocks": v["can_place_on"]}
        if v.get("keep_on_death"):
            c["minecraft:keep_on_death"] = {}
        if v.get("lock"):
            c["minecraft:item_lock"] = {"mode": v["lock"]}
        return v["id"], n, v.get("data", 0), c

    # commands
    def x_clone(self, a):
        c = self.pos(a["origin"])
        if c:
            return ("clone", W.pt(c.pos), self.off(a["offset"], c),
                    self.off(a["dest"], c), c.dim,
                    "masked" if a["no_air"] else "replace",
                    a["mode"] or "normal", None)

    def x_clone_only(self, a):
        c = self.pos(a["origin"])
        if c:
            return ("clone", W.pt(c.pos), self.off(a["offset"], c),
                    self.off(a["dest"], c), c.dim, "filtered",
                    a["mode"] or "normal", self.blk(a["block"]))

    def x_fill(self, a):
        c = self.pos(a["origin"])
        if c:
            return ("fill", W.pt(c.pos), self.off(a["offset"], c), c.dim,
                    self.blk(a["block"]), {"aironly": "keep", "all": "replace"
                                           }.get(a["replacement"],
                                                 a["replacement"]), None)

    def x_fill_replace(self, a):
        c = self.pos(a["origin"])
        if c:
            return ("fill", W.pt(c.pos), self.off(a["offset"], c), c.dim,
                    self.blk(a["block"]), "replace", self.blk(a["replaces"]))

    def x_setblock(self, a):
        c = self.pos(a["pos"])
        if c:
            return ("setblock", W.pt(c.pos), c.dim, self.blk(a["block"]),
                    {"aironly": "keep", "all": "replace",
                     "destroy": "destroy"}[a["replacement"]])

    def x_damage(self, a):
        return ("damage", self.sel(a["target"]), a["amount"], a["cause"],
                None if a["damager"] is None else self.sel(a["damager"]))

    def x_effect_give(self, a):
        return ("effect", self.sel(a["target"]), a["effect"], a["duration"],
                a["amplifier"], not a["particle"])

    def x_effect_clear(self, a):
        return "effect", self.sel(a["target"]), "clear"

    def x_enchant(self, a):
        return ("enchant", self.sel(a["target"]), a["enchantment"],
                a["level"])

    def x_event_entity(self, a):
        return "event", self.sel(a["target"]), a["event"]

    def x_kill(self, a):
        for e in self.group(a["target"]):
            self.ev.append(("kill", e.uid))
            e.alive = False

    def msg(self, cmd, a, *x):
        for e in self.group(a["sender"]):
            self.ev.append((cmd, e.uid) + x + (a["message"],))

    def x_msg_me(self, a):
        self.msg("me", a)

    def x_msg_say(self, a):
        self.msg("say", a)

    def x_msg_tell(self, a):
        self.msg("tell", a, self.sel(a["receiver"]))

    def x_replaceitem_block(self, a):
        c = self.pos(a["pos"])
        if c:
            return ("replaceitem", "block", (W.pt(c.pos), c.dim), "container",
                    a["slot"], "keep" if a["keep_old"] else "destroy"
                    ) + self.item(a["item"], a["amount"])

    def x_replaceitem_entity(self, a):
        return ("replaceitem", "entity", self.sel(a["target"]), a["location"],
                a["slot"], "keep" if a["keep_old"] else "destroy"
                ) + self.item(a["item"], a["amount"])

    def x_ride_start_tp_ride(self, a):
        return ("ride", self.sel(a["rider"]), "start_riding",
                self.sel(a["ride"]), "teleport_ride", None)

    def x_ride_start_tp_rider(self, a):
        return ("ride", self.sel(a["rider"]), "start_riding",
                self.sel(a["ride"]), "teleport_rider", a["fill"])

    def x_ride_stop(self, a):
        return "ride", self.sel(a["rider"]), "stop_riding"

    def x_ride_evict_riders(self, a):
        return "ride", self.sel(a["ride"]), "evict_riders"

    def x_summon_rider(self, a):
        return ("ride", self.sel(a["ride"]), "summon_rider",
                W.strip_ns(a["type"]), a["event"], a["name"])

    def x_summon_ride(self, a):
        return ("ride", self.sel(a["rider"]), "summon_ride",
                W.strip_ns(a["type"]), a["mode"], a["event"], a["name"])

    def x_spread(self, a):
        c = self.pos(a["center"])
        if c:
            return ("spreadplayers", W.fr(c.x), W.fr(c.z), c.dim,
                    W.fr(a["interval"]), W.fr(a["range"]),
                    self.sel(a["target"]))

    def x_summon(self, a):
        c = self.pos(a["pos"])
        rot = (0.0, 0.0)
        if c and a["rot"] is not None:
            r = self.use(self.v.ev(a["rot"])[1], c)
            if r is None:
                return None
            rot = W.pt((r.yrot, r.xrot))
        if c:
            self.uid += 1
            return ("summon", self.uid, W.strip_ns(a["type"]), W.pt(c.pos),
                    c.dim, rot, a["event"], a["name"])

    def x_tag_add(self, a):
        for e in self.group(a["target"]):
            e.tags.add(a["tag"])

    def x_tag_remove(self, a):
        for e in self.group(a["target"]):
            e.tags.discard(a["tag"])

    def x_tp(self, a):
        c = self.pos(a["dest"])
        es = self.group(a["target"])
        if not c or not es:
            return None
        for e in es:
            e.x, e.y, e.z = c.pos
            e.dim = c.dim
        return ("tp", tuple(e.uid for e in es), W.pt(c.pos), c.dim, None,
                a["check_for_blocks"])

    def at(self, e):
        c = self.base.clone()
        c.x, c.y, c.z = e.pos
        c.yrot, c.xrot, c.dim = e.yrot, e.xrot, e.dim
        return c

    def x_rotate(self, a):
        todo = []
        ops = self.v.ev(a["rot"])[1]
        for e in self.group(a["target"]):
            c = self.use(ops, self.at(e))
            if c is not None:
                todo.append((e, c))
        for e, c in todo:
            e.yrot, e.xrot = c.yrot, c.xrot
            self.ev.append(("tp", (e.uid,), W.pt(c.pos), c.dim,
                            W.pt((c.yrot, c.xrot)), False))

    def mv(self, a, names, kind):
        ns = [[kind, float(a[n])] for n in names]
        todo = [(e, self.at(e)) for e in self.group(a["target"])]
        for e, c in todo:
            p = self.offset(ns, c)
            e.x, e.y, e.z = p
            self.ev.append(("tp", (e.uid,), W.pt(p), c.dim, None,
                            a["check_for_blocks"]))

    def x_move(self, a):
        self.mv(a, "xyz", "~")

    def x_move_local(self, a):
        self.mv(a, ("left", "up", "front"), "^")

    def x_ability(self, a):
        return "ability", self.pl(a["player"]), a["ability"], a["value"]

    def x_clear_inventory(self, a):
        return "clear", self.pl(a["player"]), None, -1, -1

    def x_clear(self, a):
        return ("clear", self.pl(a["player"]), a["item_id"], a["item_data"],
                a["max_count"])

    def x_spawnpoint_clear(self, a):
        return "clearspawnpoint", self.pl(a["player"])

    def x_gamemode(self, a):
        return "gamemode", a[None], self.pl(a["player"])

    def x_give(self, a):
        return ("give", self.pl(a["player"])) + self.item(
            a["item"], a["amount"])

    def x_kick(self, a):
        return "kick", a["player_name"], a["reason"]

    def x_recipe(self, a):
        return ("recipe", "give" if a["unlock"] else "take",
                self.pl(a["player"]), a["recipe"])

    def x_spawnpoint_set(self, a):
        c = self.pos(a["pos"])
        if c:
            return "spawnpoint", self.pl(a["player"]), W.pt(c.pos), c.dim

    def x_xp_add_levels(self, a):
        return "xp", a["amount"], True, self.pl(a["player"])

    def x_xp_add_points(self, a):
        return "xp", a["amount"], False, self.pl(a["player"])

    def is_block(self, a):
        c = self.pos(a["pos"])
        if c is None:
            return False
        i, st = self.blk(a["block"])
        b = self.vm.blocks.get((tuple(W.math.floor(x) for x in c.pos), c.dim))
        bi, bs = b if b is not None else ("air", {})
        return bi == i and all(bs.get(k) == v for k, _, v in st)

    def is_same_area(self, a):
        c = self.pos(a["pos"])
        return c is not None and self.vm.same_area(
            [c.pos] + [self.offset(self.v.as_off(self.v.ev(a[n])), c)
                       for n in ("offset", "other")], c.dim,
            "masked" if a["ignore_air"] else "all")


def blocks(case):
    return {(tuple(b[:3]), b[3]): (b[4], {k: repr(v) for k, v
                                          in b[5].items()})
            for b in case["blocks"]}


def run(case):
    src = render(case)
    b = build(src, mc_version=tuple(case["ver"]), education_edition=True)
    static.lint(b, False, src=src, spaces=False)
    vm = W.WVM(b.files)
    for i, x in enumerate(case["ents"]):
        pl = i >= case["n"]
        e = vm.add_ent("player" if pl else "cow", name="p%d" % i if pl else "",
                       pos=tuple(x[:3]), rot=tuple(x[3:5]))
        e.dim = x[5]
        e.tags |= set(x[6]) | {"t%d" % i, "all"} | ({"pp"} if pl else set())
    vm.blocks = blocks(case)
    start = list(vm.ents)
    execute(b, vm=vm, src=src)
    m = Model(case)
    m.block_(case["items"])
    got, want = vm.events, m.ev
    info = src + json.dumps(case["ents"])
    for x, y in zip(got, want):
        if not close(tuple(x), tuple(y)):
            same(x, y, "effect of a command", info, b)
    same(len(got), len(want), "number of commands that act", info, b)
    skip = {"all", "pp"} | {"t%d" % i for i in range(len(start))}
    for x, y in zip(start, m.all):
        same({t for t in x.tags if not t.startswith(b.cfg.entity_tag)} - skip,
             y.tags - skip, "tags of %r" % x, info, b)
    return {"nontrivial": m.acts >= 4, "tags": []}


def close(a, b):
    if isinstance(a, float) and isinstance(b, (float, int)) and \
            not isinstance(b, bool):
        return abs(a - b) <= 1e-4 + 1e-7 * abs(a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(close, a, b))
    return a == b and type(a) is type(b)


def g(d):
    return Gen(d).program()


# --- refusals ----------------------------------------------------------------

WRONG = {
    "P": ["1", "None", "Offset(1)", "Rot(1, 2)", "e0", '"1 2 3"', "n", "Pos"],
    "O": ["1", "None", "Pos(1, 2, 3)", "Rot(1, 2)", "e0", '"~"', "n"],
    "R": ["1", "Pos(1, 2, 3)", "Offset(1)", "e0", '"1 2"', "n"],
    "bool": ["1", "0", '"true"', "None", "b", "1.0", "e0"],
    "id": ["1", "None", "True", "e0", "n", "1.5", "{\"a\"}", "world"],
    "nid": ["1", "True", "e0", "n", "1.5", "{\"a\"}"],
    "sel": ["1", "None", '"@a"', "n", "True", "Pos(e0)", "Enfilter()",
            "ExternEngroup", "{e0}"],
    "ent": ["1", "None", '"@s"', "n", "eg", "Pos(e0)", "Enfilter()"],
    "nent": ["1", '"@s"', "n", "eg", "Pos(e0)"],
    "block": ["1", "None", "True", "n", 'world.Item("a")', "e0",
              "world.Block", "{\"a\"}"],
    "item": ["1", "None", "True", "n", 'world.Block("a")', "e0",
             "world.Item", "{\"a\"}"],
    "range": ["0", "0.5", "-3", '"1"', "None", "True", "n"],
    "ival": ["-1", "-0.5", "3", "2.6", '"1"', "None", "b"],
    "f3": ['"1"', "None", "True", "n", "e0", "Pos(1, 2, 3)"],
    "ids": ["1", '"a"', "{1}", '{"a", 1}', "None", "{True}", '{"a": "b"}'],
    "states": ["1", '"a"', "{1: 2}", '{"a"}', "None", '{"a": 1.5}',
               '{"a": None}', '{"a": n}'],
}
WRONG["pl"] = WRONG["sel"]
WRONG["so"] = WRONG["O"]
for _k in ("msg", "name", "rec"):
    WRONG[_k] = WRONG["id"]
for _k in ("nmsg", "nname"):
    WRONG[_k] = WRONG["nid"]
for _k, _v in ENUM.items():
    WRONG[_k] = ['"nope"', '""', "1", "True", "n", '"%s "' % _v[1],
                 '"%s"' % _v[1].upper()] + ([] if None in _v else ["None"])
WRONG["clonemode"] = WRONG["clonemode"] + ['"normal"', '"replace"']
WRONG["repl"] = WRONG["repl"] + ['"keep"', '"replace"']
WRONG["repl1"] = WRONG["repl1"] + ['"hollow"', '"outline"', '"keep"']
for _k, (_lo, _hi) in RANGE.items():
    WRONG[_k] = ["n", '"1"', "None", "True", "1.0", "e0"]
    if _lo is not None:
        WRONG[_k] = WRONG[_k] + [str(_lo - 1), str(_lo - 7)]
    if _hi is not None:
        WRONG[_k] = WRONG[_k] + [str(_hi + 1), str(_hi + 100)]

GOOD = {
    "P": "Pos(1, 2, 3)", "O": "Offset(1)", "so": "Offset(1)",
    "R": "Rot(1, 2)", "bool": "True", "id": '"a"', "nid": '"a"',
    "sel": "e0", "pl": "e0", "ent": "e0", "nent": "e0", "block": '"a"',
    "item": '"a"', "range": "3.5", "ival": "1", "f3": "1", "ids": '{"a"}',
    "states": '{"a": 1}', "msg": '"a"', "nmsg": '"a"', "name": '"a"',
    "nname": '"a"', "rec": '"a"',
}
for _k, _v in ENUM.items():
    GOOD[_k] = '"%s"' % _v[1]
for _k in RANGE:
    GOOD[_k] = "5"
BPRE = PRE + "e0 := eg.to_single()\nn := 3\nb := True\n"
BSPEC = dict(SPEC, Item=ITEM, Block=BLOCK)
BSPEC["is_entity"] = [("ent", "ent", REQ), ("filter", "flt", REQ)]
WRONG["flt"] = ["1", "None", "eg", "e0", '"@a"', "n"]
GOOD["flt"] = "Enfilter()"


def g_bad(d):
    name = d.pick(sorted(BSPEC))
    ps = BSPEC[name]
    k = d.int(0, 9)
    i = d.int(0, len(ps) - 1)
    if k <= 5:
        return [name, "wrong", i, d.pick(WRONG[ps[i][1]]), d.flip()]
    if k == 6:
        return [name, "drop", d.pick([j for j, p in enumerate(ps)
                                      if p[2] is REQ]), None, True]
    if k == 7:
        return [name, "extra", 0, d.pick(["1", '"x"', "None", "e0"]), False]
    if k == 8:
        return [name, "kw", i, d.pick(["zzz", "Target", "self", "compiler"]),
                True]
    return [name, "twice", i, None, False]


def bcall(name, args):
    s = "world.%s(%s)" % (name, ", ".join(args))
    if name in ("Item", "Block"):
        return "const q = " + s
    if name.startswith("is_"):
        return "b = " + s
    return s


def run_bad(case):
    name, how, i, w, kw = case
    ps = BSPEC[name]
    kw = kw and all(p[0] for p in ps)
    vals = [GOOD[p[1]] for p in ps]

    def form(vs):
        return [("%s=%s" % (p[0], v) if kw else v)
                for p, v in zip(ps, vs)]
    good = BPRE + bcall(name, form(vals)) + "\n"
    cfg = {"mc_version": (1, 20, 10), "education_edition": True}
    out, r = try_build(good, **cfg)
    need(out == "ok", "valid call refused: %s\n%s",
         r.text if out != "ok" else "", good)
    args = form(vals)
    if how == "wrong":
        vals[i] = w
        args = form(vals)
    elif how == "drop":
        if not kw:
            args = args[:i]
        else:
            del args[i]
    elif how == "extra":
        args.append(w)
    elif how == "kw":
        args.append("%s=1" % w)
    elif ps[i][0] is not None:
        args.append("%s=%s" % (ps[i][0], vals[i]))
    else:
        args.append("1")
    call = bcall(name, args)
    out, r = try_build(BPRE + call + "\n", **cfg)
    need(out == "rejected", "invalid call accepted\n%s", call)
    return {"nontrivial": True, "tags": ["refused"]}


CHECKS = [
    Check("commands", g, run, 8000, 150000),
    Check("refused", g_bad, run_bad, 2500, 20000),
]
