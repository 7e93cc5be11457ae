"""Random Acacia program text, mostly syntactically valid, with little regard
for types: for the robustness property only."""

INTS = ["0", "1", "2", "3", "5", "7", "-1", "-2", "10", "20", "0x1F", "0b11",
        "0o7", "2147483647", "-2147483648", "2147483648", "100000"]
SMALL = ["0", "1", "2", "3", "-1", "5"]
STRS = ['""', '"a"', '"abc"', '"stone"', '"player"', '"minecraft:pig"',
        '"@s"', '"a b"', '"\\n"', '"\\u0041"', '"\\x41"', '"\\#(red)x"',
        '"${n}"', '"a${c}b${s}"', '"%0"', '"%{a}"', '"%%"', '"%"', '"%3"',
        '"1.."', '"..5"', '"1..4"', '"!3"', '"x"', '"xyz"', '"xx"',
        '"the_end"', '"nether"', '"eyes"', '"feet"', '"red"', '"creative"',
        '"speed"', '"\\\\"', '"\\""', '"é\U0001f600"', '"${1 + 2}"',
        '"actionbar"', '"replace"', '"destroy"', '"slot.hotbar"', '"camera"',
        '"deny"', '"allow"', '"head"', '"mace"', '"\\#(bold, blue)"']
NAMES = ["x", "y", "b", "c", "n", "s", "t", "l", "m", "e", "e2", "g", "st",
         "st2", "p", "r", "o", "fl", "f1", "f2", "fi", "fr", "fc", "E", "F",
         "S", "T", "fs", "task", "nope", "print", "world", "math",
         "schedule", "int", "bool", "Pos", "Rot", "Offset", "Engroup",
         "Enfilter", "list", "map", "AbsPos", "Any", "float", "Entity",
         "ExternEngroup", "swap", "scb", "upcast", "G", "EG", "fl0", "nn"]
LOCALS = ["x", "y", "b", "z", "w", "v", "i", "q", "s", "l", "m"]
ATTRS = ["MAX", "MIN", "offset", "abs", "dim", "local", "apply", "align",
         "x", "y", "z", "b", "v", "k", "meth", "vmeth", "smeth", "select",
         "drop", "filter", "extend", "subtract", "intersect", "copy",
         "clear", "add", "remove", "is_empty", "size", "to_single", "has",
         "slice", "cycle", "range", "repeat", "geometric", "append",
         "insert", "reverse", "pop", "keys", "values", "get", "from_keys",
         "update", "set_default", "all_players", "random", "nearest_from",
         "farthest_from", "has_tag", "has_no_tag", "distance_from",
         "is_type", "is_not_type", "inside", "rot_vertical",
         "rot_horizontal", "is_name", "is_not_name", "has_item", "scores",
         "level", "is_game_mode", "is_not_game_mode", "has_permission",
         "has_no_permission", "face_entity", "face_pos", "new", "after",
         "cancel", "on_tickingarea", "on_area", "on_circle", "has_schedule",
         "nope", "__new__", "resolve"]
KWS = ["x", "y", "z", "min", "max", "limit", "type", "a", "b", "c", "v", "k",
       "left", "up", "front", "target", "mode", "color", "bold", "interval",
       "x_abs", "vertical", "horizontal", "radius", "duration", "name",
       "item", "quantity", "anchor", "stop", "start", "step", "default",
       "fade_in", "origin", "offset", "data", "components", "amount", "pos",
       "event", "rot", "dest", "replacement", "nope"]
MODFN = {
    "math": ["randint", "pow", "min", "max", "mod", "floordiv"],
    "print": ["format", "translate", "with_font", "tell", "title",
              "title_clear", "TITLE", "SUBTITLE", "ACTIONBAR", "RED",
              "MINECOIN_GOLD"],
    "schedule": ["Task", "register_loop"],
    "world": ["clone", "clone_only", "fill", "fill_replace", "setblock",
              "damage", "effect_give", "effect_clear", "enchant",
              "event_entity", "kill", "msg_me", "replaceitem_block",
              "replaceitem_entity", "ride_start_tp_ride",
              "ride_start_tp_rider", "ride_stop", "ride_evict_riders",
              "ride_summon_rider", "ride_summon_ride", "msg_say", "spread",
              "summon", "tag_add", "tag_remove", "msg_tell", "tp", "rotate",
              "move", "move_local", "ability", "clear_inventory", "clear",
              "spawnpoint_clear", "gamemode", "give", "kick", "recipe",
              "spawnpoint_set", "xp_add_levels", "xp_add_points",
              "is_block", "is_same_area", "is_entity", "Block", "Item"],
}
# arguments that make a call meaningful
GOOD = ["e", "e2", "g", "p", "o", "r", "fl", "x", "y", "b", "c", "s", "l",
        "m", "st", "E", "F", "fs", "f1", "fi", "AbsPos(1, 2, 3)",
        "Pos(1, 2, 3)", "Pos(e)", "Offset(1, 2, 3)", "Rot(1, 2)",
        "Enfilter()", 'world.Block("stone")', 'world.Item("apple")',
        "True", "False", "None", "1.5", "{1, 2}", "{:}", "{1: 2}", "{}",
        "Rot(e)", "fs", "Engroup[E]", "Engroup[Entity]", "int.MAX"]

PRELUDE = '''import print
import world
import math
import schedule
entity E:
    x: int
    b: bool
    new():
        new("armor_stand", Pos(1, 2, 3))
    def meth(v: int) -> int:
        self.x = v
        result v
    virtual def vmeth():
        self.x += 1
    static def smeth(k = 3) -> int:
        result k
entity F extends E:
    new(v: int):
        E.new()
        self.x = v
    override def vmeth():
        self.x -= 1
struct S:
    x: int
    b: bool
struct T extends S:
    k: S
x := 5
y: int = 7
b := x > 3
const c = 12
const n = -3
const s = "abc"
const t = "%0 %{a}"
const l = {1, 2, 3}
const m = {1: 2, "a": 3, True: "q"}
const nn = None
const fl0 = 1.25
e := E()
e2 := F(3)
g := Engroup[E]()
G := Engroup[Entity]()
EG := ExternEngroup()
st := S(x=1, b=True)
st2 := T()
const p = Pos(1, 2.5, 3)
const r = Rot(10, 20)
const o = Offset(1, 2, 3)
const fl = Enfilter().is_type("pig")
const fs = print.format("v%0", x)
def f1(v: int, k = 3) -> int:
    result v + k
def f2(v: bool):
    pass
inline def fi(const v, &k: int):
    k += 1
inline def fr(&v: int) -> &int:
    result v
const def fc(v: int, k: int = 2) -> int:
    z := v
    while z < 5:
        z += 1
    result z * k
const task = schedule.Task(f1, 3)
'''


def expr(d, depth, small=False, env=NAMES):
    if depth <= 0:
        k = d.int(0, 11)
        if k <= 2:
            return d.pick(SMALL if small else INTS)
        if k <= 7:
            return d.pick(env if not small else LOCALS[:4])
        if k == 8:
            return d.pick(STRS)
        if k == 9:
            return d.pick(["True", "False", "None", "1.5", "0.0", "-2.25",
                           "self"])
        return d.pick(GOOD) if not small else d.pick(SMALL)
    k = d.int(0, 13)

    def sub():
        return expr(d, depth - 1 - d.int(0, 1), small, env)
    if k <= 1:
        return expr(d, 0, small, env)
    if k == 2:
        return "(%s)" % sub()
    if k == 3:
        return "%s %s %s" % (sub(), d.pick(["+", "-", "*", "/", "%"]), sub())
    if k == 4:
        return "%s %s %s" % (sub(), d.pick(
            ["==", "!=", "<", ">", "<=", ">="]), sub())
    if k == 5:
        return "%s %s %s" % (sub(), d.pick(["and", "or"]), sub())
    if k == 6:
        return "%s %s" % (d.pick(["-", "+", "not"]), sub())
    if k == 7:
        return "%s[%s]" % (sub(), ", ".join(sub() for _ in range(
            d.int(0, 2)))) if not small else sub()
    if k == 8:
        return "{%s}" % ", ".join(sub() for _ in range(d.int(0, 3)))
    if k == 9:
        return "{%s}" % (", ".join(
            "%s: %s" % (sub(), sub()) for _ in range(d.int(1, 3))) or ":")
    if k == 10:
        return "%s.%s" % (sub(), d.pick(ATTRS))
    if k == 11 and not small:
        mod = d.pick(sorted(MODFN))
        fn = d.pick(MODFN[mod])
        return "%s.%s(%s)" % (mod, fn, args(d, depth, fn == "pow", env))
    # method call
    a = d.pick(ATTRS)
    base = sub() if d.flip(40) else d.pick(GOOD + NAMES)
    sm = a in ("range", "repeat", "geometric", "cycle", "slice")
    return "%s.%s(%s)" % (base, a, args(d, depth, sm or small, env))


def args(d, depth, small, env):
    out, kws = [], []
    for _ in range(d.int(0, 3)):
        if small:
            v = expr(d, 0, True, env)
        elif d.flip(60):
            v = d.pick(GOOD + STRS + SMALL)
        else:
            v = expr(d, depth - 2, small, env)
        if d.flip(30):
            kws.append("%s=%s" % (d.pick(KWS), v))
        else:
            out.append(v)
    if d.flip(97):
        out = out + kws
    else:
        out = kws + out
    return ", ".join(out)


TYPES = ["int", "bool", "E", "F", "S", "T", "Engroup[E]", "Entity", "list",
         "map", "Any", "float", "Pos", "nope", "str", "Enfilter"]


def command(d):
    return d.pick([
        "/say hi", "/say ${s}", "/say ${c} ${l[0]}", "/say ${x}",
        "/tp @s ~ ~1 ~", "/say \\\\ \\${", "/say ${s",
        "/*\nsay a\nb\n*/", "/*say ${n}*/", "/", "/say \\#(red)",
    ])


def stmt(d, depth, ind, incall=True):
    k = d.int(0, 27)
    I = "    " * ind
    E = lambda n=2: expr(d, n)  # noqa: E731

    def body(inner=None):
        if depth <= 0:
            return "%s    pass\n" % I
        return "".join(stmt(d, depth - 1, ind + 1)
                       for _ in range(d.int(1, 3)))
    if k <= 3:
        return "%s%s\n" % (I, E(3))
    if k <= 5:
        return "%s%s := %s\n" % (I, d.pick(LOCALS + NAMES), E(3))
    if k <= 7:
        return "%s%s = %s\n" % (I, E(1) if d.flip(30) else d.pick(NAMES),
                                E(3))
    if k == 8:
        return "%s%s %s= %s\n" % (I, d.pick(NAMES), d.pick("+-*/%"), E())
    if k == 9:
        return "%sconst %s%s = %s\n" % (
            I, d.pick(LOCALS), d.pick(["", ": " + d.pick(TYPES)]), E())
    if k == 10:
        return "%s&%s%s = %s\n" % (
            I, d.pick(LOCALS), d.pick(["", ": " + d.pick(TYPES)]), E())
    if k == 11:
        return "%s%s: %s%s\n" % (I, d.pick(LOCALS), d.pick(TYPES),
                                 d.pick(["", " = " + E(1)]))
    if k <= 13:
        s = "%sif %s:\n%s" % (I, E(), body())
        if d.flip(30):
            s += "%selif %s:\n%s" % (I, E(), body())
        if d.flip(40):
            s += "%selse:\n%s" % (I, body())
        return s
    if k == 14:
        return "%swhile %s:\n%s" % (I, E(), body())
    if k <= 16:
        return "%sfor %s in %s:\n%s" % (
            I, d.pick(LOCALS), d.pick(["l", "m", "g", "{1, x}",
                                       "list.range(3)", "EG", E(1)]), body())
    if k == 17:
        return "%s\n" % "\n".join(I + q for q in command(d).split("\n"))
    if k == 18:
        return "%sresult %s\n" % (I, E())
    if k == 19:
        return "%sdef %s(%s)%s:\n%s" % (
            I, d.pick(LOCALS), params(d), d.pick(
                ["", " -> int", " -> bool", " -> E", " -> S",
                 " -> " + d.pick(TYPES)]), body())
    if k == 20:
        # never named like something a body could call
        return "%sinline def %s(%s)%s:\n%s" % (
            I, "inl%d" % d.int(0, 99), params(d, True), d.pick(
                ["", " -> int", " -> &int", " -> const Any", " -> const"]),
            body())
    if k == 21:
        return "%sconst def %s(%s)%s:\n%s" % (
            I, "cf%d" % d.int(0, 99), params(d), d.pick(
                ["", " -> int", " -> list", " -> Any"]),
            "".join("    " * (ind + 1) + ctstmt(d) for _ in range(
                d.int(1, 4))))
    if k == 22:
        return "%sinterface %s:\n%s" % (I, d.pick(
            ["a", "b/c", "q", "main", "_acacia/x", "A", "tick"]), body())
    if k == 23:
        return entity(d, depth, ind)
    if k == 24:
        s = "%sstruct %s%s:\n" % (I, d.pick(LOCALS + ["S2"]), d.pick(
            ["", " extends S", " extends T, S", " extends E",
             " extends nope"]))
        for _ in range(d.int(1, 3)):
            s += "%s    %s: %s\n" % (I, d.pick(LOCALS), d.pick(TYPES))
        return s
    if k == 25:
        return "%s%s\n" % (I, d.pick([
            "import math", "import nope", "from math import pow",
            "from math import *", "from print import format as w",
            "import .main", "import print as v", "from math import nope",
            "pass", "new()", 'new("pig")', "E.new()", "F.new(1)"]))
    if k == 26:
        return "%s%s(%s)\n" % (I, d.pick(
            ["f1", "f2", "fi", "fr", "fc", "E", "F", "S", "T", "task.after",
             "swap", "scb", "upcast", "e.meth", "e2.vmeth", "E.smeth",
             "print.tell", "g.select", "print.format"]),
            args(d, 2, False, NAMES))
    return "%sg.select(Enfilter().%s(%s))\n" % (
        I, d.pick(ATTRS[44:66]), args(d, 2, False, NAMES))


def ctstmt(d):
    return d.pick([
        "i := 0\n", "z := {1, 2}\n", "w := {1: 2}\n", "z.append(3)\n",
        "z.extend(z)\n", "z.pop(0)\n", "z.insert(0, 1)\n", "z.reverse()\n",
        "w.update(w)\n", "w.pop(1)\n", "i += 1\n", "i = z[0]\n",
        "z[0] = 4\n", "w[1] = 4\n", "result i\n", "result z\n", "pass\n",
        "const q = 3\n", "&q = i\n", "x = 3\n", "q: int\n", "result x\n",
        "%s\n" % expr(d, 2, True), "i = %s\n" % expr(d, 2, True),
        "if i == 0:\n        i = 1\n", "for v in {1, 2}:\n        i += v\n",
        "swap(i, v)\n", "w.clear()\n", "z.cycle(2)\n", "/say hi\n",
        "w.set_default(1, 2)\n", "i = \"a\"\n", "z[9] = 3\n",
    ])


def params(d, inline=False):
    out, used, dflt = [], set(), False
    for _ in range(d.int(0, 3)):
        p = d.pick(LOCALS)
        if p in used and d.flip(95):
            continue
        used.add(p)
        if inline and d.flip(50):
            p = d.pick(["const ", "&"]) + p
        typed = d.flip(70)
        if typed:
            p += ": " + d.pick(TYPES[:7] if d.flip(80) else TYPES)
        if d.flip(30) or (dflt and d.flip(97)) or \
                (not typed and not inline and d.flip(95)):
            dflt = True
            p += " = " + d.pick(SMALL + ["True", "s", "x", "None", "b"])
        out.append(p)
    return ", ".join(out)


def entity(d, depth, ind):
    I = "    " * ind
    s = "%sentity %s%s:\n" % (I, d.pick(["E3", "E4", "E"]), d.pick(
        ["", " extends E", " extends F", " extends E, F", " extends F, E",
         " extends S", " extends E3", " extends nope"]))
    for _ in range(d.int(1, 3)):
        k = d.int(0, 5)
        if k == 0:
            s += "%s    %s: %s\n" % (I, d.pick(["x", "h", "v"]),
                                     d.pick(TYPES))
        elif k == 1:
            s += "%s    new(%s):\n%s        %s\n" % (
                I, params(d), I, d.pick(
                    ["pass", "new()", 'new("pig")', "E.new()",
                     'new("pig", Pos(1, 2, 3))', "self.x = 1",
                     "new(type=s)", "Entity.new()", "F.new(2)"]))
        else:
            s += "%s    %sdef %s(%s)%s:\n%s        %s\n" % (
                I, d.pick(["", "static ", "virtual ", "override ",
                           "static inline ", "static const ", "inline "]),
                d.pick(["meth", "vmeth", "smeth", "h", "k"]), params(d),
                d.pick(["", " -> int"]), I, d.pick(
                    ["pass", "self.x = 1", "result 3", "self.vmeth()",
                     "result self.x"]))
    return s


def program(d):
    body = "".join(stmt(d, 2, 0) for _ in range(d.int(1, 4)))
    return PRELUDE + body


# --- typed calls ----------------------------------------------------------
# placeholder -> candidates; the templates below are the documented
# signatures, and the generator perturbs a placeholder now and then.
HOLES = {
    "i": ["0", "1", "2", "3", "-1", "c", "n", "1 + 1", "l[0]"],
    "I": ["x", "y", "x + 1", "x * y", "-x", "5", "f1(x)", "e.x", "st.x",
          "int(b)", "math.min(x, 3)", "fc(2)", "x % 3", "2147483647",
          "fr(x)", "math.pow(x, 3)", 'scb("a", "b")'],
    "f": ["1.5", "0.0", "2", "-3", "fl0", "fl0 * 2", "None", "0.1 + 0.2"],
    "s": ['"a"', '"a b"', "s", 's + "x"', '"1..2"', '"x"', '"q${c}"', '"%0"',
          '"stone"', '"red"', '"eyes"', '"player"', "t"],
    "b": ["True", "False", "b", "x > 3", "not b", "b and x > y",
          "e.b", "world.is_block(p, \"stone\")", "g.is_empty()",
          "world.is_entity(e, fl)", "1 < 2", "b == True"],
    "B": ["True", "False"],
    "e": ["e", "e2", "g.to_single()", "upcast(e2, E)", "self"],
    "g": ["g", "G", "EG", "g.copy()", "g.filter(fl)", "e"],
    "p": ["p", "Pos(1, 2, 3)", "Pos(e)", "p.offset(1, 2, 3)",
          'Pos(e, "eyes")', 'p.dim("nether")', "p.local(r, front=1.5)",
          'p.align("xz")', "p.apply(o)", "p.abs(y=3)",
          "AbsPos(1, 2, 3)"],
    "o": ["o", "Offset(1, 2.5)", "Offset().abs(1, 2, 3)",
          "Offset.local(1, 2, 3)", "AbsPos(1, 2, 3)", "o.offset(y=2)"],
    "r": ["r", "Rot(1, 2.5)", "Rot(e)", "Rot.face_entity(e)",
          "r.offset(1, 2)", "Rot.face_offset(o)", "r.abs(3, None)"],
    "F": ["fl", "Enfilter()", 'fl.random(limit=2)', "fl.nearest_from(p)",
          'fl.has_tag("a")', "fl.distance_from(Pos(e), min=2)",
          "Enfilter().all_players()", 'fl.scores("o", "1..")'],
    "l": ["l", "{1, 2}", "{}", "l.slice(1)", "m.keys()", "list.range(3)",
          "{x, b}", "{s, t}", "m", "l.copy()", "{{1}, {2}}"],
    "m": ["m", "{1: 2}", "{:}", "m.copy()", "map({1, 2}, {3, 4})",
          "map.from_keys(l, 1)"],
    "k": ["1", '"a"', "True", "c", "None", "1.5", "s"],
    "v": ["x", "b", "e", "g", "st", "st2", "e.x", "y"],
    "S": ["st", "st2", "st2.k", "S()", "S(x=1)", "T(k=S(x=2))"],
    "T": ["fs", "s", '"a" + s', "print.format(\"%0\", x)",
          'print.with_font("a", "red")', 'print.translate("a.b")',
          'fs + "x"', "print.format(\"%a %0\", b, a=fs)"],
    "k2": [],
    "t": ["E", "F", "Entity"],
    "K": ['"stone"', 'world.Block("a")', 'world.Block("a", {"b": 1})',
          'world.Block("a", {"b": True, "c": "d"})'],
    "M": ['"apple"', 'world.Item("a")', 'world.Item("a", 3)',
          'world.Item("a", keep_on_death=True, can_destroy={"b"})',
          'world.Item("a", lock="lock_in_slot")'],
    "c": ["f1", "f2", "fc", "e.meth", "task.after", "E.smeth", "print.tell"],
}
CALLS = """
int(%b)|int(%I)|bool(%b)|swap(%v, %v)|scb(%e, %s)|scb(%s, %s)|upcast(%e, %t)
Pos(%f, %f, %f)|Pos(%e)|Pos(%e, anchor=%s)|%p.offset(%f, %f, %f)
%p.abs(%f, %f, %f)|%p.dim(%s)|%p.local(%r, %f, %f, %f)|%p.apply(%o)
%p.align(%s)|Offset(%f, %f, %f)|Offset(%f, y_abs=%f)|%o.abs(%f, %f, %f)
%o.offset(%f, %f, %f)|Offset.local(%f, %f, %f)|Rot(%f, %f)|Rot(%e)
Rot.face_entity(%e, %s)|Rot.face_offset(%o)|%r.abs(%f, %f)|%r.offset(%f, %f)
AbsPos(%f, %f, %f)
Engroup[%t]()|%g.select(%F)|%g.drop(%F)|%g.filter(%F)|%g.extend(%g)
%g.subtract(%g)|%g.intersect(%g)|%g.copy()|%g.clear()|%g.add(%e, %e)
%g.remove(%e)|%g.is_empty()|%g.size()|%g.to_single()|%g.has(%e)
EG.resolve(%t)|ExternEngroup()
%F.all_players()|%F.random(%s, limit=%i)|%F.random(limit=%i)
%F.nearest_from(%p, %i)|%F.farthest_from(%p, limit=%i)|%F.has_tag(%s, %s)
%F.has_no_tag(%s)|%F.distance_from(%p, min=%f, max=%f)|%F.is_type(%s)
%F.is_not_type(%s, %s)|%F.inside(%p, %f, %f, %f)|%F.rot_vertical(%f, %f)
%F.rot_horizontal(max=%f)|%F.is_name(%s)|%F.is_not_name(%s)
%F.has_item(%s, %s, data=%i, slot_type=%s, slot_num=%s)|%F.has_item(%s)
%F.scores(%s, %s)|%F.level(%i, %i)|%F.is_game_mode(%s)
%F.is_not_game_mode(%s)|%F.has_permission(%s)|%F.has_no_permission(%s)
list(%l)|list.repeat(%v, %i)|list.geometric(%i, %i, %i)|list.range(%i, %i, %i)
%l.slice(%i, None, %i)|%l.copy()|%l.cycle(%i)|%l.size()|%l[%i]
map(%l, %l)|map.from_keys(%l, %k)|%m.copy()|%m.keys()|%m.values()
%m.has(%k)|%m.size()|%m.get(%k, %k)|%m.get(%k)|%m[%k]
%e.meth(%I)|%e.vmeth()|%e.x|%e.b|E.smeth(%I)|F(%I)|E()
S(x=%I, b=%b)|S()|T(x=%I, k=%S)|T()|%S.x|%S.k|%S.b
f1(%I)|f1(%I, %I)|f1(%I, k=%I)|f2(%b)|fi(%k, x)|fr(x)|fc(%i)|fc(%i, k=%i)
float(%i)|float(%f)
math.randint(%i, %i)|math.pow(%I, %i)|math.pow(%I, x)|math.min(%I, %I)
math.max(%I, %I, %I)|math.mod(%I, %I)|math.floordiv(%I, %I)
print.format(%s, %v)|print.format("%0%1", %v, %T)|print.format("%a", a=%v)
print.translate(%s)|print.with_font(%T, %s, bold=%B)|print.tell(%T)
print.tell(%T, %g)|print.title(%T, %g, print.SUBTITLE, %i, %i, %i)
print.title(%T)|print.title_clear(%g)|print.title_clear()
schedule.Task(%c, %v)|task.after(%I)|task.has_schedule()|task.cancel()
task.on_area(%p, %o)|task.on_circle(%p, %i)|task.on_tickingarea(%s)
schedule.register_loop(%c, %I, %v)|schedule.register_loop(%c, interval=%I)
world.Block(%s, %m)|world.Item(%s, %i, can_destroy=%l)
world.Item(%s, keep_on_death=%B, lock=%s)
world.clone(%p, %o, %o, mode=%s, no_air=%B)|world.clone_only(%p, %o, %o, %K)
world.fill(%p, %o, %K)|world.fill_replace(%p, %o, %K, %K)
world.setblock(%p, %K)|world.damage(%g, %i, %s, %e)|world.damage(%g, %i)
world.effect_give(%g, %s, %i, %i, %B)|world.effect_clear(%g)
world.enchant(%g, %s, %i)|world.event_entity(%g, %s)|world.kill(%g)
world.msg_me(%e, %s)|world.replaceitem_block(%p, %i, %M, %i)
world.replaceitem_entity(%g, %s, %i, %M)|world.ride_start_tp_ride(%e, %e)
world.ride_start_tp_rider(%g, %e)|world.ride_stop(%g)
world.ride_evict_riders(%g)|world.summon_rider(%g, %s, %s, %s)
world.summon_ride(%g, %s)|world.msg_say(%e, %s)|world.spread(%g, %p, %f, %f)
world.summon(%s, %p, rot=%r, name=%s)|world.tag_add(%g, %s)
world.tag_remove(%g, %s)|world.msg_tell(%e, %g, %s)|world.tp(%g, %p)
world.rotate(%g, %r)|world.move(%g, %f, %f)|world.move_local(%g, up=%f)
world.ability(%g, %s, %B)|world.clear_inventory(%g)|world.clear(%g, %s, %i)
world.spawnpoint_clear(%g)|world.gamemode(%g, %s)|world.give(%g, %M, %i)
world.kick(%s, %s)|world.recipe(%g, %s, %B)|world.spawnpoint_set(%g, %p)
world.xp_add_levels(%g, %i)|world.xp_add_points(%g, %i)
world.is_block(%p, %K)|world.is_same_area(%p, %o, %o)|world.is_entity(%e, %F)
%b and %b|%b or %b|not %b|%I + %I|%I * %I|%I / %I|%I % %I|%I - %I|-%I
%I < %I|%I == %I|%b == %b|%I < %I <= %I|%f + %f|%f / %i|%s + %s|%l + %l
%T + %T|%g + %g|%g - %g|{%k: %v, %k: %v}|{%v, %v}|%i / %i|%i % %i|%i * %i
""".strip().replace("\n", "|").split("|")


def hole(d, h, depth):
    if d.flip(6):
        h = d.pick(sorted(k for k in HOLES if HOLES[k]))
    if depth > 0 and d.flip(25):
        return "(" + typed(d, depth - 1) + ")"
    return d.pick(HOLES[h])


def typed(d, depth=1):
    t = d.pick(CALLS)
    out, i = [], 0
    while i < len(t):
        if t[i] == "%" and i + 1 < len(t) and t[i + 1] in HOLES and \
                (i == 0 or t[i - 1] != '"') :
            out.append(hole(d, t[i + 1], depth))
            i += 2
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


def tstmt(d, depth, ind):
    I = "    " * ind
    k = d.int(0, 15)
    if depth <= 0:
        k = k % 9
    if k <= 2:
        return "%s%s\n" % (I, typed(d))
    if k == 3:
        return "%s%s := %s\n" % (I, d.pick(LOCALS), typed(d))
    if k == 4:
        return "%sconst %s = %s\n" % (I, d.pick(LOCALS), typed(d))
    if k == 5:
        return "%s&%s = %s\n" % (I, d.pick(LOCALS), typed(d))
    if k == 6:
        return "%s%s = %s\n" % (I, d.pick(
            ["x", "y", "b", "e", "g", "st", "st2", "e.x", "e.b", "st.x",
             "st2.k", "st2.k.b", "G", "e2", 'scb("q", "r")']), typed(d))
    if k == 7:
        return "%s%s %s= %s\n" % (I, d.pick(
            ["x", "y", "g", "e.x", "st.x", "b", "G", "l"]),
            d.pick("+-*/%"), typed(d))
    if k == 8:
        return "%s/say ${%s}\n" % (I, typed(d))

    def body():
        return "".join(tstmt(d, depth - 1, ind + 1)
                       for _ in range(d.int(1, 2)))
    if k <= 10:
        s = "%sif %s:\n%s" % (I, typed(d), body())
        if d.flip(40):
            s += "%selse:\n%s" % (I, body())
        return s
    if k == 11:
        return "%swhile %s:\n%s" % (I, typed(d), body())
    if k == 12:
        return "%sfor %s in %s:\n%s" % (I, d.pick(["i", "w"]), typed(d),
                                        body())
    if k == 13:
        return "%sdef %s(v: %s, q = %s)%s:\n%s%s    result %s\n" % (
            I, d.pick(["h", "h2"]), d.pick(TYPES[:7]), typed(d),
            d.pick(["", " -> int", " -> bool", " -> E", " -> S",
                    " -> Engroup[E]"]), body(), I, typed(d))
    if k == 14:
        n = "inl%d" % d.int(0, 9)
        return "%sinline def %s(%sv, %sw)%s:\n%s%s    result %s\n%s%s(%s, " \
            "%s)\n" % (
                I, n, d.pick(["const ", "&", "const "]),
                d.pick(["const ", "&"]),
                d.pick(["", " -> int", " -> const Any", " -> &Any"]),
                body(), I, d.pick(["v", "w", typed(d)]), I, n,
                typed(d), typed(d))
    n = "cf%d" % d.int(0, 9)
    return "%sconst def %s(v, w = %s)%s:\n%s    z := v\n%s%s    result %s\n" \
        "%sconst %s = %s(%s)\n" % (
            I, n, typed(d), d.pick(["", " -> Any", " -> int"]), I,
            "".join("%s    %s" % (I, ctstmt(d)) for _ in range(
                d.int(0, 2))), I, d.pick(["v", "z", "w", typed(d)]), I,
            d.pick(LOCALS), n, typed(d))


def tprogram(d):
    return PRELUDE + "".join(tstmt(d, 2, 0) for _ in range(d.int(1, 4)))


# --- compile-time soup ----------------------------------------------------
CT_HOLES = {
    "i": ["0", "1", "2", "-1", "n", "a", "len2", "z[0]", "1 + 2"],
    "l": ["z", "{1, 2}", "{}", "w.keys()", "z.copy()", "list.range(3)",
          "w", "l", "{z, w}", "z.slice(1, None)", "{1.5, True}"],
    "m": ["w", "{:}", "{1: 2, \"a\": z}", "w.copy()", "m",
          "map({1, 2}, z)"],
    "k": ["1", '"a"', "True", "n", "1.0", "None", "z", "a", "E", "x"],
    "v": ["a", "z[0]", "w[1]", "n", "q"],
    "b": ["True", "n == 1", "z.size() > 2", "w.has(1)", "not True",
          "1 < n <= 3"],
    "s": ['"a"', "s", 's + "b"', '"${n}"', '"${z[0]}"'],
    "p": ["Pos(1, 2, 3)", "p.offset(1)", "Rot(1, 2)", "Offset(1)",
          "p", "r", "o", "Offset().abs(1, 2, 3)"],
}
CT_CALLS = """
z.append(%k)|z.append(z)|z.extend(%l)|z.insert(%i, %k)|z.pop(%i)|z.pop()
z.reverse()|%l.size()|%l.slice(%i)|%l.slice(%i, %i)|%l.slice(None, None, %i)
%l.cycle(%i)|%l.copy()|%l[%i]|%l + %l|%l * %i|w.update(%m)|w.pop(%k)
w.pop(%k, %k)|w.set_default(%k, %k)|w.clear()|%m.get(%k)|%m.get(%k, %k)
%m.has(%k)|%m[%k]|%m.keys()|%m.values()|%m.size()|list(%l)|list(%m)
list.repeat(%k, %i)|list.range(%i, %i)|list.geometric(1, 2, 3)
map.from_keys(%l, %k)|map(%l, %l)|swap(%v, %v)|%i + %i|%i * %i|%i / %i
%i % %i|%s + %s|%b and %b|%b or not %b|-%i|%i < %i|%k == %k|fc(%i)
g1(%k)|g1(%l)|%p|Pos(%i, 1.5, %i)|p.offset(%i)|p.abs(%i).align("x")
p.local(r)|r.offset(%i)|float(%i)|1.5 * %i|-1.5|int(%b)|bool(%b)
Enfilter().is_type(%s)|world.Block(%s, %m)|world.Item(%s)|p.dim(%s)
""".strip().replace("\n", "|").split("|")


def ctcall(d, depth=1):
    t = d.pick(CT_CALLS)
    out, i = [], 0
    while i < len(t):
        if t[i] == "%" and i + 1 < len(t) and t[i + 1] in CT_HOLES:
            h = t[i + 1]
            if d.flip(6):
                h = d.pick(sorted(CT_HOLES))
            out.append("(" + ctcall(d, depth - 1) + ")"
                       if depth and d.flip(20) else d.pick(CT_HOLES[h]))
            i += 2
        else:
            out.append(t[i])
            i += 1
    return "".join(out)


def ctline(d, ind, depth):
    I = "    " * ind
    k = d.int(0, 13)
    if depth <= 0 and k >= 9:
        k -= 5
    if k <= 2:
        return "%s%s\n" % (I, ctcall(d))
    if k == 3:
        return "%s%s := %s\n" % (I, d.pick(["q", "a", "z", "u"]), ctcall(d))
    if k == 4:
        return "%s%s = %s\n" % (I, d.pick(
            ["q", "a", "z", "z[0]", "w[1]", "w[\"a\"]", "n", "z[0][1]"]),
            ctcall(d))
    if k == 5:
        return "%s%s %s= %s\n" % (I, d.pick(["a", "z", "q", "z[0]", "n"]),
                                  d.pick("+-*/%"), ctcall(d))
    if k == 6:
        return "%s%s %s%s = %s\n" % (
            I, d.pick(["const", "&"]), d.pick(["k", "u"]),
            d.pick(["", "", ": int", ": list", ": Any"]), ctcall(d))
    if k == 7:
        return "%s%s: %s = %s\n" % (I, d.pick(["q", "u"]), d.pick(
            ["int", "bool", "list", "map", "Any", "float", "Pos"]),
            ctcall(d))
    if k == 8:
        return "%sresult %s\n" % (I, ctcall(d))

    def body():
        return "".join(ctline(d, ind + 1, depth - 1)
                       for _ in range(d.int(1, 2)))
    if k <= 10:
        s = "%sif %s:\n%s" % (I, ctcall(d), body())
        if d.flip(50):
            s += "%selse:\n%s" % (I, body())
        return s
    if k == 11:
        return "%sfor i in %s:\n%s" % (I, ctcall(d), body())
    if k == 12:
        c = "c%d" % ind
        return "%s%s := 0\n%swhile %s < 3:\n%s    %s += 1\n%s" % (
            I, c, I, c, I, c, body())
    return "%sconst def h%d(y, k = 3) -> Any:\n%s" % (I, ind, body())


def ctprogram(d):
    s = PRELUDE + "const def g1(v) -> Any:\n    result v\n"
    s += "const def ff(n%s, z%s, w%s)%s:\n" % (
        d.pick(["", ": int", ": Any"]), d.pick(["", ": list", ": Any"]),
        d.pick(["", ": map", ": Any"]),
        d.pick([" -> Any", " -> Any", " -> int", " -> list", "", " -> map"]))
    s += "    a := %s\n" % d.pick(["1", "n", "z", "{n}", '"a"'])
    s += "".join(ctline(d, 1, 2) for _ in range(d.int(1, 5)))
    call = "ff(%s, %s, %s)" % (
        d.pick(["1", "c", "n", "2", '"a"']), d.pick(
            ["l", "{1, 2}", "{}", "{1, 2, 3, 4}", "{{1}, {2}}"]),
        d.pick(["m", "{:}", '{1: 2}', '{1: {2}, "a": 3}']))
    return s + d.pick(["const rr = %s\n", "%s\n", "xx := %s\n",
                       "/say ${%s}\n"]) % call
