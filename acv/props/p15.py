"""P15: printed text shows the values, in the order and style written."""
from ..core import Check, Skip, Violation, need
from ..h import build, execute, same, try_build

RULE = ("a text made of at least three parts, with at least one runtime "
        "value, nested style or title setting; or a refused pattern")
ASSUMPTIONS = [
    "a formatted string that contains a variable is displayed before that "
    "variable changes (it shows the value at display time)",
    "a style replaces the surrounding style completely",
    "texts contain no section signs of their own",
]

COLOR = {"black": "0", "dark_blue": "1", "dark_green": "2", "dark_aqua": "3",
         "dark_red": "4", "dark_purple": "5", "gold": "6", "gray": "7",
         "dark_gray": "8", "blue": "9", "green": "a", "aqua": "b",
         "red": "c", "light_purple": "d", "yellow": "e", "white": "f",
         "minecoin_gold": "g"}
ALPHA = "abc xyz.:09-#${}"
INTS = {"x": 5, "y": -7, "z": 12345}
BOOLS = {"p": True, "q": False}


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$")


def units(text, style):
    return [["c", c, style] for c in text]


class G:
    def __init__(self, d):
        self.d = d
        self.names = {}     # const name -> (units, is str)
        self.calls = 0
        self.score = 0

    def text(self, lo=0, hi=5):
        return self.d.text(ALPHA, lo, hi)

    def arg(self, depth):
        """-> (source, units)"""
        d = self.d
        k = d.int(0, 12)
        self.score += 1
        if k <= 1:
            n = d.pick(sorted(INTS))
            return n, units(str(INTS[n]), "")
        if k == 2:
            n = d.pick(sorted(BOOLS))
            return n, units("1" if BOOLS[n] else "0", "")
        if k == 3:
            n = d.pick([0, 3, -4, 2147483647])
            return str(n), units(str(n), "")
        if k == 4:
            b = d.flip()
            return str(b), units("1" if b else "0", "")
        if k == 5:
            n, m = d.pick(sorted(INTS)), d.pick(sorted(INTS))
            op = d.pick("+-*")
            v = eval("a %s b" % op, {"a": INTS[n], "b": INTS[m]})
            return "%s %s %s" % (n, op, m), units(str(v), "")
        if k == 6:
            n, c = d.pick(sorted(INTS)), d.int(-8, 8)
            return d.pick([
                ("%s > %d" % (n, c), units("1" if INTS[n] > c else "0", "")),
                ("not (%s == %d)" % (n, c),
                 units("0" if INTS[n] == c else "1", "")),
                ("p and %s < %d" % (n, c),
                 units("1" if INTS[n] < c else "0", "")),
                ("-%s" % n, units(str(-INTS[n]), ""))])
        if k == 7:
            n, c = d.pick(sorted(INTS)), d.int(-8, 8)
            return "twice(%s + %d)" % (n, c), units(
                str(2 * (INTS[n] + c)), "")
        if k == 8:
            return "st.a", units("17", "")
        if k == 9:
            f = d.pick(["1.5", "0.25", "100.0"])
            return f, units(f, "")
        if depth > 0:
            return self.ex(depth - 1)
        t = self.text()
        return '"%s"' % esc(t), units(t, "")

    def fmt(self, depth):
        d = self.d
        args, kw = [], []
        for _ in range(d.int(0, 4)):
            args.append(self.arg(depth))
        many = d.flip(6)
        if many:
            while len(args) < 12:
                args.append(self.arg(0))
        for n in d.sample(["k", "key", "value_1"], d.int(0, 2)):
            kw.append((n, self.arg(depth)))
        src, out = "", []
        for _ in range(d.int(0, 7)):
            k = d.int(0, 8)
            if k <= 1:
                t = self.text(1, 4)
                src += t
                out += units(t, "")
            elif k == 2:
                src += "%%"
                out += units("%", "")
            elif k == 3:
                c = d.pick("abz -,.")
                src += "%" + c
                out += units("%" + c, "")
            elif k <= 5 and args:
                i = d.int(0, min(9, len(args) - 1))
                src += "%" + str(i)
                out += args[i][1]
            elif k == 6 and args:
                i = d.int(0, len(args) - 1)
                src += "%{" + d.pick(["", "0"]) + str(i) + "}"
                out += args[i][1]
            elif kw:
                n, a = d.pick(kw)
                src += "%{" + n + "}"
                out += a[1]
        if d.flip(8):
            src += "%"
            out += units("%", "")
        call = ['"%s"' % esc(src)] + [a for a, _ in args] + [
            "%s=%s" % (n, a) for n, (a, _) in kw]
        return "print.format(%s)" % ", ".join(call), out

    def ex(self, depth):
        """an fstring (or string) expression"""
        d = self.d
        k = d.int(0, 9)
        if depth <= 0 and k > 3:
            k = k % 4
        if k == 0:
            t = self.text()
            return '"%s"' % esc(t), units(t, "")
        if k == 1 and self.names:
            n = d.pick(sorted(self.names))
            return n, self.names[n]
        if k <= 2:
            s, o = self.fmt(depth - 1)
            return s, o
        if k == 3:
            t = d.pick(["item.diamond.name", "tile.stone.name", "k.x"])
            return 'print.translate("%s")' % t, [["t", t, ""]]
        if k <= 5:
            a, b = self.ex(depth - 1), self.ex(depth - 1)
            if d.flip(25):
                return "(%s) + (%s)" % (a[0], b[0]), a[1] + b[1]
            return "%s + %s" % (a[0], b[0]), a[1] + b[1]
        if k <= 8:
            s, o = self.ex(depth - 1)
            color = d.pick(["default"] + sorted(COLOR))
            flags = [d.flip(30), d.flip(30), d.flip(20)]
            style = (COLOR[color] if color != "default" else "") + \
                "".join(c for c, f in zip("lok", flags) if f)
            src = "print.with_font(%s" % s
            pos = d.flip(20)
            if pos:
                src += ', "%s", %s, %s, %s)' % ((color,) + tuple(flags))
            else:
                kws = ['color="%s"' % color] if color != "default" or \
                    d.flip(20) else []
                kws += ["%s=%s" % (n, f) for n, f in zip(
                    ("bold", "italic", "obfuscated"), flags)
                    if f or d.flip(10)]
                src += "".join(", " + x for x in d.shuffle(kws)) + ")"
            self.score += 1
            # every unit that has no style of its own
            return src, [[u[0], u[1], style if not u[2] else u[2],
                          True] if len(u) < 4 else u for u in o]
        s, o = self.ex(depth - 1)
        return '"" + ' + s, o

    def item(self):
        d = self.d
        k = d.int(0, 9)
        if k <= 3:
            s, o = self.ex(3)
            return ["tell", s, o, None]
        if k == 4:
            s, o = self.ex(2)
            return ["tell", s, o, d.pick(["grp", "one"])]
        if k <= 6:
            s, o = self.ex(3)
            n = "f%d" % len(self.names)
            it = ["const", n, s]
            self.names[n] = o
            return it
        if k <= 8:
            s, o = self.ex(2)
            mode = d.pick(["title", "subtitle", "actionbar"])
            times = {}
            for n in ("fade_in", "stay_time", "fade_out"):
                if d.flip(30):
                    times[n] = d.pick([0, 5, 10, 20, 70, 100])
            return ["title", s, o, d.pick([None, None, "grp"]), mode, times,
                    d.flip(30)]
        return ["clear", d.pick([None, "grp"])]


def g(d):
    x = G(d)
    items = [x.item() for _ in range(d.int(1, 6))]
    return {"items": items, "where": d.int(0, 2), "score": x.score}


def render(case):
    pre = ["import print", "x := 5", "y: int = -7", "z := 12345",
           "p := True", "q := x > 50",
           "struct S:", "    a: int", "st := S(a=17)",
           "def twice(n: int) -> int:", "    result n * 2",
           "grp := ExternEngroup()",
           'grp.select(Enfilter().all_players().is_name("ann"))',
           'two := ExternEngroup()',
           'two.select(Enfilter().all_players().is_name("bob"))',
           "one := two.to_single()"]
    body = []
    for it in case["items"]:
        if it[0] == "tell":
            tg = "" if it[3] is None else ", " + it[3]
            body.append("print.tell(%s%s)" % (it[1], tg))
        elif it[0] == "const":
            body.append("const %s = %s" % (it[1], it[2]))
        elif it[0] == "title":
            kws = []
            if it[3]:
                kws.append("target=" + it[3])
            if it[4] != "title" or it[6]:
                kws.append("mode=print.%s" % it[4].upper() if it[6]
                           else 'mode="%s"' % it[4])
            kws += ["%s=%d" % kv for kv in sorted(it[5].items())]
            body.append("print.title(%s)" % ", ".join([it[1]] + kws))
        else:
            body.append("print.title_clear(%s)" % (it[1] or ""))
    if case["where"] == 1:
        body = ["if z > 4:"] + ["    " + b for b in body]
    elif case["where"] == 2:
        body = ["def show():"] + ["    " + b for b in body] + ["show()"]
    return "\n".join(pre + body) + "\n"


def interpret(text):
    """displayed characters with their style"""
    out, color, flags = [], "", set()
    i = 0
    while i < len(text):
        if text[i] == "\xa7" and i + 1 < len(text):
            c = text[i + 1]
            if c == "r":
                color, flags = "", set()
            elif c in "lok":
                flags.add(c)
            else:
                color = c
            i += 2
            continue
        out.append((text[i], color + "".join(
            f for f in "lok" if f in flags)))
        i += 1
    return out


def flat(us):
    out = []
    for u in us:
        for c in u[1]:
            out.append((c, u[2]))
    return out


def run(case):
    src = render(case)
    b = build(src)

    def setup(vm):
        for n in ("ann", "bob", "cat"):
            vm.add_ent("player", name=n)
    vm = execute(b, setup, src)
    ids = {e.name: e.uid for e in vm.ents if e.type == "player"}
    who = {None: tuple(sorted(ids.values())), "grp": (ids["ann"],),
           "one": (ids["bob"],)}
    evs = [(e, t) for e, t in zip(
        [e for e in vm.events if e[0] in ("tellraw", "titleraw")],
        vm.targets)]
    pos = 0
    keys = []

    def nxt(what):
        nonlocal pos
        if pos >= len(evs):
            raise Violation("nothing is displayed for %s\n%s\n%s"
                            % (what, src, b.text()))
        pos += 1
        return evs[pos - 1]

    for it in case["items"]:
        if it[0] == "const":
            continue
        if it[0] == "clear":
            e, t = nxt("title_clear")
            same((e[0], e[1][1:], t), ("titleraw", ("clear",), who[it[1]]),
                 "title_clear", src, b)
            continue
        keys += [u[1] for u in it[2] if u[0] == "t"]
        if it[0] == "title" and it[5]:
            tm = {"fade_in": 10, "stay_time": 70, "fade_out": 20}
            tm.update(it[5])
            conf = (tm["fade_in"], tm["stay_time"], tm["fade_out"])
        else:
            conf = (10, 70, 20)
        if conf != (10, 70, 20):
            e, t = nxt("title times")
            same((e[0], e[1][1:], t),
                 ("titleraw", ("times",) + tuple(map(str, conf)),
                  who[it[3]]), "title times", src, b)
        e, t = nxt(it[1])
        if it[0] == "tell":
            same((e[0], len(e[1]), t), ("tellraw", 1, who[it[3]]),
                 "kind and target of the message", src, b)
        else:
            same((e[0], e[1][1:], t), ("titleraw", (it[4],), who[it[3]]),
                 "kind and target of the title", src, b)
        same(interpret(e[2]), flat(it[2]), "displayed text", src, b)
        if conf != (10, 70, 20):
            e, t = nxt("title reset")
            same((e[0], e[1][1:], t), ("titleraw", ("reset",), who[it[3]]),
                 "title reset", src, b)
    need(pos == len(evs), "more is displayed than written: %r\n%s",
         evs[pos:], src)
    same(vm.tr_keys, keys, "translated keys", src, b)
    return {"nontrivial": case["score"] >= 3,
            "tags": sorted({it[0] for it in case["items"]})}


BAD = ['print.format("%0")', 'print.format("%{1}", 5)',
       'print.format("%{a}", b=3)', 'print.format("%{a", a=3)',
       'print.format("%{}", 3)', 'print.format("%{-1}", 3)',
       'print.format("%{x}", x)', 'print.format("%{0 }", 3)',
       'print.format("%{ 0}", 3)', 'print.format("%2", x, x)',
       'print.format("%0", Pos(0, 0, 0))', 'print.format("%0", print)',
       'print.format(3)', 'print.format("%0", S)',
       'print.with_font("a", "pink")', 'print.with_font("a", bold=p)',
       'print.with_font(3)', 'print.with_font("a", "red", True, True, True, '
       'True)', '"a" + 3', 'print.format("a") + 3', '3 + print.format("a")',
       'print.translate(x)', 'x', '3', 'True', 'print.format("%1{0}", 3)',
       'print.format("%10")', 'print.format("%0", st)']


def g_bad(d):
    return {"e": d.pick(BAD), "call": d.pick([
        "print.tell(%s)", "const f = %s\nprint.tell(f)", "print.title(%s)",
        "print.tell(%s + \"z\")", "print.tell(print.format(\"%%0\", %s), 3)"])}


def run_bad(case):
    src = ("import print\nx := 1\np := True\nstruct S:\n    a: int\n"
           "st := S(a=1)\n" + case["call"] % case["e"] + "\n")
    out, r = try_build(src)
    need(out == "rejected", "invalid text is accepted\n%s", src)
    return {"nontrivial": True, "tags": ["bad"]}


CHECKS = [
    Check("texts", g, run, 8000, 180000),
    Check("refused", g_bad, run_bad, 400, 1500),
]
