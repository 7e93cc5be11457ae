"""P14: text in strings and commands means what is written."""
from ..core import Check, Skip, Violation, need
from ..h import build, execute, same, try_build

RULE = ("the program has at least two escapes or interpolations, or must be "
        "refused")
ASSUMPTIONS = [
    "raw commands hold no line break characters and no lone surrogates",
    "the text of a command is compared with the whole generated line",
]

OLD = {"black": "0", "dark_blue": "1", "dark_green": "2", "dark_aqua": "3",
       "dark_red": "4", "dark_purple": "5", "gold": "6", "gray": "7",
       "dark_gray": "8", "blue": "9", "green": "a", "aqua": "b", "red": "c",
       "light_purple": "d", "yellow": "e", "white": "f",
       "minecoin_gold": "g", "reset": "r", "bold": "l", "italic": "o",
       "obfuscated": "k"}
NEW = {"material_quartz": "h", "material_iron": "i",
       "material_netherite": "j", "material_redstone": "m",
       "material_copper": "n", "material_gold": "p",
       "material_emerald": "q", "material_diamond": "s",
       "material_lapis": "t", "material_amethyst": "u"}


# --- expressions inside ${} ----------------------------------------------
# each returns (source, value)

def fexpr(d, env, depth):
    k = d.int(0, 11)
    if k == 0:
        n = d.pick([0, 1, 7, -3, 2147483647, -2147483648, 42])
        return {2147483647: "0x7fffffff",
                -2147483648: "-2147483647 - 1"}.get(n, str(n)), str(n)
    if k == 1:
        b = d.flip()
        return ("True", "true") if b else ("False", "false")
    if k == 2:
        f = d.pick([0.5, 1.0, 12.25, 100.0, 0.1])
        return repr(f), repr(f)
    if k == 3 and env:
        return d.pick(sorted(env.items()))
    if k == 4:
        a, b = d.int(0, 50), d.int(0, 50)
        return "%d * (%d - 3)" % (a, b), str(a * (b - 3))
    if k == 5:
        return "0b101", "5"
    if k == 6 and depth > 0:
        s, v = string(d, env, depth - 1)
        return s, v
    if k == 7 and depth > 0:
        s, v = string(d, env, depth - 1)
        t, u = string(d, env, depth - 1)
        return "%s + %s" % (s, t), v + u
    if k == 8:
        n = d.int(0, 9)
        return '{"a": %d, "}": 5}["a"]' % n, str(n)
    if k == 9:
        n = d.int(0, 3)
        return "{3, 5, 8, 9}[%d]" % n, str([3, 5, 8, 9][n])
    if k == 10:
        s, v = fexpr(d, env, depth)
        return "(%s)" % s, v
    s, v = d.pick([("3 > 2", "true"), ("not True", "false"),
                   ("1 + 2 == 4 or 3 != 4", "true"), ("7 / -2", "-3"),
                   ("-7 % 4", "-3"), ("-(2 + 3)", "-5"),
                   ("1.5 + 2", "3.5")])
    return s, v


PLAIN = "abz 09_-.,;:!?@#%^&*()[]{}<>|=+~`'/"
ESC_X = "xuU"


def piece(d, env, depth, ctx):
    """-> (source, value); ctx: str, cmd (one line), long"""
    k = d.int(0, 13)
    if k <= 2:
        n = d.int(1, 4)
        s = "".join(d.pick(PLAIN) for _ in range(n))
        return s, s
    if k == 3:
        c = d.anychar()
        if c in "\n\r\\\"$" or 0xD800 <= ord(c) < 0xE000:
            c = "q"
        return c, c
    if k == 4:
        return "\\\\", "\\"
    if k == 5:
        if ctx == "str":
            return '\\"', '"'
        return d.pick([('"', '"'), ('\\"', '\\"')])
    if k == 6:
        return "\\$", "$"
    if k == 7:
        return "\\#", "\xa7"
    if k == 8:
        names = [d.pick(sorted(OLD)) for _ in range(d.int(1, 3))]
        out = "".join("\xa7" + OLD[n] for n in names)
        sp = lambda: d.pick(["", "", " ", "  "])  # noqa: E731
        return "\\#(" + ",".join(sp() + n + sp() for n in names) + ")", out
    if k == 9:
        e = d.pick(ESC_X)
        top = {"x": 0xFF, "u": 0xFFFF, "U": 0x10FFFF}[e]
        c = d.int(0, top) if d.flip() else d.int(32, 126)
        if 0xD800 <= c < 0xE000 or (ctx != "str" and c in (10, 13)):
            c = 0x41
        w = {"x": 2, "u": 4, "U": 8}[e]
        h = "%0*x" % (w, c)
        if d.flip(40):
            h = h.upper()
        return "\\" + e + h, chr(c)
    if k == 10:
        c = d.pick("ntrabe01.,;%/'")
        return "\\" + c, "\\" + c
    if k == 11:
        return "$", "$"
    s, v = fexpr(d, env, depth)
    sp = d.pick(["", "", " "])
    if ctx == "long" and d.flip(20):
        sp = d.pick(["\n", "\n    ", " #* c *# ", " # c }\n"])
    return "${" + sp + s + sp + "}", v


def pieces(d, env, depth, ctx, lo=0, hi=6):
    src, val, last = "", "", ""
    for _ in range(d.int(lo, hi)):
        s, v = piece(d, env, depth, ctx)
        # keep the pieces apart: escapes must not run into each other
        if last == "\\#" and s.startswith("("):
            s, v = "z" + s, "z" + v
        if last == "$" and s.startswith("{"):
            s, v = "z" + s, "z" + v
        last = s
        if ctx == "long" and src.endswith("*") and s.startswith("/"):
            s, v = "z" + s, "z" + v
        src += s
        val += v
    if ctx == "long":
        while "*/" in src:
            # inside a piece
            i = src.index("*/")
            raise Skip
    return src, val


def string(d, env, depth):
    s, v = pieces(d, env, depth, "str", 0, 4)
    return '"%s"' % s, v


BAD = [
    ('"\\x4"', "hex digits"), ('"\\u12g4"', "hex digits"),
    ('"\\U00110000"', "code point"), ('"\\Uffffffff"', "code point"),
    ('"\\#(pink)"', "font"), ('"\\#()"', "font"), ('"\\#(red"', "font"),
    ('"\\#(red,)"', "font"), ('"\\x"', "hex digits"), ('"abc', "quote"),
    ('"${1"', "fexpr"), ('"${1', "fexpr"), ('"${}"', "empty"),
    ('"abc\\"', "quote"), ('"${x$}"', "token"), ('"\\#(red, \\x41)"', "font"),
    ('"${{1, 2}}"', "list"), ('"${v}"', "runtime"), ('"${v + 1}"', "runtime"),
    ('"a" + 1', "types"), ('1 + "a"', "types"), ('"a" * 2', "types"),
    ('"ab\ncd"', "newline"), ('"ab\n"', "newline"), ('"\n"', "newline"),
    ('"a" + "b\n    c" + "d"', "newline"), ('"ab\\\ncd"', "newline"),
    ('"${v2}x\ny"', "newline"),
]


def g(d):
    env = {}
    items = []
    for i in range(d.int(1, 6)):
        k = d.int(0, 9)
        if k <= 2:
            s, v = string(d, env, 2)
            items.append(["tell", s, v])
        elif k == 3:
            s, v = string(d, env, 2)
            n = "s%d" % i
            items.append(["const", n, s])
            env[n] = v
        elif k == 4:
            s, v = string(d, env, 1)
            t, u = string(d, env, 1)
            items.append(["tell", "%s + %s" % (s, t), v + u])
        elif k <= 6:
            s, v = pieces(d, env, 2, "cmd", 0, 7)
            if d.flip(10):
                s, v = s + "\\", v + "\\"
                if s.endswith("\\\\"):
                    s, v = s + "z", v + "z"
                    if s.endswith("\\\\\\z"):
                        pass
            items.append(["cmd", "say " + s, "say " + v])
        elif k <= 8:
            src, val = "say ", "say "
            for j in range(d.int(1, 4)):
                if j:
                    nl = "\n" + " " * d.int(0, 5)
                    src += nl
                    val += " " + nl[1:]
                s, v = pieces(d, env, 1, "long", 0, 4)
                if src.endswith("$") and s.startswith("{") or \
                        src.endswith("*") and s.startswith("/"):
                    s, v = "z" + s, "z" + v
                src += s
                val += v
            if src.endswith("\\"):
                src, val = src + "z", val + "z"
            if "*/" in src:
                raise Skip
            items.append(["long", src, val])
        else:
            s, v = string(d, env, 1)
            n = "t%d" % i
            items.append(["fn", n, s, v])
    return {"items": items, "nest": d.int(0, 2)}


def g_bad(d):
    s, why = d.pick(BAD)
    where = d.int(0, 1 if "\n" in s else 3)
    if not s.startswith('"') or not s.endswith('"') or \
            s.count('"') % 2 or where == 0:
        src = "print.tell(%s)\n" % s
    elif where == 1:
        src = "const q = %s\n" % s
    elif where == 2:
        src = "/say %s\n" % s[1:-1] if "\\\"" not in s else \
            "print.tell(%s)\n" % s
    else:
        src = "/*say\n%s*/\n" % s[1:-1] if "\\\"" not in s else \
            "print.tell(%s)\n" % s
    return {"bad": why, "src": "import print\nv := 3\nconst v2 = 4\n" +
            "\n" * d.int(0, 2) + src}


def render(case):
    lines = ["import print"]
    pad = ""
    if case["nest"] == 1:
        lines += ["c := 1", "if c == 1:"]
        pad = "    "
    elif case["nest"] == 2:
        lines += ["inline def run():"]
        pad = "    "
    for it in case["items"]:
        if it[0] == "tell":
            lines.append(pad + "print.tell(%s)" % it[1])
        elif it[0] == "const":
            lines.append(pad + "const %s = %s" % (it[1], it[2]))
        elif it[0] == "cmd":
            lines.append(pad + "/" + it[1])
        elif it[0] == "long":
            lines.append(pad + "/*" + it[1] + "*/")
        else:
            lines.append(pad + "const def %s() -> Any:" % it[1])
            lines.append(pad + "    result %s" % it[2])
            lines.append(pad + "print.tell(%s() + \"\")" % it[1])
    if case["nest"] == 2:
        lines.append("run()")
    return "\n".join(lines) + "\n"


def run(case):
    src = render(case)
    b = build(src)
    vm = execute(b, None, src)
    want = []
    n = 0
    for it in case["items"]:
        if it[0] == "tell":
            want.append(("tell", it[2]))
            n += it[1].count("\\") + it[1].count("${")
        elif it[0] in ("cmd", "long"):
            want.append(("cmd", it[2]))
            n += it[1].count("\\") + it[1].count("${")
        elif it[0] == "fn":
            want.append(("tell", it[3]))
    got = []
    for e in vm.events:
        if e[0] == "tellraw":
            got.append(("tell", e[2]))
        elif e[0] == "cmd":
            got.append(("cmd", e[1]))
    same(got, want, "texts", src, b)
    return {"nontrivial": n >= 2,
            "tags": sorted({it[0] for it in case["items"]})}


def run_bad(case):
    out, r = try_build(case["src"])
    need(out == "rejected", "malformed text is accepted (%s)\n%s",
         case["bad"], case["src"])
    return {"nontrivial": True, "tags": [case["bad"]]}


def g_font(d):
    name = d.pick(sorted(NEW))
    ver = d.pick([[1, 19, 79], [1, 19, 80], [1, 19, 80, 1], [1, 20], [1, 19],
                  [1, 18, 90], [2, 0], [1, 19, 50]])
    return {"name": name, "ver": ver, "how": d.int(0, 2),
            "old": d.pick(sorted(OLD))}


def run_font(case):
    ok = tuple(case["ver"]) >= (1, 19, 80)
    n = case["name"]
    s = ['/say \\#(%s, %s)x' % (case["old"], n),
         'print.tell("\\#(%s,%s)x")' % (case["old"], n),
         'print.tell(print.with_font("x", color="%s"))' % n][case["how"]]
    src = "import print\n%s\n" % s
    out, r = try_build(src, mc_version=tuple(case["ver"]))
    need((out == "ok") == ok, "font %s for version %s: %s", n, case["ver"],
         out)
    if ok:
        vm = execute(r, None, src)
        e = vm.events[-1]
        pre = "\xa7" + OLD[case["old"]] if case["how"] < 2 else ""
        want = pre + "\xa7" + NEW[n] + "x"
        got = e[1][4:] if e[0] == "cmd" else e[2]
        if case["how"] == 2:
            want += "\xa7r"
        same(got, want, "text", src)
    return {"nontrivial": True, "tags": ["new font", "ok" if ok else "old"]}


CHECKS = [
    Check("texts", g, run, 9000, 200000),
    Check("malformed", g_bad, run_bad, 500, 3000),
    Check("fonts", g_font, run_font, 400, 2000),
]
