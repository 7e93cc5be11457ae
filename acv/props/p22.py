"""P22: static rules: what must be refused is refused where it is written,
what is allowed is accepted."""
import json
import os
import re

from ..core import Check, Skip, Violation, need
from ..h import build, try_build, execute, same
from .. import slang
from ..slang import PRE, KINDS, SPECS, STORABLE, fits, ty, const

RULE = ("the fragment under judgement is inside at least one other construct "
        "or between other statements (scope: at least one name is declared "
        "in two scopes, or the program is refused)")
ASSUMPTIONS = [
    "the judged fragment is the only possible reason for a refusal (the rest "
    "of every program is accepted without it)",
    "functions written inline are called exactly where they are defined",
]

FILL = [
    "# comment", "", "#* long\n comment : ( \" \n*#", "pass", "iw = iv",
    "/say filler", "/* say filler\n   and more */", "iw += \\\n    3",
    "iw = (iv\n      + 2)", "print.tell(\n  \"a\")",
    "if bv:\n    iw = 3\nelse:\n    pass", "{1: 2,\n 3: 4}", "fv()",
    'print.tell("${ci} %0")', "bw = not bv",
]
WRAPS = ["if", "else", "elif", "while", "for", "forg", "def", "method",
         "new", "static", "inline", "interface", "if0"]
FUNCY = ("def", "method", "new", "static", "inline")


def indent(lines, n=1):
    return ["    " * n + x if x else x for x in lines]


def wrap(kind, lines, uid):
    """returns (lines, offset of the first wrapped line)"""
    if kind in ("if", "if0"):
        return [["if bv:", "if True:"][kind == "if0"]] + indent(lines), 1
    if kind == "else":
        return ["if bv:", "    pass", "else:"] + indent(lines), 3
    if kind == "elif":
        return ["if bv:", "    pass", "elif iv > 5:"] + indent(lines), 3
    if kind == "while":
        return ["while iv < 0:"] + indent(lines), 1
    if kind == "for":
        return ["for w%d in {1}:" % uid] + indent(lines), 1
    if kind == "forg":
        return ["for w%d in ge:" % uid] + indent(lines), 1
    if kind == "def":
        return ["def w%d():" % uid] + indent(lines), 1
    if kind == "inline":
        return ["inline def w%d():" % uid] + indent(lines) + \
            ["w%d()" % uid], 1
    if kind == "method":
        return ["entity W%d:" % uid, "    def w():"] + indent(lines, 2), 2
    if kind == "static":
        return ["entity W%d:" % uid, "    static def w():"] + \
            indent(lines, 2), 2
    if kind == "new":
        return ["entity W%d:" % uid, "    new(a9: int):",
                '        new("pig", Pos(1, 2, 3))'] + indent(lines, 2), 3
    assert kind == "interface"
    return ["interface w%d/i:" % uid] + indent(lines), 1


def fills(d, n):
    out = []
    for _ in range(d.int(0, n)):
        out += d.pick(FILL).split("\n")
    return out


def g_ctx(d):
    return {"wraps": [d.pick(WRAPS) for _ in range(d.int(0, 3))],
            "pre": [fills(d, 2) for _ in range(4)],
            "post": [fills(d, 1) for _ in range(4)],
            "mod": d.flip(20)}


def place(frag, ctx):
    """({file: text}, name of the judged file, line number of frag[0])"""
    lines, at = list(frag), 0
    for i, w in enumerate(ctx["wraps"]):
        pre = ctx["pre"][i]
        lines, off = wrap(w, pre + lines + ctx["post"][i], i)
        at += len(pre) + off
    pre = ctx["pre"][3]
    text = PRE + "\n".join(pre + lines + ctx["post"][3]) + "\n"
    at += PRE.count("\n") + len(pre) + 1
    if ctx["mod"]:
        return {"main.aca": "import m9\n", "m9.aca": text}, "m9.aca", at
    return {"main.aca": text}, "main.aca", at


RAWKEY = re.compile(r"\b(ast|error|modules|objects|axe|generator|compiler|"
                    r"parser|tokenizer|cli)\.[a-z_]+\.[a-z_]+\b(?!\.aca)")


def judge(frag, legal, ctx, mark=None, why="", base=None,
          msg=None):
    """Compile `frag` (list of lines) inside `ctx`."""
    files, name, at = place(frag, ctx)
    src = files[name]
    tags = ctx["wraps"] + (["module"] if ctx["mod"] else [])
    info = {"nontrivial": bool(ctx["wraps"]) or any(ctx["pre"]),
            "tags": ["legal" if legal else "illegal"]}
    if legal:
        build(files)
        return info
    out, r = try_build(files)
    need(out == "rejected", "accepted although %s:\n%s\nin\n%s",
         why or "a rule forbids it", "\n".join(frag), src)
    text = r.text.strip()
    locs = re.findall(r"([\w.]+\.aca):(\d+):(\d+)", text.split("\n")[-1])
    need(locs, "no location in %r for\n%s", text, src)
    f, ln, col = locs[0][0], int(locs[0][1]), int(locs[0][2])
    lo, hi = (at, at + len(frag) - 1) if mark is None else \
        (at + mark, at + mark)
    need(f == name and lo <= ln <= hi,
         "the offence is at %s:%s, the diagnostic is at %s:%d: %s\n%s",
         name, lo if lo == hi else "%d-%d" % (lo, hi), f, ln, text, src)
    line = src.split("\n")[ln - 1]
    need(1 <= col <= len(line) + 1 and line[:col - 1].strip() != "" or
         line[:col - 1].strip() == "" and
         len(line) - len(line.lstrip()) <= col - 1,
         "column %d is not in the statement: %s\n%s", col, text, src)
    need(not RAWKEY.search(text), "diagnostic is not readable: %s\n%s", text,
         src)
    check_frames(text, files)
    need(msg is None or msg in text.split("\n")[-1],
         "the reason should be %r, not %s\n%s", msg, text, src)
    if base is not None:
        # the place inside of the fragment does not depend on what is around
        pad = len(line) - len(line.lstrip()) - base[2]
        got = (r.kind, ln - at, col - pad if line.strip() else col)
        need(got == base[:2] + (base[3],),
             "alone the fragment is refused with %r, here with %r: %s\n%s",
             base[:2] + (base[3],), got, text, src)
    info["tags"].append(r.kind)
    return info


CALLING = re.compile(r"^\s*\S*?([\w.]+\.aca):(\d+):(\d+): Calling (\w+)$")
CALLEE = re.compile(r"^\s*Callee defined at \S*?([\w.]+\.aca):(\d+):(\d+)$")


def check_frames(text, files):
    """every "Calling f" is at a call of f, every callee at its definition"""
    name = None
    for t in text.split("\n")[:-1]:
        m = CALLING.match(t) or CALLEE.match(t)
        if not m:
            name = None
            continue
        lines = files[m.group(1)].split("\n")
        n, col = int(m.group(2)), int(m.group(3))
        need(1 <= n <= len(lines), "frame outside of the file: %s\n%s", text,
             files[m.group(1)])
        at = lines[n - 1]
        if CALLING.match(t):
            name = m.group(4)
            need(re.search(r"\b%s\b" % name, at) or not name.islower(),
                 "no call of %s is at line %d: %s\n%s", name, n, text,
                 files[m.group(1)])
        elif name:
            need(re.search(r"\b(def|entity|struct)\s+%s\b" % name, at) or
                 re.search(r"\bnew\(", at) or at.startswith("import"),
                 "%s is not defined at line %d: %s\n%s", name, n, text,
                 files[m.group(1)])


_BASE = {}


def base_of(frag):
    """(kind, line, indentation, column) of the refusal of the fragment
    alone"""
    key = "\n".join(frag)
    if key not in _BASE:
        out, r = try_build({"main.aca": PRE + key + "\n"})
        need(out == "rejected", "accepted although a rule forbids it:\n%s",
             key)
        m = re.search(r"\.aca:(\d+):(\d+)", r.text.strip().split("\n")[-1])
        need(m, "no location in %r for\n%s", r.text, key)
        ln = int(m.group(1)) - PRE.count("\n") - 1
        line = frag[ln] if 0 <= ln < len(frag) else ""
        _BASE[key] = (r.kind, ln, len(line) - len(line.lstrip()),
                      int(m.group(2)))
    return _BASE[key]


# --- operators ---------------------------------------------------------------


def ex(d, k):
    return d.pick(KINDS[k][0])


def kind(d):
    """numbers and booleans more often"""
    if d.flip(40):
        return d.pick(["int_lit", "int_var", "int_expr", "bool_lit",
                       "bool_var", "bool_expr", "str", "float", "list"])
    return d.pick(slang.NAMES)


def numeric(k):
    return ty(k) in ("int", "float", "bool")


def small(e):
    return "3" if "MAX" in e or "/" in e else e


def g_ops(d):
    form = d.pick(["un", "bin", "bin", "bin", "cmp", "cmp", "chain", "bool",
                   "aug", "aug", "cond", "iter", "sub", "call"])
    a = kind(d)
    b = kind(d)
    if d.flip(25):
        b = a
    ea, eb = small(ex(d, a)), small(ex(d, b))
    c = {"ctx": g_ctx(d), "form": form, "kinds": [a, b]}
    if form == "un":
        op = d.pick(["+", "-", "not"])
        c["src"] = "%s %s" % (op, ea) if op == "not" else op + ea
        c["legal"] = slang.unary(op, a)
    elif form == "bin":
        op = d.pick("+-*/%")
        c["src"] = "%s %s %s" % (ea, op, eb)
        c["legal"] = slang.binop(op, a, b)
    elif form == "cmp":
        op = d.pick(["==", "!=", "<", "<=", ">", ">="])
        c["src"] = "%s %s %s" % (ea, op, eb)
        c["legal"] = slang.compare(op, a, b)
    elif form == "chain":
        op, op2 = d.pick(["==", "!=", "<", ">="]), d.pick(["==", ">", "<="])
        k3 = kind(d)
        c["src"] = "%s %s %s %s %s" % (ea, op, eb, op2, small(ex(d, k3)))
        c["legal"] = slang.compare(op, a, b) and slang.compare(op2, b, k3)
    elif form == "bool":
        op = d.pick(["and", "or"])
        c["src"] = "%s %s %s" % (ea, op, eb)
        c["legal"] = slang.truthy(a) and slang.truthy(b)
    elif form == "aug":
        if KINDS[a][3] is None:
            a, ea = "int_var", "iv"
        op = d.pick("+-*/%")
        c["src"] = "%s %s= %s" % (ea, op, eb)
        c["legal"] = slang.augmented(op, a, b)
    elif form == "cond":
        c["src"] = "%s %s:\n    pass" % (
            d.pick(["if", "while"]) if a != "bool_lit" else "if", ea)
        c["legal"] = slang.truthy(a)
    elif form == "iter":
        c["src"] = "for v9 in %s:\n    pass" % ea
        c["legal"] = slang.iterable(a)
    elif form == "sub":
        # a list literal and an index that is inside; a map and a key of it
        t = ty(a)
        if t in ("list", "map"):
            ea = {"list": "{4, 5, 6}", "map": "{2: 7, 1: 8}"}[t]
            c["legal"] = b == "int_lit"
            eb = "2" if c["legal"] else eb
            if t == "map" and not c["legal"]:
                c["legal"] = None  # a missing key is another rule
        else:
            c["legal"] = False
        c["src"] = "%s[%s]" % (ea, eb)
    else:
        c["src"] = ea + "()"
        c["legal"] = None if ty(a) in ("function", "type", "template",
                                       "struct") else False
    return c


def run_ops(c):
    if c["legal"] is None:
        raise Skip("another rule decides")
    if "0x1F / " in c["src"] or "% (" in c["src"]:
        raise Skip("division")
    return judge(c["src"].split("\n"), c["legal"], c["ctx"],
                 0 if "\n" in c["src"] else None,
                 "the operands have the wrong types")


# --- the same operators inside of compile time functions ---------------------
CTKINDS = ["int_lit", "bool_lit", "str", "float", "none", "map", "pos",
           "abspos", "offset", "rot", "enf", "cfunc", "bfunc", "type", "tmpl",
           "module", "fstr", "item", "block"]


def ctex(d, k):
    return small(d.pick([e for e in KINDS[k][0] if "ee" not in e]))


def g_ctops(d):
    form = d.pick(["un", "bin", "bin", "bin", "cmp", "cmp", "bool", "aug",
                   "cond", "iter", "var", "result", "arg"])
    a, b = d.pick(CTKINDS), d.pick(CTKINDS)
    if d.flip(40):
        b = a
    if d.flip(30):
        a, b = d.pick(CTKINDS[:4]), d.pick(CTKINDS[:4])
    ea, eb = ctex(d, a), ctex(d, b)
    c = {"ctx": g_ctx(d), "form": form}
    body, legal, head, arg = [], None, "def q9() -> Any", ""
    mark = 1
    if form == "un":
        op = d.pick(["+", "-", "not "])
        body, legal = ["z := " + op + ea], slang.unary(op.strip(), a)
    elif form == "bin":
        op = d.pick("+-*/%")
        body, legal = ["z := %s %s %s" % (ea, op, eb)], slang.binop(op, a, b)
    elif form == "cmp":
        op = d.pick(["==", "!=", "<", ">", "<=", ">="])
        body = ["z := %s %s %s" % (ea, op, eb)]
        legal = slang.compare(op, a, b)
    elif form == "bool":
        body = ["z := %s %s %s" % (ea, d.pick(["and", "or"]), eb)]
        legal = slang.truthy(a) and slang.truthy(b)
    elif form == "aug":
        op = d.pick("+-*/%")
        body = ["z := " + ea, "z %s= %s" % (op, eb)]
        legal, mark = slang.binop(op, a, b), 2
    elif form == "cond":
        body = ["%s %s:" % (d.pick(["if", "while"]) if a != "bool_lit" else
                            "if", ea), "    pass"]
        legal = slang.truthy(a)
    elif form == "iter":
        body, legal = ["for z in %s:" % ea, "    pass"], slang.iterable(a)
    else:
        spec = d.pick(["int", "bool", "float", "Pos", "AbsPos", "Rot",
                       "Offset", "Enfilter", "Any", "None"])
        if d.flip(50) and ty(a) in SPECS:
            spec = ty(a)
        legal = fits(spec, ty(a))
        if form == "var":
            body = ["z: %s = %s" % (spec, ea)]
        elif form == "result":
            head, body, mark = "def q9() -> " + spec, ["result " + ea], None
        else:
            head, arg = "def q9(a9: %s) -> Any" % spec, ea
            body, mark = ["result a9"], None
    c["frag"] = ["const %s:" % head] + indent(body) + ["q9(%s)" % arg]
    c["legal"], c["mark"] = legal, mark
    return c


def run_ctops(c):
    return judge(c["frag"], c["legal"], c["ctx"], c["mark"],
                 "the operands have the wrong types")


# --- binding values to declared types ----------------------------------------


def neighbours(d):
    """further parameters and their (fitting) arguments"""
    ps, pa = [], []
    for i in range(d.pick([0, 0, 1, 1, 2])):
        p, a = d.pick([("%s: int", "1"), ("%s: bool", "True"),
                       ("%s: S", "ss"), ("%s = 4", "5")])
        ps.append(p % ("q%d" % (3 + i)))
        pa.append(a)
    # those without a default come first
    j = sorted(range(len(ps)), key=lambda x: "=" in ps[x])
    return [ps[x] for x in j], [pa[x] for x in j]


def g_bind(d):
    form = d.pick(["var", "auto", "const", "ref", "assign", "arg", "argauto",
                   "inval", "inref", "inconst", "result", "inresult",
                   "inresref", "inrescst", "default", "sfield", "efield",
                   "ctor", "spec"])
    k = kind(d)
    e = ex(d, k)
    # the declared type: mostly related to the value
    rel = [s for s in SPECS if fits(s, ty(k))]
    spec = d.pick(rel) if rel and d.flip(55) else d.pick(SPECS)
    asg = KINDS[k][3]
    ok = fits(spec, ty(k))
    st = spec in STORABLE
    c = {"ctx": g_ctx(d), "form": form, "mark": None}
    if form == "var":
        f, legal = ["q9: %s = %s" % (spec, e)], st and ok
    elif form == "auto":
        f, legal = ["q9 := %s" % e], ty(k) in STORABLE
    elif form == "const":
        typed = d.flip()
        items = ["q9%s = %s" % (": " + spec if typed else "", e)]
        # with valid neighbours
        for _ in range(d.pick([0, 0, 1, 1, 2])):
            items.insert(d.int(0, len(items)), d.pick([
                "%s: int = 1", "%s = 2", '%s: Any = "x"', "%s = {1}",
                "%s: bool = True"]) % ("q%d" % (3 + len(items))))
        f = ["const " + ", ".join(items)]
        if d.flip(30):
            f = ["const (%s%s)" % (", ".join(items), d.pick(["", ","]))]
        legal = const(k) and (ok or not typed)
    elif form == "ref":
        typed = d.flip()
        f = ["&q9%s = %s" % (": " + spec if typed else "", e)]
        legal = None if asg is None else bool(asg) and (ok or not typed)
    elif form == "assign":
        vs = [(n, KINDS[n]) for n in slang.NAMES if KINDS[n][3]]
        same_ = [(n, v) for n, v in vs if fits(v[1], ty(k))]
        n, v = d.pick(same_ if same_ and d.flip(60) else vs)
        if d.flip(15):
            n = d.pick([x for x in slang.NAMES if KINDS[x][3] == 0])
            v = KINDS[n]
        f = ["%s = %s" % (d.pick(v[0]), e)]
        legal = bool(v[3]) and fits(v[1], ty(k))
    elif form == "arg":
        if not st:
            f, legal, e = ["def q9(a9: %s):" % spec, "    pass"], False, None
        else:
            ps, pa = neighbours(d)
            n1 = d.int(0, sum("=" not in x for x in ps))
            ps.insert(n1, "a9: %s" % spec)
            pa.insert(n1, e)
            f = ["def q9(%s):" % ", ".join(ps), "    pass",
                 "q9(%s)" % ", ".join(pa) if d.flip() else
                 "q9(%s)" % ", ".join(d.shuffle(
                     ["%s=%s" % (x.partition(":")[0].partition(" =")[0], y)
                      for x, y in zip(ps, pa)]))]
            legal = ok
            c["mark"] = 2
    elif form == "argauto":
        # an argument without a type has the type of its default value
        k2 = d.pick([n for n in slang.NAMES if const(n)])
        if k2 == "void":
            k2 = "int_lit"
        e2 = d.pick(KINDS[k2][0])
        f = ["def q9(a9 = %s):" % e2, "    pass", "q9(%s)" % e]
        legal = ty(k2) in STORABLE and fits(ty(k2), ty(k))
        c["mark"] = 2 if ty(k2) in STORABLE else 0
    elif form == "inval":
        typed = d.flip()
        f = ["inline def q9(a9%s):" % (": " + spec if typed else ""),
             "    pass", "q9(%s)" % e]
        legal = (ok or not typed) and ty(k) in STORABLE
        c["mark"] = 2
    elif form == "inref":
        typed = d.flip()
        f = ["inline def q9(&a9%s):" % (": " + spec if typed else ""),
             "    pass", "q9(%s)" % e]
        legal = None if asg is None else (ok or not typed) and bool(asg)
        c["mark"] = 2
    elif form == "inconst":
        typed = d.flip()
        f = ["inline def q9(const a9%s):" % (": " + spec if typed else ""),
             "    pass", "q9(%s)" % e]
        legal = (ok or not typed) and const(k)
        c["mark"] = 2
    elif form == "result":
        f = ["def q9() -> %s:" % spec, "    result %s" % e]
        legal = st and ok
        c["mark"] = 1 if st else 0
    elif form == "inresult":
        f = ["inline def q9() -> %s:" % spec, "    result %s" % e, "q9()"]
        legal = ok and ty(k) in STORABLE
        c["mark"] = 1
    elif form == "inresref":
        f = ["inline def q9() -> &%s:" % spec, "    result %s" % e, "q9()"]
        legal = None if asg is None else ok and bool(asg)
        c["mark"] = 1
    elif form == "inrescst":
        f = ["inline def q9() -> const %s:" % spec, "    result %s" % e,
             "q9()"]
        legal = ok and const(k)
        c["mark"] = 1
    elif form == "default":
        f = ["%sdef q9(a9: %s = %s):" % (d.pick(["", "inline "]), spec, e),
             "    pass"]
        legal = ok and const(k) and \
            (st or f[0].startswith("inline"))
        c["mark"] = 0
    elif form == "sfield":
        f = ["struct Q9:", "    a9: %s" % spec]
        legal = st
    elif form == "efield":
        f = ["entity Q9:", "    a9: %s" % spec]
        legal = spec in ("int", "bool", "S", "T", "U", "None")
        c["mark"] = 1
    elif form == "ctor":
        f = ["struct Q9:", "    a9: %s" % (spec if st else "int"),
             "q9 := Q9(a9=%s)" % e]
        legal = fits(spec if st else "int", ty(k))
        c["mark"] = 2
    else:
        bad = d.pick(slang.NOSPEC)
        f, legal = ["q9: " + bad], False
    c["frag"], c["legal"] = f, legal
    return c


def run_bind(c):
    if c["legal"] is None:
        raise Skip("assignable or not is unspecified")
    return judge(c["frag"], c["legal"], c["ctx"], c["mark"],
                 "the value does not fit")


# --- a table of rules --------------------------------------------------------
# "!" marks the line of the offence; "@top" = only outside of functions
BADS = """
!result 3
@top
---
!def q9(a, b = 3):
    pass
---
!def q9(a = 3, b: int):
    pass
---
!def q9(a: int, a: int):
    pass
---
!def q9(a: int = True):
    pass
---
!def q9(a: int = iv):
    pass
---
!def q9(&a: int):
    pass
---
!def q9(const a: int):
    pass
---
!const def q9(&a: int):
    pass
---
!inline def q9(&a = 3):
    pass
---
inline def q9() -> const int:
    result 3
!    result 4
q9()
---
inline def q9() -> &int:
    result iv
!    result iw
q9()
---
inline def q9() -> int:
    pass
!q9()
---
inline def q9(v: int) -> int:
    result v
!q9(1, 2)
---
inline def q9(v: int) -> int:
    result v
!q9(w=1)
---
inline def q9(v: int) -> int:
    result v
!q9()
---
const def q9(a: int) -> int:
    result a
!q9(iv)
---
const def q9() -> int:
!    result iv
q9()
---
const def q9() -> int:
!    iw = 4
    result 3
q9()
---
const def q9() -> int:
!    x: int
    result 3
q9()
---
const def q9() -> int:
    pass
!q9()
---
const def q9() -> int:
!    while 3:
        pass
q9()
---
const def q9() -> int:
!    if 3:
        pass
    result 3
q9()
---
const def q9() -> int:
    x := 1
!    x[1]
    result 3
q9()
---
const def q9() -> int:
!    result 3()
q9()
---
const def q9() -> int:
!    /say hi
    result 3
q9()
---
const def q9() -> int:
!    interface abc:
        pass
    result 3
q9()
---
const def q9() -> int:
!    entity ZZ:
        pass
    result 3
q9()
---
const def q9() -> int:
!    def z():
        pass
    result 3
q9()
---
const def q9() -> int:
!    new()
    result 3
q9()
---
const def q9() -> int:
!    import math
    result 3
q9()
---
const def q9() -> int:
!    const w = 3
    result 3
q9()
---
const def q9() -> int:
!    3 = 4
    result 3
q9()
---
const def q9() -> int:
!    &a = 3
    result 3
q9()
---
const def q9() -> int:
!    &a: int = {True}[0]
    result 3
q9()
---
const def q9() -> int:
!    for x in 3:
        pass
    result 3
q9()
---
const def q9() -> int:
!    result {1}[4]
q9()
---
const def q9() -> int:
!    result {1: 2}[4]
q9()
---
const def q9() -> int:
!    result 1 / 0
q9()
---
const def q9() -> int:
!    result 2147483647 + 1
q9()
---
const def q9() -> int:
    a := 3
!    a := 4
    result a
q9()
---
const def q9() -> int:
    for a in {1}:
        pass
!    result a
q9()
---
const def q9() -> int:
!    result zz9
q9()
---
const def q9() -> int:
!    result {1}.zz9
q9()
---
const def q9() -> int:
    l := {1}
!    l.append()
    result 3
q9()
---
!new()
@top
---
!self
@top
---
def q9():
!    self
@noself
---
def q9():
!    new()
@noself
---
entity Q9:
    new():
        new("pig", Pos(1, 2, 3))
    def f():
!        new()
@noself
---
entity Q9:
    static def f():
!        self
@noself
---
!entity Q9:
    new():
        new("pig", Pos(1, 2, 3))
    new(x: int):
        new("pig", Pos(1, 2, 3))
---
entity Q9:
!    const def f():
        pass
---
entity Q9:
!    new() -> int:
        new("pig", Pos(1, 2, 3))
---
entity Q9:
    a: int
!    a: bool
---
entity Q9:
    a: int
!    def a():
        pass
---
entity Q9:
    def a():
        pass
!    def a():
        pass
---
!entity Q9 extends E:
    x: int
---
!entity Q9 extends S:
    y: int
---
!entity Q9 extends 3:
    y: int
---
!struct Q9 extends E:
    y: int
---
!struct Q9:
    a: int
    a: bool
---
!struct Q9 extends S:
    a: bool
---
!struct Q9 extends S, U:
    b: int
---
struct R9:
    g: Engroup[E]
entity Q9:
!    g: R9
---
!q9 := S(zz=3)
---
!q9 := S(3)
---
!q9 := S(a=True)
---
!fn()
---
!fn(1, 2)
---
!fn(True)
---
!fn(1, v=1)
---
!fn(zz=1)
---
!fn(v=1, 2)
---
!fn(v=1, v=2)
---
!ee.m()
---
!ee.m(1, 2)
---
!ee.m(v=True)
---
!ee.m(w=1)
---
!E(1)
---
!Pos(1, 2)
---
!Pos(1, 2, 3, 4, 5)
---
!Rot(1)
---
!Enfilter(1)
---
!print.tell()
---
!print.tell("a", "b", "c", "d")
---
!print.tell(text="a", zz=1)
---
!ExternEngroup(3)
---
!Entity()
---
!while True:
    pass
---
!while 1 < 2:
    pass
---
!{1}[1]
---
!{1, 2}[-3]
---
!{1}[iv]
---
!{1: 2}[3]
---
!{1: 2}[iv]
---
!{iv}
---
!{1: iv}
---
!{ee: 2}
---
!{Pos(1, 2, 3): 2}
---
!Engroup[int]
---
!Engroup[E, F]
---
!Engroup[3]
---
!q9: Engroup = ge
---
!1 / 0
---
!1 % 0
---
!1.5 / 0
---
!2147483647 + 1
---
!q9 := 2147483648
---
!q9 := -2147483649
---
!q9 := 0x100000000
---
!q9 := 65536 * 65536
---
!swap(iv, bv)
---
!swap(iv, 3)
---
!swap(iv)
---
!upcast(ee, F)
---
!upcast(ee, H)
---
!upcast(ee, 3)
---
!upcast(iv, E)
---
!scb(3, "a")
---
!scb(ee, iv)
---
!q9
---
!q9 = 3
---
!q9 += 3
---
!q9.b = 3
---
!q9()
---
q9 := 1
!q9 := 2
---
q9 := 1
!q9: int = 2
---
q9 := 1
!const q9 = 2
---
q9 := 1
!&q9 = iv
---
q9 := 1
!def q9():
    pass
---
q9 := 1
!inline def q9():
    pass
---
q9 := 1
!const def q9():
    pass
---
q9 := 1
!entity q9:
    pass
---
q9 := 1
!struct q9:
    pass
---
q9 := 1
!import math as q9
---
q9 := 1
!from math import pow as q9
---
import math as q9
!import math as q9
---
!import zz9
---
!from zz9 import a
---
!from math import zz9
---
!math.zz9
---
!math.zz9 = 3
---
!math.pow = 3
---
!from math import pow, pow
---
!const q9 = 1, q9 = 2
---
const q9 = 1
!q9 = 2
---
const q9 = 1
!q9 += 2
---
for q9 in {1}:
!    q9 = 2
---
for q9 in {1}:
    pass
!q9
---
def q9():
    z9 := 1
q9()
!z9
---
inline def q9():
    z9 := 1
q9()
!z9
---
interface q9:
    z9 := 1
!z9
---
def q9():
    def z9():
        pass
!z9()
---
def q9(z9: int):
    pass
!z9
---
def q9():
!    z9 = 1
z9 := 1
---
entity Q9:
    z9: int
    def f():
!        z9 = 1
---
entity Q9:
    def f():
!        self.z9 = 1
---
def q9():
    pass
!q9 = 3
---
!E = 3
---
!E.x
---
!E.m(3)
---
!ee.zz9
---
!ss.zz9
---
!ss.k
---
!ge.zz9
---
!None.x
---
!"a".x
---
!iv.x
---
!int.x
---
!ss.a = True
---
!ee.x = True
---
!ee.b = 1
---
!3 = 4
---
!iv + 1 = 3
---
!fn(3) = 4
---
!{1}[0] = 3
---
!print = 3
---
!ss = su
---
!st = ss
---
!ef = ee
---
!ee = eh
---
!gf = ge
---
!ge = gh
---
!ge = ee
---
!"${iv}"
---
!"${fn}"
---
!"${zz9}"
---
!/say ${iv}
---
!/say ${zz9}
---
interface q9:
    pass
!interface q9:
    pass
---
interface q9/a:
    pass
!interface "q9/a":
    pass
---
!entity Q9:
    override def f():
        pass
---
entity R9:
    virtual def f():
        pass
!entity Q9 extends R9:
    def f():
        pass
---
entity R9:
    virtual def f() -> int:
        result 1
!entity Q9 extends R9:
    override def f() -> bool:
        result True
---
entity R9:
    def f():
        pass
!entity Q9 extends R9:
    virtual def f():
        pass
---
entity R9:
    def f():
        pass
!entity Q9 extends R9:
    override def f():
        pass
---
if 1 < 2:
    pass
!elif 3:
    pass
---
if bv:
    pass
elif bw:
    pass
else:
!    iv = True
""".strip("\n").split("\n---\n")

OKS = """
result 3
@never
---
def q9(b = 3):
    fn(b)
q9()
---
def q9(a: int, b: bool = True, c = 3) -> int:
    result a
q9(1)
q9(1, False)
q9(c=2, a=1)
q9(1, c=4, b=bv)
---
inline def q9(&a: int, const b: Any, c = 3) -> &int:
    a += c
    /say ${b}
    result a
q9(iv, "x") = 3
q9(c=iw, a=iv, b="y") += 2
---
inline def q9(const a) -> const Any:
    result a
const z9 = q9({1, 2})
q9({1})[0]
---
inline def q9() -> int:
    result 3
    result 4
z9 := q9()
---
const def q9(a: int = 3, b = "x") -> Any:
    c := a
    while c < 10:
        c += 1
    for x in {1, 2}:
        c += x
    if c > 3:
        result "p"
    else:
        result b
const z9 = q9()
q9(b="q")
---
const def q9() -> Any:
    l := {1, 2}
    &r = l[0]
    r = 5
    m := {1: 2}
    m[1] = 4
    result l
const z9 = q9()
---
q9 := 1
def w9():
    q9 := 2
    q9 = 3
w9()
q9 = 4
---
for q9 in {1, 2}:
    z9 := q9
    z9 += 1
for q9 in {True}:
    z9 := q9
---
q9 := 2
for q9 in {1}:
    iv = q9
q9 = 3
---
interface q9:
    z9 := 1
interface q9/b:
    z9 := 1
z9 := True
---
inline def q9(a: int):
    z9 := a
q9(1)
q9(2)
z9 := 3
---
if bv:
    z9 := 3
z9 = 4
---
entity Q9 extends F:
    q: S
    new(a: int):
        F.new()
        self.x = a
        self.q.a = 3
        self.y = self.q.a
    def m9() -> int:
        result self.m(3)
    static def s9(k: int) -> int:
        result k
z9 := Q9(3)
Q9.s9(4)
z9.s9(4)
ee = z9
---
struct Q9 extends S:
    n: T
    u: Engroup[E]
z9 := Q9(a=1)
z9.n.k = True
ss = z9
---
import math as q9
from math import pow as p9, min as m9
iv = q9.pow(2, 3) + p9(iv, 2) + m9(iv, 3)
---
const q9 = 1, z9: Any = "x", y9: Any = {1}
q9 + 1
"${q9}${z9}"
---
&q9 = iv
&z9: bool = bv
q9 = 3
z9 = q9 > 2
---
&q9: E = ef
ee = ef
ge = gf
g0 = ge
ss = st
---
{1: 2, "a": 3, True: {1}}[True][0]
{1, {2}}[1][0]
{1: 2}["x".y] if
@never
---
swap(iv, iw)
swap(ee.x, iv)
swap(bv, st.k)
upcast(ef, E).m(3)
scb(ee, "abc") += 1
---
q9: int
z9: Engroup[E]
y9: E
q9 = 3
---
while iv > 300:
    iv += 1
while False:
    pass
---
if bv:
    pass
elif iv > 3:
    q9 := 1
else:
    pass
q9 = 3
---
q9 := -2147483647 + 0
z9 := 2147483647
y9 := 0x7FFFFFFF
---
entity R9:
    virtual def f() -> int:
        result 1
entity Q9 extends R9:
    override def f() -> int:
        result 2
---
entity Q9:
    pass
struct R9:
    pass
def z9():
    pass
---
(iv) = 3
(ss.a) = (4)
((iv)) += (3)
---
print.format("a") + "b" + "c"
"a" + "b"
{1} + {2} + {}
{1, 2} * 3
1.5 + 2 * 0.5 - 1 / 2.0
---
fv()
None
q9 := fv()
z9 := None
""".strip("\n").split("\n---\n")


def parse_rule(t):
    lines = t.split("\n")
    flags = [x for x in lines if x.startswith("@")]
    lines = [x for x in lines if not x.startswith("@")]
    mark = [i for i, x in enumerate(lines) if x.startswith("!")]
    return ([x[1:] if x.startswith("!") else x for x in lines],
            mark[0] if mark else None, flags[0][1:] if flags else "")


BADR = [parse_rule(t) for t in BADS]
OKR = [r for r in map(parse_rule, OKS) if r[2] != "never"]


def g_rules(d):
    legal = d.flip(20)
    frag, mark, flag = d.pick(OKR if legal else BADR)
    ctx = g_ctx(d)
    if flag == "noself":
        ctx["wraps"] = [w for w in ctx["wraps"] if w not in ("method", "new")]
    if flag == "top":
        ctx["wraps"] = [w for w in ctx["wraps"] if w not in FUNCY]
    return {"frag": frag, "legal": legal, "mark": mark, "ctx": ctx}


# What the user is told for every rule, reviewed by hand: the reason has to be
# the offence and not some other one.
MESSAGES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), "p22_messages.json")))


def run_rules(c):
    return judge(c["frag"], c["legal"], c["ctx"], c["mark"],
                 base=None if c["legal"] else base_of(c["frag"]),
                 msg=MESSAGES.get("\n".join(c["frag"])))


# --- names and scopes --------------------------------------------------------
# A program of nested scopes over few names.  A model resolves every name
# lexically; a program without an offence is also run, because resolving to
# the wrong declaration shows in the values.
SN = ["a", "b", "c", "d"]


def g_block(d, depth, n, fn):
    return [g_stmt(d, depth, fn) for _ in range(d.int(1, n))]


def g_stmt(d, depth, fn):
    k = d.wpick((6, "decl"), (5, "set"), (7, "show"), (2, "const"),
                (2, "ref"), (2, "aug"), (3, "call"),
                *([(3, "def"), (2, "inline"), (2, "for"), (2, "if")]
                  if depth else []), *([(1, "iface")] if depth and fn
                                       else []))
    n = d.pick(SN)
    def num():
        return d.pick([d.int(0, 99), d.int(0, 99), n, d.pick(SN)])
    if k == "decl":
        return [k, n, num(), d.int(0, 1)]
    if k == "const":
        return [k, n, num()]
    if k in ("set", "aug"):
        return [k, n, d.pick([d.int(0, 99), d.pick(SN)])]
    if k in ("show", "call"):
        return [k, n]
    if k == "ref":
        return [k, n, d.pick(SN)]
    # an interface may be defined once only
    body = g_block(d, depth - 1, 4, fn and k not in ("inline", "for"))
    if k == "def":
        return [k, n, d.pick([None, None, d.pick(SN)]), body, d.int(0, 2),
                num()]
    if k == "inline":
        return [k, n, d.pick([None, None, d.pick(SN)]), body, d.int(1, 2),
                num()]
    if k == "for":
        return [k, n, [d.int(0, 9) for _ in range(d.int(1, 2))], body]
    if k == "if":
        return [k, body, g_block(d, depth - 1, 2, fn) if d.flip(30)
                else None]
    return [k, body]


def g_scope(d):
    prog = g_block(d, 3, 7, True)
    # most programs should get far: declare what would be missing
    m = ScopeModel()
    for _ in range(40):
        try:
            m = ScopeModel()
            m.run(prog)
            break
        except Offence as e:
            if e.kind == "undefined" and e.where is not None and \
                    d.flip(90) and e.name in SN:
                e.where[0].insert(e.where[1], ["decl", e.name, d.int(0, 99), 0])
            elif e.kind == "shadow" and d.flip(85):
                st = e.where[0][e.where[1]]
                free = [x for x in SN + ["e", "f", "g", "h"]
                        if x not in m.env.names]
                if not free or st[0] not in (
                        "decl", "const", "ref", "def", "inline"):
                    break
                st[1] = free[0]
            elif e.kind in ("assign", "call", "cantref", "kind") and \
                    d.flip(85):
                del e.where[0][e.where[1]]
                if not e.where[0]:
                    e.where[0].append(["pass"])
            else:
                break
        except Unset:
            break
    return prog


class Offence(Exception):
    def __init__(self, kind, name, where):
        super().__init__("%s %s" % (kind, name))
        self.kind, self.name, self.where = kind, name, where


class Unset(Exception):
    pass


class Env:
    def __init__(self, outer):
        self.names = {}
        self.outer = outer

    def find(self, n):
        e = self
        while e:
            if n in e.names:
                return e.names[n]
            e = e.outer
        return None


class Fn:
    def __init__(self, code, param, default):
        self.code, self.param, self.default = code, param, default


class ScopeModel:
    """Static part: walk in the order of the compiler and build code;
    then execute the code."""

    def __init__(self):
        self.shown = []
        self.dups = 0
        self.env = Env(None)

    def run(self, prog):
        code = self.block(prog, self.env)
        for f in code:
            f()

    def block(self, body, env):
        return [self.stmt(body, i, env) for i in range(len(body))]

    def declare(self, env, n, v, where):
        if n in env.names:
            raise Offence("shadow", n, where)
        if env.find(n) is not None:
            self.dups += 1
        env.names[n] = v

    def need_name(self, env, n, where):
        v = env.find(n)
        if v is None:
            raise Offence("undefined", n, where)
        return v

    def value(self, env, x, where):
        if isinstance(x, int):
            return lambda: x
        v = self.need_name(env, x, where)
        if isinstance(v, Fn):
            raise Offence("kind", x, where)
        if isinstance(v, tuple):
            return lambda: v[0]

        def get():
            if v[0] is None:
                raise Unset
            return v[0]
        return get

    def const(self, env, x, where):
        if isinstance(x, int):
            return x
        v = self.need_name(env, x, where)
        if not isinstance(v, tuple):
            raise Offence("kind", x, where)
        return v[0]

    def stmt(self, body, i, env):
        s = body[i]
        where = (body, i)
        h = s[0]
        if h == "pass":
            return lambda: None
        if h == "decl":
            # the value does not see the new name
            get = self.value(env, s[2], where)
            cell = [None]
            if s[2] == s[1]:
                self.dups += 1
            self.declare(env, s[1], cell, where)

            def init():
                cell[0] = get()
            return init
        if h == "const":
            v = env.find(s[2]) if isinstance(s[2], str) else None
            if not isinstance(v, Fn):       # a function is a constant
                v = (self.const(env, s[2], where),)
            self.declare(env, s[1], v, where)
            return lambda: None
        if h == "ref":
            v = self.need_name(env, s[2], where)
            if not isinstance(v, list):
                raise Offence("cantref", s[2], where)
            self.declare(env, s[1], v, where)
            return lambda: None
        if h in ("set", "aug"):
            cell = self.need_name(env, s[1], where)
            if h == "aug":
                get = self.value(env, s[2], where)
            if not isinstance(cell, list):
                raise Offence("assign", s[1], where)
            if h == "set":
                get = self.value(env, s[2], where)

            def put():
                v = get()
                if h == "aug":
                    if cell[0] is None:
                        raise Unset
                    v += cell[0]
                cell[0] = v
            return put
        if h == "show":
            get = self.value(env, s[1], where)
            return lambda: self.shown.append(str(get()))
        if h == "call":
            v = self.need_name(env, s[1], where)
            if not isinstance(v, Fn):
                raise Offence("call", s[1], where)
            return self.call(v, v.default)
        if h == "def":
            dv = self.const(env, s[5], where) if s[2] else None
            inner = Env(env)
            cell = [None]
            if s[2]:
                self.declare(inner, s[2], cell, where)
            code = self.block(s[3], inner)
            f = Fn(code, cell if s[2] else None, dv)
            self.declare(env, s[1], f, where)
            calls = [self.call(f, 40 + k) for k in range(s[4])]
            return lambda: [c() for c in calls] and None
        if h == "inline":
            # names are resolved where it is defined, at every call
            if s[2]:
                self.const(env, s[5], where)
            self.declare(env, s[1], Inl(), where)
            codes = []
            for k in range(s[4]):
                inner = Env(env)
                cell = [None]
                if s[2]:
                    inner.names[s[2]] = cell
                codes.append((cell, 40 + k, self.block(s[3], inner)))

            def go():
                for cell, v, code in codes:
                    cell[0] = v
                    for f in code:
                        f()
            return go
        if h == "for":
            codes = []
            for v in s[2]:
                inner = Env(env)
                if env.find(s[1]) is not None:
                    self.dups += 1
                inner.names[s[1]] = (v,)
                codes += self.block(s[3], inner)
            return lambda: [f() for f in codes] and None
        if h == "if":
            code = self.block(s[1], env)
            if s[2] is not None:
                self.block(s[2], env)
            return lambda: [f() for f in code] and None
        assert h == "iface"
        self.block(s[1], Env(env))
        return lambda: None

    def call(self, f, v):
        if isinstance(f, Inl):
            raise Offence("inline", "", None)

        def go():
            if f.param is not None:
                f.param[0] = v
            for c in f.code:
                c()
        return go


class Inl(Fn):
    def __init__(self):
        super().__init__(None, None, None)


class Render:
    def __init__(self):
        self.out = ["import print", "t9 := 1"]
        self.line = {}
        self.k = 0
        self.params = {}

    def block(self, body, ind):
        for s in body:
            self.stmt(s, ind)

    def stmt(self, s, ind):
        p = "    " * ind
        o = self.out
        h = s[0]
        self.line[id(s)] = len(o) + 1
        if h == "pass":
            o.append(p + "pass")
        elif h == "decl":
            o.append("%s%s%s %s" % (p, s[1], [" :=", ": int ="][s[3]], s[2]))
        elif h == "const":
            o.append("%sconst %s = %s" % (p, s[1], s[2]))
        elif h == "ref":
            o.append("%s&%s = %s" % (p, s[1], s[2]))
        elif h == "set":
            o.append("%s%s = %s" % (p, s[1], s[2]))
        elif h == "aug":
            o.append("%s%s += %s" % (p, s[1], s[2]))
        elif h == "show":
            o.append('%sprint.tell(print.format("%%0", %s))' % (p, s[1]))
        elif h == "call":
            o.append("%s%s()" % (p, s[1]))
        elif h in ("def", "inline"):
            o.append("%s%sdef %s(%s):" % (
                p, "inline " if h == "inline" else "", s[1],
                "%s: int = %s" % (s[2], s[5]) if s[2] else ""))
            self.block(s[3], ind + 1)
            for k in range(s[4]):
                o.append("%s%s(%s)" % (p, s[1], 40 + k if s[2] else ""))
        elif h == "for":
            o.append("%sfor %s in {%s}:" % (p, s[1], ", ".join(
                map(str, s[2]))))
            self.block(s[3], ind + 1)
        elif h == "if":
            o.append(p + "if t9 == 1:")
            self.block(s[1], ind + 1)
            if s[2] is not None:
                o.append(p + "else:")
                self.block(s[2], ind + 1)
        else:
            self.k += 1
            o.append("%sinterface i%d:" % (p, self.k))
            self.block(s[1], ind + 1)


def run_scope(prog):
    r = Render()
    r.block(prog, 0)
    src = "\n".join(r.out) + "\n"
    m = ScopeModel()
    try:
        m.run(prog)
    except Unset:
        raise Skip("a variable may be read before it is set")
    except Offence as e:
        if e.kind == "inline":
            raise Skip("inline function called elsewhere")
        out, x = try_build(src)
        need(out == "rejected", "accepted although %s %s\n%s", e.kind, e.name,
             src)
        text = x.text.strip()
        loc = re.search(r"main\.aca:(\d+):(\d+)", text.split("\n")[-1])
        want = r.line[id(e.where[0][e.where[1]])]
        need(loc and int(loc.group(1)) == want,
             "the offence (%s %s) is at line %d: %s\n%s", e.kind, e.name,
             want, text, src)
        if e.name:
            need('"%s"' % e.name in text or e.kind not in (
                "undefined", "shadow"),
                "the name %r is not in %r\n%s", e.name, text, src)
        check_frames(text, {"main.aca": src})
        return {"nontrivial": True, "tags": [e.kind]}
    b = build(src)
    vm = execute(b, None, src)
    same([e[2] for e in vm.events if e[0] == "tellraw"], m.shown,
         "values of names", src, b)
    return {"nontrivial": m.dups > 0 and len(m.shown) > 0, "tags": ["runs"]}


CHECKS = [
    Check("scope", g_scope, run_scope, 4000, 100000),
    Check("operators", g_ops, run_ops, 4000, 100000),
    Check("compiletime", g_ctops, run_ctops, 2500, 60000),
    Check("binding", g_bind, run_bind, 4000, 100000),
    Check("rules", g_rules, run_rules, 6000, 100000),
]
