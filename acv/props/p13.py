"""P13: layout, comments and redundant parentheses do not change the output."""
import os
import random

from ..core import Check, Skip, need
from ..h import build, same, try_build
from .. import harvest, lang, rename
from .p10 import FRONT

RULE = "the two texts differ and the program generates commands"
ASSUMPTIONS = [
    "layout variations: indentation width, blank lines, "
    "line and block comments, spaces between tokens, redundant parentheses, "
    "line breaks inside brackets and after backslashes, literal radix, "
    "line terminators",
]


class Rnd(lang.Style):
    def __init__(self, d, opts):
        self.d = d
        self.o = opts
        self.indent = opts["indent"]
        self.depth = 0

    def sp(self):
        d = self.d
        if not self.o["space"]:
            return " "
        k = d.int(0, 5)
        return [" ", "  ", "", "   ", " ", " \\\n "][k] \
            if self.o["cont"] or k < 5 else " "

    def par(self):
        return self.o["par"] and self.d.flip(15)

    def brk(self):
        if not self.o["brk"] or not self.d.flip(25):
            return ""
        return self.d.pick(["\n", "\n        ", "\n\n", " # note\n  ",
                            " #* c *# "])

    def line(self, ind):
        d = self.d
        if not self.o["comments"] or not d.flip(30):
            return ""
        if d.flip(40):
            return d.pick(["", "  "]) + self.block()
        return d.pick(["", "# comment", "        # odd indentation",
                       "#* block\n   comment *#", "    ", "  ",
                       "#** doc # ** *#", "  #* one *#"])

    def block(self):
        """a long comment of any text; it ends at the first "*#" """
        d = self.d
        t = "".join(d.pick(["*", "*", "#", "\n", " ", "a", "\\", "\"", "{",
                            "x := 1\n"]) for _ in range(d.int(0, 8)))
        while "*#" in t:
            t = t.replace("*#", "# *")
        if t.startswith("#"):
            t = " " + t
        return "#*" + t + "*#"

    def lead(self):
        d = self.d
        if not self.o["cont"] or not d.flip(8):
            return ""
        return d.pick(["\\\n", "\\\n   ", "\\\n        ", "\\\n\\\n  "])

    def eol(self):
        if not self.o["comments"] or not self.d.flip(20):
            return ""
        return self.d.pick(["  # trailing", "   ", " #* c *#", " "])

    def num(self, n):
        if self.o["radix"] and n >= 0 and self.d.flip(40):
            return self.d.pick([hex(n), bin(n), "0x%X" % n, oct(n), str(n)])
        return lang.lit(n)


def g(d):
    prog = lang.Gen(d, small=d.flip(60), depth=3, nest=3, say=False,
                    math=False).program()
    opts = {"indent": d.pick(["    ", "  ", " ", "     ", "        ", "   "]),
            "space": d.flip(60), "cont": d.flip(40), "par": d.flip(60),
            "brk": d.flip(50), "comments": d.flip(60), "radix": d.flip(50)}
    alt = lang.render(prog, Rnd(d, opts))
    nl = d.pick(["\n", "\n", "\r\n"])
    if d.flip(20):
        alt = alt.rstrip("\n")
    return {"a": lang.render(prog), "b": alt.replace("\n", nl)}


def run(case):
    a = build(case["a"])
    b = build(case["b"])
    same(b.files, a.files, "generated files after a layout change", {
        "first": case["a"], "second": case["b"]})
    return {"nontrivial": case["a"] != case["b"] and
            any(t.strip() for t in a.files.values())}

# --- every program -----------------------------------------------------------

def g_all(d):
    return {"h": harvest.draw(d), "seed": d.int(0, 10 ** 6), "o": {
        "indent": d.int(1, 3), "blank": d.flip(), "end": d.flip(),
        "space": d.flip(), "cont": d.flip(), "brk": d.flip(),
        "nl": d.flip(20), "last": d.flip(20)}}


BLANK = ["\n", "    \n", "# comment\n", "      # 'odd' \"note\n",
         "#* block\n   comment *#\n", "\n\n", "   #* one *#   \n",
         "#** doc # *\n ** *#\n"]
TRAIL = ["  ", " # x := \"1", " #* c *#", "#note", " #* a\n   b *# "]


def relayout(text, rnd, o):
    """(text with another layout, new line numbers of the old lines)"""
    toks = rename.lex(text)
    out = []
    where = [1]
    now = 1
    depth = 0
    inner = []          # open `${`: brackets open in it
    start = True        # at the start of a logical line
    prev = ("nl", "\n")
    iface = False
    cmd = False         # in a line with a command

    def put(t, old=False):
        nonlocal now
        out.append(t)
        for _ in range(t.count("\n")):
            now += 1
            if old:
                where.append(now)
    for i, (k, t) in enumerate(toks):
        if inner:
            if k == "op" and t in "([{":
                inner[-1] += 1
            elif k == "op" and t == "}" and not inner[-1]:
                inner.pop()
            elif k == "op" and t in ")]}":
                inner[-1] -= 1
            elif k == "raw" and t.endswith("${"):
                inner.append(0)
            put(t, True)
            prev = (k, t)
            start = False
            continue
        if k == "raw" and start and t[0] == "/":
            cmd = True
        if k == "raw" and t.endswith("${"):
            inner.append(0)
        if k == "op" and t in "([{":
            depth += 1
        elif k == "op" and t in ")]}":
            depth = max(0, depth - 1)
        if k == "nl":
            if o["end"] and rnd.random() < .2 and not cmd and not (
                    prev[0] == "raw" and prev[1][0] == "#") and \
                    prev[0] not in ("nl", "ws"):
                put(rnd.choice(TRAIL))
            put(t, True)
            if not depth:
                start = True
                cmd = False
                if o["blank"] and rnd.random() < .15:
                    # the comment belongs to the new line
                    where.pop()
                    put(rnd.choice(BLANK))
                    where.append(now)
        elif k == "ws" and start and "\\" not in t:
            put(t * o["indent"], True)
        elif k == "ws" and t == " " and not start and not iface:
            r = rnd.random()
            if o["brk"] and depth and r < .2:
                put(rnd.choice(["\n", " \n        ", " # note\n  ",
                                " #* c *# ", "\n\n"]))
            elif o["cont"] and r < .1:
                put(rnd.choice([" \\\n ", "\\\n", " \\\n\\\n      "]))
            elif o["space"] and r < .6:
                put("   ")
            else:
                put(t)
        else:
            put(t, True)
            if k != "ws":
                start = False
        if k == "id":
            iface = t == "interface"
        elif k != "ws":
            iface = False
        prev = (k, t)
    return "".join(out), where


def run_all(case):
    files, main, cfg = harvest.source(case["h"])
    o = case["o"]
    cfg = dict(cfg, debug_comments=False)
    out, r = try_build(files, main=main, **cfg)
    if out == "rejected" and r.kind in FRONT:
        raise Skip("no layout")
    rnd = random.Random(case["seed"])
    alt, maps = {}, {}
    for f in sorted(files):
        t = files[f]
        if f.endswith(".aca"):
            if isinstance(t, bytes):
                raise Skip("bytes")
            if "\r" in t or "\t" in t:
                raise Skip("a layout of its own")
            t, maps[f] = relayout(t, rnd, o)
            if o["last"]:
                t = t.rstrip("\n")
            if o["nl"]:
                t = t.replace("\n", "\r\n")
        alt[f] = t
    out2, r2 = try_build(alt, main=main, **cfg)
    tag = case["h"]["prop"]
    need(out2 == out, "%s with another layout: %s\n%s", out2,
         r2.text if out2 == "rejected" else "", alt)
    if out == "rejected":
        same(r2.kind, r.kind, "kind of error with another layout", alt)
        if r.err.location.linecol_set() and r2.err.location.linecol_set():
            f = os.path.relpath(r.err.location.file, os.path.dirname(
                r.err.location.file)) if r.err.location.file else ""
            f = [x for x in maps if x.endswith(f)]
            if len(f) == 1:
                m = maps[f[0]]
                n = r.err.location.linecol[0]
                if n < len(m):
                    got = r2.err.location.linecol[0]
                    need(m[n - 1] <= got < m[n],
                         "the error of line %d is at line %d, not in %d..%d"
                         "\n%s\n%s", n, got, m[n - 1], m[n] - 1, files, alt)
        return {"nontrivial": alt != files, "tags": [tag, "refused"]}
    same(r2.files, r.files, "generated files after a layout change", {
        "first": files, "second": alt})
    same(r2.others, r.others, "other files after a layout change", alt)
    return {"nontrivial": alt != files and
            any(t.strip() for t in r.files.values()), "tags": [tag]}


CHECKS = [Check("layout", g, run, 7000, 150000),
          Check("everything", g_all, run_all, 5000, 100000)]
