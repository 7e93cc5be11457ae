"""Lexing of Acacia source, as far as needed to find its identifiers."""
import re

KEYWORDS = {
    'False', 'None', 'True', 'and', 'as', 'const', 'def', 'elif', 'else',
    'entity', 'extends', 'for', 'from', 'if', 'import', 'in', 'inline',
    'interface', 'new', 'not', 'or', 'override', 'pass', 'result', 'self',
    'static', 'struct', 'virtual', 'while'}


def idstart(c):
    return c.isalpha() or c == "_"


class Lexer:
    """toks: [(kind, text)], kind in "id", "op", "ws", "nl", "raw";
    their texts joined are the source."""

    def __init__(self, text):
        self.s = text
        self.i = 0
        self.toks = []
        self.code(False)

    def put(self, kind, j):
        if j > self.i:
            self.toks.append((kind, self.s[self.i:j]))
        self.i = j

    def code(self, inner):
        """code up to the end, or to the brace that closes an expression"""
        s, n = self.s, len(self.s)
        depth = 0
        start = not inner       # at the start of a logical line
        path = False            # after `interface`
        while self.i < n:
            c = s[self.i]
            if c == "\n":
                self.put("nl", self.i + 1)
                if not inner and depth == 0:
                    start = True
                continue
            if c == "\\" and s[self.i + 1:self.i + 2] == "\n":
                self.put("ws", self.i + 2)
                continue
            if c in " \r\t":
                self.put("ws", self.i + 1)
                continue
            if c == "#":
                if s[self.i + 1:self.i + 2] == "*":
                    j = s.find("*#", self.i + 2)
                    self.put("raw", n if j < 0 else j + 2)
                else:
                    j = s.find("\n", self.i)
                    self.put("raw", n if j < 0 else j)
                continue
            if c == "/" and start:
                start = False
                self.command()
                continue
            start = False
            if c == '"':
                path = False
                self.string()
                continue
            if path:
                j = self.i
                while j < n and s[j] not in ":\n \\#":
                    j += 1
                self.put("raw", max(j, self.i + 1))
                path = False
                continue
            if idstart(c):
                j = self.i
                while j < n and (idstart(s[j]) or s[j] in "0123456789"):
                    j += 1
                path = s[self.i:j] == "interface"
                self.put("id", j)
                continue
            if c.isdigit():
                j = self.i
                while j < n and (s[j].isalnum() or s[j] == "."
                                 and s[j + 1:j + 2].isdigit()):
                    j += 1
                self.put("raw", j)
                continue
            if c in "([{":
                depth += 1
            elif c in ")]}":
                if inner and depth == 0 and c == "}":
                    self.put("op", self.i + 1)
                    return
                depth = max(depth - 1, 0)
            self.put("op", self.i + 1)

    def text(self, stop):
        s, n = self.s, len(self.s)
        j = self.i
        while j < n:
            if s.startswith(stop, j):
                j += len(stop) if stop != "\n" else 0
                self.put("raw", j)
                return
            if s.startswith("\\#(", j):
                while j < n and s[j] not in ")\n":
                    j += 1
            elif s[j] == "\\":
                j += 2 if s[j + 1:j + 2] in ("\\", "$") or (
                    stop == '"' and s[j + 1:j + 2] == '"') else 1
            elif s.startswith("${", j):
                self.put("raw", j + 2)
                self.code(True)
                j = self.i
            elif s[j] == "\n" and stop == '"':
                break
            else:
                j += 1
        self.put("raw", min(j, n))

    def string(self):
        self.put("raw", self.i + 1)
        self.text('"')

    def command(self):
        if self.s.startswith("/*", self.i):
            self.put("raw", self.i + 2)
            self.text("*/")
        else:
            self.put("raw", self.i + 1)
            self.text("\n")


def lex(text):
    return Lexer(text).toks


def idents(toks):
    return [t for k, t in toks if k == "id" and t not in KEYWORDS]


def defined(toks):
    """names that the source defines, in order"""
    ts = [(k, t) for k, t in toks if k not in ("ws",) and
          not (k == "raw" and t.startswith("#"))]
    out = []

    def add(t):
        if t not in KEYWORDS and t not in out:
            out.append(t)

    def at(i):
        return ts[i] if 0 <= i < len(ts) else ("nl", "\n")
    i = 0
    par = []            # one entry per open bracket: is it a parameter list
    pend = False
    imp = None
    for i, (k, t) in enumerate(ts):
        first = at(i - 1)[0] == "nl" and not par
        if k == "nl":
            if not par:
                imp = None
            continue
        if t in "([{" and k == "op":
            par.append(pend and t == "(")
            pend = False
            continue
        if t in ")]}" and k == "op":
            if par:
                par.pop()
            continue
        if k != "id":
            continue
        if t in KEYWORDS:
            if t == "new":
                pend = at(i + 1)[1] == "("
            if t == "import":
                imp = "import" if imp != "from" else "names"
            elif t == "from":
                imp = "from"
            continue
        prev, nxt = at(i - 1)[1], at(i + 1)[1]
        nx2 = at(i + 2)[1]
        if prev in ("def", "struct", "entity", "for"):
            add(t)
            if prev == "def":
                pend = True
        elif prev == "as":
            add(t)
        elif imp:
            continue
        elif first and nxt == ":":
            add(t)
        elif first and nxt == "(":
            pass
        elif prev == "const":
            add(t)
        elif prev == "&" and (nxt in (":", "=", ",", ")")):
            add(t)
        elif par and par[-1] and prev in ("(", ",", "nl", "\n") \
                and nxt in (":", "=", ",", ")") and nx2 != "=":
            add(t)
    return out


def words(text):
    return set(re.findall(r"[^\W\d]\w*", text))


def apply(toks, names):
    return "".join(names.get(t, t) if k == "id" else t for k, t in toks)
