"""P10: any source text is either compiled or refused with a located error."""
import os
import re

from ..core import Check, Skip, Violation, gen, need
from ..h import try_build
from .. import build as builder, harvest, rename, soup

RULE = ("token soup of at least three tokens; or the text gets past tokenizer and parser (it is compiled, or refused "
        "by a later stage), or it is a mutation that keeps at least one "
        "statement of a real program")
ASSUMPTIONS = [
    "programs nest at most 8 levels and inline functions do not call "
    "themselves (Python's recursion limit is not part of the property)",
    "compile-time loops in generated programs are short",
]

CORPUS = {}
_dir = os.path.join(os.path.dirname(os.path.dirname(__file__)), "corpus")
for _n in sorted(os.listdir(_dir)):
    with open(os.path.join(_dir, _n), encoding="utf-8") as _f:
        CORPUS[_n] = _f.read()

MOD = "def test(x: int) -> bool:\n    result x > 3\nconst V = 4\n" \
      "inline def get_counter() -> const Any:\n" \
      "    n: int = 0\n    def c():\n        n += 1\n    result c\n"

FRONT = {
    "INVALID_CHAR", "INTEGER_REQUIRED", "INT_OVERFLOW",
    "UNCLOSED_LONG_COMMENT", "UNCLOSED_LONG_COMMAND", "UNCLOSED_QUOTE",
    "UNCLOSED_FEXPR", "UNCLOSED_FONT", "UNCLOSED_BRACKET",
    "UNMATCHED_BRACKET", "UNMATCHED_BRACKET_PAIR", "INVALID_UNICODE_ESCAPE",
    "INVALID_FONT", "CHAR_AFTER_CONTINUATION", "EOF_AFTER_CONTINUATION",
    "INVALID_DEDENT", "INTERFACE_PATH_EXPECTED", "UNEXPECTED_TOKEN",
    "EMPTY_BLOCK", "IO",
}


def judge(src, extra=None, **cfg):
    files = {"main.aca": src}
    if extra:
        files.update(extra)
    out, r = try_build(files, **cfg)
    if out == "ok":
        return {"nontrivial": True, "tags": ["compiled"]}
    text = r.text
    need(text.strip() != "", "empty diagnostic for\n%s", src)
    if r.kind != "IO":
        m = re.search(r"main\.aca:(\d+):(\d+)", text) or \
            re.search(r"[\w/.-]+\.aca:(\d+):(\d+)", text)
        need(m is not None, "diagnostic without a source location: %r for\n%r",
             text, src)
        if "main.aca:" in m.group(0):
            body = src if isinstance(src, str) else \
                src.decode("utf-8", "replace")
            n = body.count("\n") + body.count("\r") + 2
            need(1 <= int(m.group(1)) <= n and int(m.group(2)) >= 0,
                 "diagnostic location outside of the file: %r for\n%r",
                 text, src)
    return {"nontrivial": r.kind not in FRONT, "tags": [r.kind]}


# --- generators -----------------------------------------------------------

TOK = re.compile(r"[ \t]+|\n|[A-Za-z_]\w*|\d+|\"|.", re.S)
NOISE = ["(", ")", "[", "]", "{", "}", ":", ",", ".", "=", "==", ":=", "->",
         "+", "-", "*", "/", "%", "&", "\n", "\n    ", "    ", "\\", '"',
         "#", "#*", "*#", "/*", "*/", "${", "}", "\\#(", "\\u12", "\\x4",
         "0x", "0b2", "1.", ".5", "99999999999", "def", "inline", "const",
         "entity", "struct", "extends", "virtual", "override", "static",
         "interface", "new", "self", "result", "import", "from", "as", "for",
         "in", "if", "elif", "else", "while", "pass", "not", "and", "or",
         "None", "True", "x", "int", "@", "$", "'", "\t", "\r", "\r\n",
         "\f", "\x00", "é", "中", "\U0001f600", "\ufeff", "!", "!=", "<=",
         "?", "`", "~", "^", "|", ";", "1e5", "1.5.2", "_", "1.\u00b2", "7\u0663", "\u00b2", "\u0967", "\u00bd",
         
         "\\U00110000", "\\U0010FFFF", "\\uD800", "\\UFFFFFFFF", "\\x00",
         '"\\U00110000"', '"\\uDFFF"', '"\\x"', "/\\U00110000", "/\\uD800\n",
         '"${', '"\\', "/*\n", "/#", '""""', "0x\u0661", "\\x\u0664\u0664", "1.\u0665", "\u2167", "\uff11", "a\u0301",
         "\u00a0", "\u3000", "\u2028", "\x85", "\x0b", "\x1c", "\u00aa"]


def g_soup(d):
    n = d.int(1, 40)
    out = []
    for _ in range(n):
        out.append(d.pick(NOISE))
        if d.flip(40):
            out.append(" ")
    return "".join(out)


def chunk(d, text):
    """A window of whole top-level statements of a corpus program."""
    lines = text.split("\n")
    heads = [i for i, ln in enumerate(lines) if ln and ln[0] not in " \t#"]
    i = d.int(0, len(heads) - 1)
    j = min(len(heads) - 1, i + d.int(1, 12))
    return "\n".join(lines[heads[i]:heads[j]]) + "\n"


def g_mutant(d):
    name = d.pick(sorted(CORPUS))
    text = chunk(d, CORPUS[name]) if d.flip(70) else CORPUS[name]
    toks = TOK.findall(text)
    if not toks:
        toks = ["pass", "\n"]
    for _ in range(d.int(1, 4)):
        i = d.int(0, len(toks) - 1)
        k = d.int(0, 5)
        if k == 0:
            toks[i] = d.pick(NOISE)
        elif k == 1:
            toks.insert(i, d.pick(NOISE))
        elif k == 2:
            del toks[i]
        elif k == 3:
            j = d.int(0, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4:
            j = d.int(0, len(toks) - 1)
            toks.insert(i, toks[j])
        else:
            toks = toks[:i] + [d.pick(["", "\n", "\\"])]
        if not toks:
            toks = ["\n"]
    return "".join(toks)


def rawbytes(d, hi):
    return bytes(d.int(0, 255) for _ in range(d.int(0, hi)))


def g_bytes(d):
    k = d.int(0, 2)
    if k == 0:
        return {"hex": rawbytes(d, 60).hex()}
    if k == 1:
        return {"hex": "".join(
            d.anychar() for _ in range(d.int(0, 60))).encode(
            "utf-8", "surrogatepass").hex()}
    base = soup.stmt(d, 1, 0).encode()
    i = d.int(0, len(base))
    return {"hex": (base[:i] + rawbytes(d, 6) + base[i:]).hex()}


def run_text(case):
    return judge(case, {"mod.aca": MOD})


def run_tokens(case):
    info = judge(case, {"mod.aca": MOD})
    info["nontrivial"] = len(case.split()) > 2
    return info


def run_mutant(case):
    # a mutation may make an inline function call itself
    m = re.findall(r"inline\s+def\s+(\w+)", case)
    for n in m:
        if len(re.findall(r"\b%s\b" % n, case)) > 2 and \
                re.search(r"inline\s+def\s+%s\b[^\n]*\n(\s+[^\n]*\n)*?"
                          r"\s+[^\n]*\b%s\b" % (n, n), case):
            from ..core import Skip
            raise Skip
    info = judge(case, {"mod.aca": MOD})
    info["nontrivial"] = True
    return info


def run_bytes(case):
    info = judge(bytes.fromhex(case["hex"]))
    info["nontrivial"] = True
    return info


# --- mutants of the programs of the other properties -------------------------

LITERALS = ["0", "1", "-1", "2147483647", "1.5", '""', '"a"', "True", "None",
            "{}", "{1}", "{1: 2}", "self", "f", "int", "float", "list[int]",
            "(1)", "x.y", "x[0]", "f()", "f(1, a=2)", "new", "not x", "-x",
            "x + 1", "x == x", '"${x}"', "1 / 0", "const", "inline", "list",
            "Pos(0, 0, 0)", "Any", "type", "nothing"]
OPS = ["+", "-", "*", "/", "%", "==", "!=", "<", ">=", "and", "or", "=", ":=",
       "+=", ".", ",", ":", "->", "(", ")", "[", "]", "{", "}", "&", "@"]


def g_other(d):
    return {"h": harvest.draw(d), "ms": [
        [d.int(0, 10 ** 6), d.int(0, 6), d.int(0, 10 ** 6)]
        for _ in range(d.int(1, 3))]}


def mutate(text, ms):
    toks = [t for _, t in rename.lex(text)]
    kinds = [k for k, _ in rename.lex(text)]
    ids = sorted({t for t, k in zip(toks, kinds) if k == "id"}) or ["x"]
    lines = text.split("\n")
    for at, k, what in ms:
        if k == 0:      # another identifier
            c = [i for i, x in enumerate(kinds) if x == "id"]
            if c:
                toks[c[at % len(c)]] = ids[what % len(ids)]
        elif k == 1:    # an expression instead of an identifier or number
            c = [i for i, x in enumerate(kinds)
                 if x == "id" or x == "raw" and toks[i][:1].isdigit()]
            if c:
                toks[c[at % len(c)]] = LITERALS[what % len(LITERALS)]
        elif k == 2:
            c = [i for i, x in enumerate(kinds) if x == "op"]
            if c:
                toks[c[at % len(c)]] = OPS[what % len(OPS)]
        elif k == 3:
            c = [i for i, x in enumerate(kinds) if x not in ("ws", "nl")]
            if c:
                toks[c[at % len(c)]] = ""
        elif k == 4:    # a line less
            lines = "".join(toks).split("\n")
            del lines[at % len(lines)]
        elif k == 5:    # a line elsewhere
            lines = "".join(toks).split("\n")
            lines.insert(what % (len(lines) + 1), lines[at % len(lines)])
        else:           # another indent
            lines = "".join(toks).split("\n")
            i = at % len(lines)
            if what % 2:
                lines[i] = "    " + lines[i]
            else:
                lines[i] = lines[i][4:] if lines[i][:4] == "    " \
                    else lines[i]
        if k >= 4:
            lx = rename.lex("\n".join(lines))
            toks = [t for _, t in lx]
            kinds = [x for x, _ in lx]
    return "".join(toks)


def attempt(files, main, cfg):
    limit = builder.CPU_LIMIT
    builder.CPU_LIMIT = 8
    try:
        return try_build(files, main=main, **cfg)
    except Violation as e:
        m = str(e)
        # a mutation can turn a loop or a call into an endless one
        if "RecursionError" in m or m.startswith("compiler does not term") \
                or "MemoryError" in m:
            raise Skip("endless")
        raise
    finally:
        builder.CPU_LIMIT = limit


def run_other(case):
    files, main, cfg = harvest.source(case["h"])
    tag = case["h"]["prop"]
    if any(f.endswith(".py") for f in files) or not \
            isinstance(files[main], str):
        raise Skip("other code than Acacia")
    files = dict(files)
    old = files[main]
    files[main] = mutate(old, case["ms"])
    out, r = attempt(files, main, cfg)
    if out == "ok":
        return {"nontrivial": files[main] != old, "tags": [tag, "compiled"]}
    need(r.text.strip() != "", "empty diagnostic for\n%s", files)
    if r.kind != "IO":
        m = re.search(r"([\w/.-]+)\.aca:(\d+):(\d+)", r.text)
        need(m is not None, "diagnostic without a source location: %r for\n%s",
             r.text, files)
    return {"nontrivial": files[main] != old, "tags": [tag, r.kind]}


CHECKS = [
    Check("programs", gen(soup.program), run_text, 5600, 120000),
    Check("typed", gen(soup.tprogram), run_text, 4800, 120000),
    Check("consteval", gen(soup.ctprogram), run_text, 4000, 100000),
    Check("mutants", gen(g_mutant), run_mutant, 4000, 80000),
    Check("others", g_other, run_other, 6000, 120000),
    Check("tokens", gen(g_soup), run_tokens, 2400, 30000),
    Check("bytes", gen(g_bytes), run_bytes, 2400, 30000),
]
