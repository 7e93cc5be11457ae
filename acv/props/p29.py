"""P29: the names that a program chooses do not matter."""
import ast
import builtins
import functools
import keyword
import os
import re

from ..build import REPO
from ..core import Check, Skip
from ..h import same, try_build
from .. import harvest, rename

RULE = ("at least three names of the program are replaced, and it compiles "
        "to at least six commands or is refused")
ASSUMPTIONS = [
    "names that the library itself gives a meaning to (attributes and "
    "parameters of builtin objects, names of Python modules) stay",
    "the two programs are named alike outside of Acacia code: interface "
    "paths, text and commands are left alone",
]

PLAIN = {"main.aca"}


@functools.lru_cache(None)
def library():
    """(words in short string literals, all words) of the library"""
    strs, words = set(), set()
    root = os.path.join(REPO, "acaciamc")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".aca"):
                strs.add(f[:-4])
            if not f.endswith(".py"):
                continue
            strs.add(f[:-3])
            with open(os.path.join(d, f), encoding="utf-8") as fp:
                text = fp.read()
            words |= rename.words(text)
            for n in ast.walk(ast.parse(text)):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) \
                        and len(n.value) < 60:
                    strs |= rename.words(n.value)
    return strs, words


# fixed, so that a case means the same on every version of the library
POOL = sorted(set("""
compiler implementation all_args self_ cls args kwds kwargs name value type_ id_ data_type cdata_type
attribute_table export scope ctx file source fields instance template items
hash copy swap iadd isub add sub mul div mod vars tag commands cmds call
func_repr arg_handler arg_vars result_type result_var current_file visit
lookup set get keys values update pop append node owner context generator
parse error lineno col location frame slot target objective operator left
right other op ops tmp init body condition dependencies subcmds runs path
meta parents methods field_types field_metas mro_ method_new runtime_id
selector limit filter size register unregister entity_ group iterate
stringify rawtextify is_temporary is_assignable compare unarynot unaryneg
mro subtemplates __init__ __new__ __class__ __dict__ __getitem__ __call__
__name__ __doc__ __del__ __eq__ __hash__ __len__ __iter__ __ct_getitem__
_ __ ___ _1 _a a A aa aA Aa AA l O I E e e1 E1 x1 b0 o7 inf nan NaN j
true false none null TRUE FALSE nil void var let function fn string int32
integer boolean char double long short object any Any_ self1 Self SELF New
NEW Result RESULT If IF Def interface_ Interface INTERFACE entity1 Entity_
acacia acacia1 acacia2 main minecraft execute scoreboard players function_
tellraw run say if_ unless score matches tp summon s p r
""".split()) | set(k for k in keyword.kwlist + keyword.softkwlist)
    | {n for n in dir(builtins) if n.isidentifier()})
LETTERS = "éßÀıſøλΩжЖ变量ñªµⅷǅﬁÅåŋ"


def g_name(d):
    k = d.wpick((60, "pool"), (10, "letters"), (10, "case"), (10, "prefix"),
                (4, "long"), (6, "new"))
    if k == "pool":
        return ["pool", d.pick(POOL)]
    if k == "letters":
        return ["pool", "".join(d.pick(LETTERS)
                                for _ in range(d.int(1, 3))) +
                d.pick(["", "", "1", "_"])]
    if k == "long":
        return ["pool", d.pick("xyzQ_") * d.int(60, 400)]
    if k == "new":
        return ["pool", d.pick("abcxyzABC_") + d.pick("0123456789_abcXYZ")]
    return [k, d.int(0, 20)]


def g(only):
    def gen(d):
        h = harvest.draw(d, only)
        return {"h": h, "names": [g_name(d) for _ in range(d.int(3, 24))],
                "only": d.pick([0, 0, 0, 1, 2])}
    return gen


def usable(n):
    return n and rename.idstart(n[0]) and n not in rename.KEYWORDS and \
        all(rename.idstart(c) or c in "0123456789" for c in n)


def renamed(files, main, case):
    """(renamed files, {old: new}) or Skip"""
    strs, _ = library()
    toks, fixed, used = {}, set(strs), set()
    raw = ""
    for f, t in files.items():
        if f.endswith(".aca"):
            if isinstance(t, bytes):
                raise Skip("bytes")
            toks[f] = rename.lex(t)
            assert "".join(x for _, x in toks[f]) == t
            used |= set(rename.idents(toks[f]))
            raw += "".join(x for k, x in toks[f] if k == "raw")
        elif f.endswith(".py"):
            fixed |= rename.words(t if isinstance(t, str)
                                  else t.decode("utf-8", "replace"))
    old = []
    for f in sorted(toks):
        old += [n for n in rename.defined(toks[f])
                if n not in fixed and n not in old]
    # folders and files of modules
    segs = set()
    for f in files:
        if f != main:
            p = f.rsplit(".", 1)[0].split("/")
            segs |= {s for s in p if s in used}
    mainsegs = set(main.rsplit(".", 1)[0].split("/"))
    pysegs = {s for f in files if f.endswith(".py")
              for s in f.rsplit(".", 1)[0].split("/")}
    segs -= mainsegs | fixed | pysegs
    old = [n for n in old if n not in mainsegs | pysegs] + \
        sorted(s for s in segs if s not in old)
    if not old:
        raise Skip("no names")
    if case["only"]:
        # a few names only, so that the others stay as they were
        k = case["only"]
        old = [n for i, n in enumerate(old) if (i * 7 + k) % 3 == 0]
    star = re.search(r"import\s*\*", "".join(
        x for t in toks.values() for k, x in t if k != "raw"))
    stems = {s.lower() for s in strs}
    new, taken, last = {}, set(used), []
    for i, n in enumerate(old):
        kind, v = case["names"][i % len(case["names"])]
        if kind == "pool":
            c = v
        elif kind == "case" and last:
            c = last[v % len(last)].swapcase()
        elif kind == "prefix" and last:
            c = last[v % len(last)] + "_"
        else:
            c = n + "_"
        r = i // len(case["names"])
        if r:
            c += str(r)
        if not usable(c) or star and c in strs or n in segs and (
                c.lower() in stems or len(c) > 60 or not c.isascii()):
            c = "n%d_" % i
        if len(files) > 1 and (c[0] == "_") != (n[0] == "_"):
            # names that start with "_" are private to a module
            c = "_" + c if n[0] == "_" else "n" + c
        while c in taken or c in rename.KEYWORDS:
            c += "_"
        taken.add(c)
        last.append(c)
        new[n] = c
    out = {}
    for f, t in files.items():
        if f in toks:
            t = rename.apply(toks[f], new)
        if f != main:
            p, dot, ext = f.rpartition(".")
            f = "/".join(new.get(s, s) if s in segs else s
                         for s in p.split("/")) + dot + ext
        out[f] = t
    return out, new


def run(case):
    files, main, cfg = harvest.source(case["h"])
    alt, new = renamed(files, main, case)
    cfg = dict(cfg, debug_comments=False)
    out, r = try_build(files, main=main, **cfg)
    out2, r2 = try_build(alt, main=main, **cfg)
    tag = case["h"]["prop"]
    if out == "rejected":
        same((out2, r2.kind if out2 == "rejected" else None,
              r2.err.location.linecol[0] if out2 == "rejected" and
              r2.err.location.linecol_set() else None),
             (out, r.kind, r.err.location.linecol[0]
              if r.err.location.linecol_set() else None),
             "how the program is refused with other names (%r)\n%s"
             % (r.text, new), alt)
        return {"nontrivial": len(new) >= 3, "tags": [tag, "refused"]}
    if out2 == "rejected":
        from ..core import Violation
        raise Violation("refused with other names: %s\n%s\n%s" % (
            r2.text, new, "\n".join("== %s\n%s" % x for x in alt.items())))
    same(r2.files, r.files, "commands with other names %r" % new, alt)
    same(r2.others, r.others, "other files with other names", alt)
    n = sum(len(t.split("\n")) for t in r.files.values())
    return {"nontrivial": len(new) >= 3 and n >= 6, "tags": [tag]}


CHECKS = [
    Check("everything", g(None), run, 6000, 120000),
]
