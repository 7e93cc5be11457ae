"""P21: functions of modules written in Python get what the caller passed."""
import json
import sys

from ..core import Check, Skip, need
from ..h import build, execute, same, try_build

sys.dont_write_bytecode = True      # generated modules share a path

RULE = ("a call with at least two arguments, a keyword or a default; or a "
        "call that must be refused")
ASSUMPTIONS = [
    "the module follows the documented rules of acaciamc.tools (parameter "
    "order, converters that fit the context)",
    "versions have three components",
]

# --- values ------------------------------------------------------------------
# ["int", 5] ["bool", True] ["float", 1.5] ["str", "x"] ["none"]
# ["list", [..]] ["map", [[k, v]..]] and run-time only: ["iv"] ["bv"] ["ent"]
# ["eg"] ["pg"] ["fn"] ["pos"]
LITS = ("int", "bool", "float", "str", "none")
RT = {"iv": "int", "bv": "bool", "ent": "ExternalEntity", "eg": "ExternEngroup",
      "pg": "ExternEngroup", "fn": "function", "pos": "Pos"}


def g_lit(d, keys=False):
    k = d.pick(["int", "int", "str", "bool"] if keys else
               ["int", "int", "str", "bool", "float", "none"])
    return [k] + {"int": lambda: [d.pick([0, 1, 2, 5, -1, -7, 10, 15, 16, 127,
                                          2 ** 31 - 1, -2 ** 31 + 1])],
                  "str": lambda: [d.pick(["", "a", "b", "it's", 'q"q', "\\",
                                          "a b", "\u00e9\u4e2d", "1", "None",
                                          "${x}", "%1", "\U0001f600"])],
                  "bool": lambda: [d.flip()],
                  "float": lambda: [d.pick([0.0, 0.5, -1.5, 2.0, 100.25])],
                  "none": lambda: []}[k]()


def g_val(d, ct, dep=2):
    k = d.wpick((8, "lit"), (2 if dep else 0, "list"), (1 if dep else 0,
                                                        "map"),
                (0 if ct else 3, "rt"))
    if k == "lit":
        return g_lit(d)
    if k == "rt":
        return [d.pick(sorted(RT))]
    if k == "list":
        return ["list", [g_val(d, True, dep - 1)
                         for _ in range(d.int(0, 3))]]
    ks = []
    for _ in range(d.int(0, 3)):
        x = g_lit(d, True)
        if x not in ks and not any(y[1] == x[1] for y in ks):
            ks.append(x)
    return ["map", [[x, g_val(d, True, dep - 1)] for x in ks]]


def has_var(v):
    if v[0] == "list":
        return any(map(has_var, v[1]))
    if v[0] == "map":
        return any(has_var(y) for _, y in v[1])
    return v[0] in RT


def src_str(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"').replace(
        "${", "\\u0024{")


def src_val(v):
    k = v[0]
    if k in ("int", "float"):
        return repr(v[1])
    if k == "bool":
        return str(v[1])
    if k == "str":
        return src_str(v[1])
    if k == "none":
        return "None"
    if k == "list":
        return "{%s}" % ", ".join(map(src_val, v[1]))
    if k == "map":
        return "{%s}" % (", ".join("%s: %s" % (src_val(a), src_val(b))
                                   for a, b in v[1]) or ":")
    return k if k != "pos" else "Pos(1, 2, 3)"


def show(v):
    """what the module shows of an unconverted value"""
    k = v[0]
    if k in LITS:
        return {"l": v[1] if k != "none" else None, "y": k}
    if k == "list":
        return {"L": [show(x) for x in v[1]]}
    if k == "map":
        return {"M": [[show(a), show(b)] for a, b in v[1]]}
    return {"t": RT[k]}


# --- converters --------------------------------------------------------------

TYPES = {"IntDataType": ("int", "iv"), "BoolDataType": ("bool", "bv"),
         "FloatDataType": ("float",), "StringDataType": ("str",),
         "NoneDataType": ("none",), "ListDataType": ("list",),
         "MapDataType": ("map",), "EntityDataType": ("ent",),
         "EGroupDataType": ("eg", "pg"), "FunctionDataType": ("fn",),
         "PosDataType": ("pos",)}
CTT = {"integer.ctdt_int": "int", "boolean.ctdt_bool": "bool",
       "string.ctdt_string": "str", "float_.ctdt_float": "float",
       "none.ctdt_none": "none", "list_.ctdt_constlist": "list",
       "map_.ctdt_constmap": "map"}


class Bad(Exception):
    pass


def g_conv(d, ctx, dep=2):
    """ctx: the contexts the converter has to serve, subset of "rc" """
    both = ["int", "float", "str", "bool", "rint", "eint", "estr", "posxz",
            "anyv"]
    r = ["typed", "typed", "multi", "iter", "sel", "psel", "callable",
         "anyrt"] + ["list", "list", "map"] * (dep > 0)
    c = ["cttyped", "const", "citer"] + ["ctlist", "ctmap"] * (dep > 0)
    comb = ["null", "any"] if dep else []
    pool = both + comb + comb
    if ctx == "r" or ctx == "rc":
        pool = pool + r
    if ctx == "c" or ctx == "rc":
        pool = pool + c
    k = d.pick(pool)
    if k == "rint":
        lo = d.pick([None, 0, 1, -5])
        return [k, lo, d.pick([None, 5, 15, 100])]
    if k == "eint":
        return [k, d.sample([0, 1, 2, 5, -1], d.int(1, 3))]
    if k == "estr":
        return [k, d.sample(["", "a", "b", "it's", "1"], d.int(1, 3))]
    if k == "typed":
        return [k, d.pick(sorted(TYPES))]
    if k == "multi":
        return [k, d.sample(sorted(TYPES), d.int(1, 3))]
    if k == "cttyped":
        return [k, d.sample(sorted(CTT), d.int(1, 2))]
    if k == "null":
        return [k, g_conv(d, "r" if ctx == "r" else "b", dep - 1)]
    if k == "any":
        return [k, [g_conv(d, "r" if ctx == "r" else "b", dep - 1)
                    for _ in range(d.int(1, 3))]]
    if k == "list":
        return [k, g_conv(d, "r" if ctx != "b" else "b", dep - 1)]
    if k == "map":
        return [k, g_conv(d, "b", 0), g_conv(d, "r", dep - 1)]
    if k == "ctlist":
        return [k, g_conv(d, "c", dep - 1)]
    if k == "ctmap":
        return [k, g_conv(d, "b", 0), g_conv(d, "c", dep - 1)]
    return [k]


def py_conv(c):
    k = c[0]
    A = "axe."
    if k in ("int", "float", "str", "bool"):
        return A + {"int": "LiteralInt()", "float": "LiteralFloat()",
                    "str": "LiteralString()", "bool": "LiteralBool()"}[k]
    if k == "rint":
        return A + "RangedLiteralInt(%r, %r)" % (c[1], c[2])
    if k == "eint":
        return A + "LiteralIntEnum(%s)" % ", ".join(map(repr, c[1]))
    if k == "estr":
        return A + "LiteralStringEnum(%s)" % ", ".join(map(repr, c[1]))
    if k == "typed":
        return "objects." + c[1]
    if k == "multi":
        return A + "Multityped([%s])" % ", ".join("objects." + x
                                                  for x in c[1])
    if k == "cttyped":
        return A + "CTTyped(%s)" % ", ".join("objects." + x for x in c[1])
    if k == "null":
        return A + "Nullable(%s)" % wrapc(c[1])
    if k == "any":
        return A + "AnyOf(%s)" % ", ".join(map(wrapc, c[1]))
    if k == "list":
        return A + "ListOf(%s)" % wrapc(c[1])
    if k == "map":
        return A + "MapOf(%s, %s)" % (wrapc(c[1]), wrapc(c[2]))
    if k == "ctlist":
        return A + "CTListOf(%s)" % wrapc(c[1])
    if k == "ctmap":
        return A + "CTMapOf(%s, %s)" % (wrapc(c[1]), wrapc(c[2]))
    return A + {"iter": "Iterator()", "sel": "Selector()",
                "psel": "PlayerSelector()", "callable": "Callable()",
                "anyrt": "AnyRT()", "anyv": "AnyValue()",
                "const": "Constant()", "citer": "CTIterator()",
                "posxz": "PosXZ()"}[k]


def wrapc(c):
    s = py_conv(c)
    return "axe.Typed(%s)" % s if c[0] == "typed" else s


CONLY = ("cttyped", "const", "citer", "ctlist", "ctmap")


def conv(v, c):
    """the documented conversion; JSON of what the function receives"""
    k = c[0]
    if k in CONLY and has_var(v):
        raise Bad
    if k in ("int", "rint", "eint"):
        if v[0] != "int":
            raise Bad
        x = v[1]
        if k == "rint" and not ((c[1] is None or x >= c[1]) and
                                (c[2] is None or x <= c[2])):
            raise Bad
        if k == "eint" and x not in c[1]:
            raise Bad
        return x
    if k == "float":
        if v[0] not in ("int", "float"):
            raise Bad
        return float(v[1])
    if k == "posxz":
        if v[0] not in ("int", "float"):
            raise Bad
        return v[1] + 0.5 if v[0] == "int" else v[1]
    if k in ("str", "estr"):
        if v[0] != "str" or (k == "estr" and v[1] not in c[1]):
            raise Bad
        return v[1]
    if k == "bool":
        if v[0] != "bool":
            raise Bad
        return v[1]
    if k == "null":
        return None if v[0] == "none" else conv(v, c[1])
    if k == "any":
        for x in c[1]:
            try:
                return conv(v, x)
            except Bad:
                pass
        raise Bad
    if k in ("list", "ctlist"):
        if v[0] != "list":
            raise Bad
        return [conv(x, c[1]) for x in v[1]]
    if k in ("map", "ctmap"):
        if v[0] != "map":
            raise Bad
        return {"d": [[conv(a, c[1]), conv(b, c[2])] for a, b in v[1]]}
    if k in ("iter", "citer"):
        if v[0] in ("str", "eg", "pg", "pos"):
            raise Skip("iteration of %s" % v[0])
        if v[0] not in ("list", "map"):
            raise Bad
        return [show(x) if v[0] == "list" else show(x[0]) for x in v[1]]
    if k in ("sel", "psel"):
        if v[0] not in ("ent", "eg", "pg"):
            raise Bad
        return {"s": k == "psel"}
    if k == "typed":
        if v[0] not in TYPES[c[1]]:
            raise Bad
        return show(v)
    if k == "multi":
        if not any(v[0] in TYPES[t] for t in c[1]):
            raise Bad
        return show(v)
    if k == "cttyped":
        if not any(v[0] == CTT[t] for t in c[1]):
            raise Bad
        return show(v)
    if k == "callable":
        if v[0] != "fn":
            raise Bad
        return show(v)
    return show(v)


def fitting(d, c, ct, dep=3):
    """a value that the converter accepts, mostly"""
    for _ in range(12):
        v = g_val(d, ct)
        k = c[0]
        if k in ("int", "rint", "eint", "float", "posxz"):
            v = ["int", d.pick(c[1]) if k == "eint" else
                 d.pick([0, 1, 5, 2, 15])]
        elif k in ("str", "estr"):
            v = ["str", d.pick(c[1]) if k == "estr" else
                 d.pick(["a", "b", "it's", "x y"])]
        elif k == "bool":
            v = ["bool", d.flip()]
        elif k in ("list", "ctlist"):
            v = ["list", [fitting(d, c[1], True, dep - 1)
                          for _ in range(d.int(0, 3))]]
        elif k in ("map", "ctmap"):
            v = ["map", []]
            for _ in range(d.int(0, 2)):
                a = fitting(d, c[1], True, dep - 1)
                if a[0] in ("int", "str", "bool") and not any(
                        a[1] == y[0][1] for y in v[1]):
                    v[1].append([a, fitting(d, c[2], True, dep - 1)])
        elif k == "any":
            v = fitting(d, d.pick(c[1]), ct, dep - 1)
        elif k == "null":
            v = ["none"] if d.flip(30) else fitting(d, c[1], ct, dep - 1)
        elif k in ("typed", "multi", "callable", "sel", "psel"):
            ks = {"typed": lambda: TYPES[c[1]], "callable": lambda: ["fn"],
                  "multi": lambda: TYPES[d.pick(c[1])],
                  "sel": lambda: ["ent", "eg", "pg"],
                  "psel": lambda: ["ent", "eg", "pg"]}[k]()
            x = d.pick(ks)
            if x in RT:
                v = [x]
            elif v[0] != x:
                continue
        if ct and has_var(v):
            continue
        try:
            conv(v, c)
            return v
        except Bad:
            continue
    return g_val(d, ct)


# --- functions ---------------------------------------------------------------

NAMES = ["a", "b", "c", "d", "e", "foo", "Bar", "x1", "pos", "args_", "k"]


def g_default(d, c):
    """(Python source, what is received)"""
    k = c[0]
    if d.flip(25):
        return ["None", None]
    if k in ("int", "rint"):
        return ["7", 7]
    if k == "str":
        return ["'dflt'", "dflt"]
    if k == "float":
        return ["2.5", 2.5]
    if k == "typed":
        return ["objects.IntLiteral(3)", {"l": 3, "y": "int"}]
    if k == "list":
        return ["[]", []]
    if k == "map":
        return ["{}", {"d": []}]
    return d.pick([["'zz'", "zz"], ["0", 0], ["False", False]])


def g_func(d, i):
    ctx = d.wpick((6, "r"), (3, "c"), (2, "b"))
    # "b": called from both, all converters work in both
    cc = {"r": "r", "c": "c", "b": "b"}[ctx]
    names = d.sample(NAMES, d.int(0, 6))
    npo = d.pick([0, 0, d.int(0, len(names))])
    nko = d.pick([0, 0, d.int(0, len(names) - npo)])
    params, df = [], False
    posi = d.flip(20)
    for j, n in enumerate(names):
        kind = "po" if j < npo else \
            "ko" if j >= len(names) - nko else "pk"
        c = g_conv(d, cc)
        p = {"name": n, "kind": kind, "conv": c}
        if df or d.flip(25):
            df = True
            p["default"] = g_default(d, c)
        if d.flip(15):
            p["rename"] = "re_%s" % n
        elif posi and d.flip(60) or d.flip(5):
            p["rename"] = "POS"
        params.append(p)
    f = {"name": "f%d" % i, "ctx": ctx, "params": params}
    if d.flip(25):
        f["star"] = ["rest", g_conv(d, cc, 1), g_rename(d, "rest")]
        if nko == 0 and d.flip():
            pass
    elif nko:
        f["barestar"] = True
    if d.flip(25):
        f["kwds"] = ["more", g_conv(d, cc, 1), g_rename(d, "more")]
    if d.flip(12):
        f["ver"] = g_ver(d)
    elif d.flip(6):
        f["edu"] = True
    if params and d.flip(6):
        f["raise"] = d.pick(params)["name"]
    return f


VERS = [[1, 19, 50], [1, 19, 70], [1, 19, 80], [1, 20, 0], [1, 20, 10],
        [1, 20, 20], [1, 21, 0], [2, 0, 0]]


def g_ver(d):
    k = d.pick(["at_least", "at_most", "between", "older"])
    a, b = d.int(0, len(VERS) - 1), d.int(0, len(VERS) - 1)
    if k == "between":
        lo, hi = sorted([g_bound(d, VERS[a]), g_bound(d, VERS[b])])
        return [k, lo, hi]
    return [k, g_bound(d, VERS[a])]


def g_bound(d, v):
    """Versions are compared like tuples, of any length."""
    k = d.int(0, 9)
    return v[:2] if k <= 1 else v[:1] if k == 2 else \
        v + [d.int(0, 2)] if k == 3 else v


def ver_ok(v, have):
    if v is None:
        return True
    have = list(have)
    return {"at_least": lambda: have >= v[1], "at_most": lambda: have <= v[1],
            "between": lambda: v[1] <= have <= v[2],
            "older": lambda: have < v[1]}[v[0]]()


def py_ver(v):
    return "versionlib.%s(%s)" % (v[0], ", ".join(
        repr(tuple(x)) for x in v[1:]))


PYPRE = '''
from acaciamc import objects
from acaciamc.tools import axe, versionlib, resultlib, named_tuple as nt
from acaciamc.mccmdgen.mcselector import MCSelector
from acaciamc.mccmdgen import ctexpr, expr
import acaciamc.mccmdgen.cmds as cmds
import json

LITS = {objects.IntLiteral: "int", objects.BoolLiteral: "bool",
        objects.Float: "float", objects.String: "str"}

def show(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, ctexpr.CTObjPtr):
        x = abs(x)
    if isinstance(x, (list, tuple)):
        return [show(y) for y in x]
    if isinstance(x, dict):
        return {"d": [[show(a), show(b)] for a, b in x.items()]}
    if type(x) in LITS:
        return {"l": x.value, "y": LITS[type(x)]}
    if isinstance(x, objects.NoneLiteral):
        return {"l": None, "y": "none"}
    if isinstance(x, objects.AcaciaList):
        return {"L": [show(y) for y in x.items]}
    if isinstance(x, objects.CTConstList):
        return {"L": [show(y) for y in x.ptrs]}
    if isinstance(x, (objects.Map, objects.CTConstMap)):
        return {"M": [[show(a), show(b)] for a, b in x.items()]}
    if isinstance(x, MCSelector):
        return {"s": x.args.get("type") == "player"}
    if isinstance(x, expr.AcaciaExpr):
        return {"t": str(x.data_type)}
    return {"?": repr(type(x))}

def res(name, pos, kw):
    text = json.dumps([name, show(list(pos)), {k: show(v) for k, v
                                               in kw.items()}],
                      sort_keys=True)
    return objects.String(text.encode("utf-8").hex())

def acacia_build(compiler):
    out = {}
'''


def py_rename(r):
    return "" if not r else ", rename=" + (
        "axe.POSITIONAL" if r == "POS" else repr(r))


def g_rename(d, n):
    return d.pick([None] * 8 + ["POS", "re_" + n])


def py_args(ps):
    out = []
    for p in ps:
        t = "axe.arg(%r, %s%s" % (p["name"], py_conv(p["conv"]),
                                  py_rename(p.get("rename")))
        if "default" in p:
            t += ", default=" + p["default"][0]
        out.append(t + ")")
    return out


def py_func(f):
    L = ["@" + {"r": "mk", "c": "mkc", "b": "mkc"}[f["ctx"]]]
    if f.get("edu"):
        L.append("@versionlib.edu_only")
    if f.get("ver"):
        L.append("@versionlib.only(%s)" % py_ver(f["ver"]))
    L.append("@axe.chop")
    po = [p for p in f["params"] if p["kind"] == "po"]
    pk = [p for p in f["params"] if p["kind"] == "pk"]
    ko = [p for p in f["params"] if p["kind"] == "ko"]
    L += ["@" + x for x in py_args(po)]
    if po:
        L.append("@axe.slash")
    L += ["@" + x for x in py_args(pk)]
    if f.get("star"):
        n, c, r = f["star"]
        L.append("@axe.star_arg(%r, %s%s)" % (n, py_conv(c), py_rename(r)))
    elif f.get("barestar"):
        L.append("@axe.star")
    L += ["@" + x for x in py_args(ko)]
    if f.get("kwds"):
        n, c, r = f["kwds"]
        L.append("@axe.kwds(%r, %s%s)" % (n, py_conv(c), py_rename(r)))
    L += ["def %s(compiler, *a, **k):" % f["name"]]
    if f.get("raise"):
        L.append("    raise axe.ArgumentError(%r, 'NotThisOne')" % f["raise"])
    L.append("    return res(%r, a, k)" % f["name"])
    L.append("out[%r] = %s" % (f["name"], f["name"]))
    return ["    " + x for x in L]


def py_over(o):
    L = ["class %s(metaclass=axe.OverloadChopped):" % o["name"]]
    for i, m in enumerate(o["impls"]):
        if m.get("ver"):
            L.append("    @axe.overload_versioned(%s)" % py_ver(m["ver"]))
        else:
            L.append("    @axe.overload")
        L += ["    @" + x for x in py_args(m["params"])]
        L.append("    def %s(cls, compiler, **k):" % m["name"])
        L.append("        return res(%r, (), k)" % (o["name"] + "." +
                                                  m["name"]))
    L.append("out[%r] = objects.BinaryFunction(%s)" % (o["name"], o["name"]))
    return ["    " + x for x in L]


def g_over(d, i):
    impls = []
    for j in range(d.int(1, 4)):
        ps = [{"name": n, "conv": g_conv(d, "r", 1)}
              for n in d.sample(NAMES, d.int(0, 3))]
        m = {"name": d.pick("mnzab") + str(j), "params": ps}
        if d.flip(25):
            m["ver"] = g_ver(d)
        impls.append(m)
    return {"name": "o%d" % i, "impls": impls}


class Refuse(Exception):
    pass


def bind(f, pos, kw, cfg):
    """-> (function, positional, keywords) as received"""
    if f.get("edu") and not cfg.get("education_edition"):
        raise Refuse("education")
    if not ver_ok(f.get("ver"), cfg["mc_version"]):
        raise Refuse("version")
    ps = [p for p in f["params"] if p["kind"] != "ko"]
    errs, got = [], {}

    def cv(v, c, n):
        try:
            return conv(v, c)
        except Bad:
            errs.append(n)
    rest = []
    for i, v in enumerate(pos):
        if i < len(ps):
            got[ps[i]["name"]] = cv(v, ps[i]["conv"], ps[i]["name"])
        elif f.get("star"):
            rest.append(cv(v, f["star"][1], "#%d" % (i + 1)))
        else:
            errs.append(None)
    byname = {p["name"]: p for p in f["params"]}
    more = {}
    for n, v in kw:
        p = byname.get(n)
        if p is not None and p["kind"] == "po":
            errs.append(n)
        elif p is None:
            if not f.get("kwds"):
                errs.append(n)
            else:
                more[n] = cv(v, f["kwds"][1], n)
        elif n in got:
            errs.append(n)
        else:
            got[n] = cv(v, p["conv"], n)
    for p in f["params"]:
        if p["name"] not in got:
            if "default" in p:
                got[p["name"]] = p["default"][1]
            else:
                errs.append(p["name"])
    if errs:
        raise Refuse(errs)
    if f.get("raise"):
        raise Refuse([f["raise"]], "NotThisOne")
    # renamed to positional: in the order in which they are declared
    decl = [(p["name"], p.get("rename")) for p in ps]
    if f.get("star"):
        decl.append((f["star"][0], f["star"][2]))
        got[f["star"][0]] = rest
    decl += [(p["name"], p.get("rename")) for p in f["params"]
             if p["kind"] == "ko"]
    if f.get("kwds"):
        decl.append((f["kwds"][0], f["kwds"][2]))
        got[f["kwds"][0]] = {"d": [[n, more[n]] for n, _ in kw if n in more]}
    a, k = [], {}
    for n, r in decl:
        if r == "POS":
            a.append(got[n])
        else:
            k[r or n] = got[n]
    return [f["name"], a, k]


def g_call(d, f, ct):
    """arguments for a call, mostly valid"""
    ps = f["params"]
    pos, kw = [], []
    npos = sum(p["kind"] != "ko" for p in ps)
    k = d.int(0, npos)
    while k < npos and ps[k]["kind"] == "po" and "default" not in ps[k]:
        k += 1
    if f.get("star") and d.flip(60):
        k = npos
    for i, p in enumerate(ps):
        if i < k:
            pos.append(fitting(d, p["conv"], ct))
        elif p["kind"] != "po" and ("default" not in p or d.flip()):
            kw.append([p["name"], fitting(d, p["conv"], ct)])
    if f.get("star") and k == npos:
        for _ in range(d.int(0, 3)):
            pos.append(fitting(d, f["star"][1], ct))
    if f.get("kwds"):
        for n in d.sample(["z1", "z2", "more", "rest", "zz"], d.int(0, 2)):
            kw.append([n, fitting(d, f["kwds"][1], ct)])
    kw = d.shuffle(kw)
    if d.flip(22):
        m = d.int(0, 5)
        if m == 0:
            pos.append(g_val(d, ct))
        elif m == 1 and pos:
            pos.pop()
        elif m == 2 and kw:
            kw.pop()
        elif m == 3:
            n = d.pick(NAMES + ["nope", "rest", "re_a"])
            if n not in [x for x, _ in kw]:
                kw.append([n, g_val(d, ct)])
        elif m == 4 and pos:
            pos[d.int(0, len(pos) - 1)] = g_val(d, ct)
        elif kw:
            kw[d.int(0, len(kw) - 1)][1] = g_val(d, ct)
    return pos, kw


def g_calls(d):
    fs = [g_func(d, i) for i in range(d.int(1, 3))]
    os = [g_over(d, i) for i in range(d.int(0, 1))]
    calls = []
    for _ in range(d.int(1, 5)):
        if os and d.flip(25):
            o = d.pick(os)
            m = d.pick(o["impls"])
            pos = [fitting(d, p["conv"], False) for p in m["params"]]
            if d.flip(25) and pos:
                pos[d.int(0, len(pos) - 1)] = g_val(d, False)
            elif d.flip(8):
                pos.append(g_val(d, False))
            calls.append({"f": o["name"], "pos": pos, "kw":
                          [["a", g_val(d, False)]] if d.flip(4) else [],
                          "ct": False})
            continue
        f = d.pick(fs)
        ct = f["ctx"] == "c" or f["ctx"] == "b" and d.flip()
        # functions that only work at compile time can be called by
        # ordinary code as well, with constants
        how = "ct" if ct else "rt"
        pos, kw = g_call(d, f, ct)
        if f["ctx"] == "c" and d.flip(30):
            how = "rt"
        calls.append({"f": f["name"], "pos": pos, "kw": kw,
                      "ct": how == "ct", "via": d.pick(
                          ["", "", "const", "inline", "alias", "par"])})
    cfg = {"mc_version": d.pick(VERS), "education_edition": d.flip()}
    return {"funcs": fs, "overs": os, "calls": calls, "cfg": cfg}


def usable(c, ct):
    """containers must suit the context they are used in"""
    return True


MPRE = ('import bm\nimport print\niv := 3\nbv := True\n'
        'eg := ExternEngroup()\npg := ExternEngroup()\n'
        'pg.select(Enfilter().all_players())\nent := eg.to_single()\n'
        'def fn(x: int) -> int:\n    result x\n')


def unhex(s):
    return json.loads(bytes.fromhex(s).decode("utf-8"))


def module(case):
    return PYPRE + '''
    def mk(f):
        return objects.BinaryFunction(f)
    def mkc(f):
        return objects.BinaryCTFunction(f)
''' + "\n".join(x for f in case["funcs"] for x in py_func(f)) + "\n" + \
        "\n".join(x for o in case["overs"] for x in py_over(o)) + \
        "\n    return out\n"


def expected(case, c):
    """list of acceptable receptions, or None: refuse"""
    cfg = case["cfg"]
    for f in case["funcs"]:
        if f["name"] == c["f"]:
            try:
                return [bind(f, c["pos"], c["kw"], cfg)], None
            except Refuse as e:
                return None, e.args
    o = next(o for o in case["overs"] if o["name"] == c["f"])
    if c["kw"]:
        return None, (["key"],)
    ok = []
    for m in o["impls"]:
        if len(m["params"]) != len(c["pos"]) or \
                not ver_ok(m.get("ver"), cfg["mc_version"]):
            continue
        try:
            ok.append([o["name"] + "." + m["name"], [], {
                p["name"]: conv(v, p["conv"])
                for p, v in zip(m["params"], c["pos"])}])
        except Bad:
            pass
    return (ok, None) if ok else (None, ("nomatch",))


def call_src(c):
    return "%s(%s)" % (c["f"], ", ".join(
        [src_val(v) for v in c["pos"]] +
        ["%s=%s" % (n, src_val(v)) for n, v in c["kw"]]))


def run(case):
    py = module(case)
    cfg = dict(case["cfg"], mc_version=tuple(case["cfg"]["mc_version"]))
    lines = MPRE.rstrip("\n").split("\n")
    want, bad = [], None
    big = False
    for i, c in enumerate(case["calls"]):
        exp, why = expected(case, c)
        t = "bm." + call_src(c)
        via = c.get("via", "")
        if c["ct"]:
            lines += ["const def q%d() -> Any:" % i]
            if via == "const":
                lines += ["    g := bm." + c["f"]]
                t = "g" + t[3 + len(c["f"]):]
            lines.append("    result " + t)
            at = [len(lines)]
            lines.append("const r%d = q%d()" % (i, i))
            at.append(len(lines))
        else:
            pre = "    " if via == "inline" else ""
            if via == "inline":
                lines += ["if iv > 0:"]
            if via == "alias":
                lines.append("const h%d = bm.%s" % (i, c["f"]))
                t = "h%d" % i + t[3 + len(c["f"]):]
            lines.append(pre + "const r%d = %s" % (
                i, "(%s)" % t if via == "par" else t))
            at = [len(lines)]
        if exp is None:
            bad = (at, why, c)
            break
        lines.append(("    " if via == "inline" and not c["ct"] else "") +
                     "/probe ${r%d}" % i)
        want.append(exp)
        big = big or len(c["pos"]) + len(c["kw"]) >= 2 or bool(c["kw"])
    src = "\n".join(lines) + "\n"
    files = {"main.aca": src, "bm.py": py}
    if bad:
        out, r = try_build(files, **cfg)
        at, why, c = bad
        need(out == "rejected", "the call %s should be refused (%s)\n%s\n%s",
             call_src(c), why, src, py[len(PYPRE):])
        t = r.text.strip().split("\n")
        need(any(":%d:" % n in x for n in at for x in t),
             "lines %s should be named: %s\n%s", at, r.text, src)
        if isinstance(why[0], list) and why[0] != ["key"] and \
                None not in why[0]:
            need(any(n in t[-1] for n in why[0]) or c["ct"],
                 "none of the arguments %s is named: %s\n%s\n%s", why[0],
                 r.text, src, py[len(PYPRE):])
        need(len(why) < 2 or why[1] in r.text, "the reason %s is not given: "
             "%s\n%s", why, r.text, src)
        return {"nontrivial": True, "tags": ["refused"]}
    try:
        b = build(files, **cfg)
    except Exception as e:
        e.args = (str(e) + py[len(PYPRE):],)
        raise
    vm = execute(b, None, files)
    got = [unhex(e[1].split(" ")[1]) for e in vm.events if e[0] == "cmd" and
           e[1].startswith("probe")]
    need(len(got) == len(want), "%d calls, %d receptions\n%s", len(want),
         len(got), src)
    for c, g, w in zip(case["calls"], got, want):
        ok = False
        for x in w:
            ok = ok or typed(g) == typed(x)
        need(ok, "%s: received %s, expected %s\n%s\n%s", call_src(c), g, w,
             src, py[len(PYPRE):])
    return {"nontrivial": big, "tags": ["ct"] * any(
        c["ct"] for c in case["calls"]) + ["accepted"]}


def typed(x):
    """comparison that tells 1, 1.0 and True apart"""
    return json.dumps(x, sort_keys=True)


# --- modules: attributes, initial commands, results, named tuples -------------

MPY = """from acaciamc.tools import axe, resultlib, versionlib
from acaciamc.tools.named_tuple import named_tuple
import acaciamc.objects as objects
import acaciamc.mccmdgen.cmds as cmds
"""

MLITS = [["int", 0], ["int", 7], ["int", -3], ["int", 2147483647],
        ["int", -2147483647], ["bool", True], ["bool", False], ["str", ""],
        ["str", "a b"], ["str", "q'x"], ["str", "%0"], ["none"]]


def ashex(v):
    return {"int": lambda: str(v[1]), "bool": lambda: "true" if v[1] else
            "false", "str": lambda: v[1]}[v[0]]()


def g_mlit(d, kinds=("int", "bool", "str")):
    return d.pick([v for v in MLITS if v[0] in kinds])


NTCONV = {"int": "axe.LiteralInt()", "str": "axe.LiteralString()",
          "bool": "axe.LiteralBool()"}


def g_mod(d, i):
    m = {"name": "bm%d" % i, "dict": d.flip(30), "consts": [], "funcs": [],
         "init": d.int(0, 2), "gv": d.int(-5, 50), "nts": []}
    for k in range(d.int(0, 3)):
        m["consts"].append(["C%d" % k, g_mlit(d)])
    for k in range(d.int(1, 5)):
        kind = d.pick(["lit", "cmds", "lin", "setv", "getv", "same", "void",
                       "pair"])
        m["funcs"].append({"name": "f%d" % k, "kind": kind,
                           "v": g_mlit(d), "abc": [d.int(-4, 4), d.int(-4, 4),
                                                  d.int(-20, 20)]})
    for k in range(d.int(0, 1)):
        fs = [["a", "int"], ["b", "str"], ["c", "bool"], ["d", "int"]]
        fs = d.shuffle(fs)[:d.int(1, 4)] or [["a", "int"]]
        m["nts"].append({"name": "T%d" % k, "fields": [
            [n, t, g_mlit(d, (t,)) if d.flip(35) else None] for n, t in fs]})
    return m


def g_arg(d):
    return d.pick([["v", "x"], ["v", "y"], ["v", "x"], ["n", d.int(-9, 99)],
                   ["+", "x", d.int(1, 9)], ["*", "y", "x"]])


def g_modules(d):
    mods = [g_mod(d, i) for i in range(d.int(1, 2))]
    stmts = []
    for _ in range(d.int(2, 9)):
        m = d.pick(mods)
        k = d.int(0, 9)
        if k < 6 and m["funcs"]:
            f = d.pick(m["funcs"])
            stmts.append(["call", m["name"], f["name"], [g_arg(d), g_arg(d)],
                          g_mlit(d, ("str",)), d.int(-9, 99),
                          d.pick(["=", ":=", "const", "expr", "if", "fn",
                                  "arg"])])
        elif k == 6 and m["consts"]:
            stmts.append(["const", m["name"], d.pick(m["consts"])[0]])
        elif k < 9 and m["nts"]:
            t = d.pick(m["nts"])
            stmts.append(["nt", m["name"], t["name"], d.pick(
                ["new", "new", "evolve", "evolve", "cfun", "inl"]), g_given(
                    d, t)])
        else:
            stmts.append(["x", d.int(-9, 99)])
    return {"mods": mods, "stmts": stmts, "x": d.int(-9, 99),
            "again": d.flip(40),
            "y": d.int(-9, 99), "via": d.pick(["import", "from", "alias",
                                               "both", "pkg"])}


def g_given(d, t):
    """field values: [[name, value], ...]; sometimes wrong"""
    out = []
    for n, ty, dv in t["fields"]:
        if d.flip(92 if dv is None else 50):
            out.append([n, g_mlit(d, (ty,))])
    if d.flip(4):
        out.append(["zz", ["int", 1]])
    if d.flip(5) and out:
        out[d.int(0, len(out) - 1)][1] = g_mlit(d)
    return out


def mod_py(m):
    L = [MPY, "def acacia_build(compiler):", "    out = {}",
         "    gv = objects.IntVar.new(compiler)"]
    for n, v in m["consts"]:
        L.append("    out[%r] = resultlib.literal(%r)" % (n, v[1]))
    for f in m["funcs"]:
        k, n = f["kind"], f["name"]
        if k == "lit":
            L += ["    @axe.chop", "    def %s(compiler):" % n,
                  "        return resultlib.literal(%r)" % f["v"][1],
                  "    out[%r] = objects.BinaryCTFunction(%s)" % (n, n)]
            continue
        if k in ("lin", "pair"):
            L += ["    @axe.chop", "    @axe.arg('x', objects.IntDataType)",
                  "    @axe.arg('y', objects.IntDataType)"]
            a, b, c = f["abc"]
            L += ["    def %s(compiler, x, y):" % n,
                  "        t = objects.IntVar.new(compiler, tmp=True)",
                  "        u = objects.IntVar.new(compiler, tmp=True)",
                  "        cs = list(x.export(t, compiler))",
                  "        cs += y.export(u, compiler)"]
            if k == "pair":
                L += ["        cs += [cmds.ScbOperation(cmds.ScbOp.MAX, "
                      "t.slot, u.slot)]",
                      "        return resultlib.Result(t, cs)"]
            else:
                L += ["        k = compiler.add_int_const(%d)" % a,
                      "        l = compiler.add_int_const(%d)" % b,
                      "        cs += [cmds.ScbOperation(cmds.ScbOp.MUL_EQ, "
                      "t.slot, k.slot), cmds.ScbOperation(cmds.ScbOp.MUL_EQ, "
                      "u.slot, l.slot), cmds.ScbOperation(cmds.ScbOp.ADD_EQ, "
                      "t.slot, u.slot)]",
                      "        cs.append(cmds.ScbAddConst(t.slot, %d))" % c
                      if c >= 0 else
                      "        cs.append(cmds.ScbRemoveConst(t.slot, %d))"
                      % -c,
                      "        return resultlib.Result(t, cs)"]
        elif k == "cmds":
            L += ["    @axe.chop", "    @axe.arg('s', axe.LiteralString())",
                  "    @axe.arg('n', axe.LiteralInt())",
                  "    def %s(compiler, s, n):" % n,
                  "        return resultlib.commands([cmds.Cmd('probe %s."
                  "%s 1 ' + str(n) + s), cmds.Cmd('probe %s.%s 2')])"
                  % (m["name"], n, m["name"], n)]
        elif k == "setv":
            L += ["    @axe.chop", "    @axe.arg('x', objects.IntDataType)",
                  "    def %s(compiler, x):" % n,
                  "        return resultlib.commands(x.export(gv, compiler))"]
        elif k == "getv":
            L += ["    @axe.chop", "    def %s(compiler):" % n,
                  "        return gv"]
        elif k == "same":
            L += ["    @axe.chop", "    @axe.arg('x', objects.IntDataType)",
                  "    def %s(compiler, x):" % n, "        return x"]
        elif k == "void":
            L += ["    @axe.chop", "    def %s(compiler):" % n,
                  "        return None"]
        L.append("    out[%r] = objects.BinaryFunction(%s)" % (n, n))
    for t in m["nts"]:
        L.append("    out[%r] = named_tuple(%r, [%s], {%s}).cls_type()" % (
            t["name"], t["name"],
            ", ".join("(%r, %s)" % (n, NTCONV[ty]) for n, ty, _ in
                      t["fields"]),
            ", ".join("%r: resultlib.literal(%r)" % (n, dv[1])
                      for n, _, dv in t["fields"] if dv is not None)))
    ini = ["cmds.ScbSetConst(gv.slot, %d)" % m["gv"]] + \
        ["cmds.Cmd('probe init %s %d')" % (m["name"], i)
         for i in range(m["init"])]
    if m["dict"]:
        L.append("    return out")
    else:
        L.append("    return objects.BuiltModule(out, [%s])" % ", ".join(ini))
    return "\n".join(L) + "\n"


def wrap32(n):
    return (n + 2 ** 31) % 2 ** 32 - 2 ** 31


def asrc(a):
    return str(a[1]) if a[0] in "vn" else "(%s %s %s)" % (a[1], a[0], a[2])


def aval(a, e):
    if a[0] == "n":
        return a[1]
    if a[0] == "v":
        return e[a[1]]
    if a[0] == "+":
        return wrap32(e[a[1]] + a[2])
    return wrap32(e[a[1]] * e[a[2]])


def strsrc(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def litsrc(v):
    return strsrc(v[1]) if v[0] == "str" else repr(v[1])


def run_modules(case):
    mods = {m["name"]: m for m in case["mods"]}
    via = case["via"]
    files = {}
    L, pre = [], {}
    for n, m in mods.items():
        path = n
        if via == "pkg":
            path = "pkg." + n
            files["pkg/%s.py" % n] = mod_py(m)
        else:
            files[n + ".py"] = mod_py(m)
        if via == "alias":
            L.append("import %s as z%s" % (path, n))
            pre[n] = "z%s." % n
        elif via == "pkg":
            L.append("import %s as %s" % (path, n))
            pre[n] = n + "."
        else:
            L.append("import %s" % path)
            pre[n] = n + "."
        if via == "from":
            names = [f["name"] for f in m["funcs"]] + \
                [c[0] for c in m["consts"]] + [t["name"] for t in m["nts"]]
            L.append("from %s import %s" % (path, ", ".join(
                "%s as %s_%s" % (x, n, x) for x in names)))
            pre[n] = n + "_"
    if via == "both":
        # the same modules through another one
        files["mid.aca"] = "".join("import %s\n" % n for n in mods) + \
            "".join("%s\n" % ("const k%s = %s.%s" % (
                n, n, m["consts"][0][0])) for n, m in mods.items()
                if m["consts"])
        L.insert(0, "import mid")
    want = []
    for n, m in mods.items():
        if not m["dict"]:
            want += ["probe init %s %d" % (n, i) for i in range(m["init"])]
    e = {"x": case["x"], "y": case["y"]}
    gv = {n: None if m["dict"] else m["gv"] for n, m in mods.items()}
    L += ["import print", "x := %d" % e["x"], "y := %d" % e["y"],
          "def ident(q: int) -> int:", "    result q"]
    bad = None
    nt = 0

    def out_int(t, v):
        L.append('print.tell(print.format("v%%0", %s))' % t)
        want.append("v%d" % v)
    for i, s in enumerate(case["stmts"]):
        if s[0] == "x":
            L.append("x = %d" % s[1])
            e["x"] = s[1]
        elif s[0] == "const":
            v = dict(mods[s[1]]["consts"])[s[2]]
            t = pre[s[1]] + s[2]
            L.append("/probe <${%s}>" % t)
            want.append("probe <%s>" % ashex(v))
        elif s[0] == "call":
            _, mn, fn, args, st, num, how = s
            m = mods[mn]
            f = next(f for f in m["funcs"] if f["name"] == fn)
            k, t = f["kind"], pre[mn] + fn
            nt += 1
            if k == "lit":
                L.append("const r%d = %s()" % (i, t))
                L.append("/probe <${r%d}>" % i)
                want.append("probe <%s>" % ashex(f["v"]))
                continue
            if k == "void":
                L.append("%s()" % t)
                continue
            if k == "cmds":
                c = "%s(%s, %d)" % (t, strsrc(st[1]), num)
                o = ["probe %s.%s 1 %d%s" % (mn, fn, num, st[1]),
                     "probe %s.%s 2" % (mn, fn)]
                if how == "if":
                    L += ["if x > 10:", "    " + c]
                    o = o if e["x"] > 10 else []
                elif how == "fn":
                    L += ["def g%d():" % i, "    " + c,
                          "g%d()" % i, "g%d()" % i]
                    o = o + o
                else:
                    L.append(c)
                want += o
                continue
            if k == "setv":
                v = aval(args[0], e)
                c = "%s(%s)" % (t, asrc(args[0]))
                if how == "if":
                    L += ["if x > 10:", "    " + c]
                    if e["x"] > 10:
                        gv[mn] = v
                else:
                    L.append(c)
                    gv[mn] = v
                continue
            if k == "getv":
                v, c = gv[mn], "%s()" % t
                if v is None:
                    continue
            elif k == "same":
                v, c = aval(args[0], e), "%s(%s)" % (t, asrc(args[0]))
            else:
                a, b, cc = f["abc"]
                p, q = aval(args[0], e), aval(args[1], e)
                v = max(p, q) if k == "pair" else \
                    wrap32(a * p + b * q + cc)
                c = "%s(%s, %s)" % (t, asrc(args[0]), asrc(args[1]))
                if i % 3 == 1:
                    c = "%s(y=%s, x=%s)" % (t, asrc(args[1]), asrc(args[0]))
            if how == ":=":
                L.append("r%d := %s" % (i, c))
                out_int("r%d" % i, v)
            elif how == "=":
                L.append("x = %s" % c)
                e["x"] = v
                out_int("x", v)
            elif how == "const":
                L.append("y += %s" % c)
                e["y"] = wrap32(e["y"] + v)
                out_int("y", e["y"])
            elif how == "expr":
                L.append("r%d := %s * 3 - x" % (i, c))
                out_int("r%d" % i, wrap32(wrap32(v * 3) - e["x"]))
            elif how == "if":
                L += ["r%d := 0" % i, "if %s >= 5:" % c, "    r%d = 1" % i]
                out_int("r%d" % i, int(v >= 5))
            elif how == "arg":
                out_int("ident(%s)" % c, v)
            else:
                L += ["def g%d() -> int:" % i, "    result %s" % c]
                out_int("g%d()" % i, v)
        elif s[0] == "nt":
            _, mn, tn, how, given = s
            t = next(t for t in mods[mn]["nts"] if t["name"] == tn)
            full = pre[mn] + tn
            fs = {n: (ty, dv) for n, ty, dv in t["fields"]}
            base = {n: dv or MLITS[{"int": 1, "bool": 5, "str": 8}[ty]]
                    for n, ty, dv in t["fields"]}
            wrong = [n for n, v in given if n not in fs or v[0] != fs[n][0]]
            gs = ", ".join("%s=%s" % (n, litsrc(v)) for n, v in given)
            g = dict((n, v) for n, v in given)
            if how == "new":
                miss = [n for n, ty, dv in t["fields"]
                        if dv is None and n not in g]
                wrong += miss
                L.append("const p%d = %s(%s)" % (i, full, gs))
                val = {n: g.get(n, dv) for n, ty, dv in t["fields"]}
            else:
                L.append("const o%d = %s(%s)" % (i, full, ", ".join(
                    "%s=%s" % (n, litsrc(base[n])) for n in fs)))
                val = {n: g.get(n, base[n]) for n in fs}
                ev = full + ".evolve(%s" + (gs and ", " + gs).replace(
                    "%", "%%") + ")"
                if how == "evolve":
                    L.append("const p%d = %s" % (i, ev % ("o%d" % i)))
                elif how == "cfun":
                    L += ["const def h%d(t: %s) -> %s:" % (i, full, full),
                          "    result " + ev % "t",
                          "const p%d = h%d(o%d)" % (i, i, i)]
                else:
                    L += ["inline def h%d(const t: %s) -> const %s:" % (
                        i, full, full),
                        "    result " + ev % "t",
                        "const p%d = h%d(o%d)" % (i, i, i)]
            if wrong:
                bad = (len(L) - 2 if how in ("cfun", "inl") else
                       len(L) - 1, wrong)
                break
            nt += 1
            for n in fs:
                L.append("/probe %s <${p%d.%s}>" % (n, i, n))
                want.append("probe %s <%s>" % (n, ashex(val[n])))
            if how != "new":
                for n in fs:
                    L.append("/probe %s <${o%d.%s}>" % (n, i, n))
                    want.append("probe %s <%s>" % (n, ashex(base[n])))
    src = "\n".join(L) + "\n"
    files["main.aca"] = src
    if bad:
        out, r = try_build(files)
        need(out == "rejected", "bad fields %s should be refused\n%s\n%s",
             bad[1], src, files)
        need(":%d:" % (bad[0] + 1) in r.text, "line %d should be named: %s"
             "\n%s", bad[0] + 1, r.text, src)
        return {"nontrivial": True, "tags": ["refused"]}
    b = build(files)
    vm = execute(b, src=src)
    if case["again"]:
        # a second start initialises everything again
        execute(b, vm=vm, src=src, init=False)
        want = want + want
    got = [ev[1] if ev[0] == "cmd" else ev[2] for ev in vm.events]
    same(got, want, "what the program shows", src + "".join(
        v for k, v in files.items() if k != "main.aca"), b)
    return {"nontrivial": nt >= 2, "tags": ["ran", via]}


CHECKS = [
    Check("calls", g_calls, run, 6000, 120000),
    Check("modules", g_modules, run_modules, 1500, 30000),
]
