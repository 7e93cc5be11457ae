"""P04: functions: parameters, results, call styles, inlining."""
from ..core import Check, Skip
from ..h import build, execute, same
from .. import lang, plang

RULE = "at least one user-defined function is executed"
ASSUMPTIONS = [
    "no recursion (the language has none)",
    "calls inside expressions are to functions without side effects; "
    "functions with side effects are called as statements or as the whole "
    "right-hand side",
    "every function with a result type executes a result statement",
]


def run(prog):
    m, src, b, vm = plang.judge(prog)
    fs = prog["funcs"]
    tags = []
    for f in fs:
        tags += ["inline"] if f["inline"] else ["def"]
        tags += ["param-" + p[1] for p in f["params"]]
        tags += ["retmode" + f["retmode"].strip()] if f.get("retmode") else []
    return {"nontrivial": bool(m.stats.get("call")),
            "tags": sorted(set(tags))}


class G(lang.Gen):
    def gen_stmt(self, out, nest, effects=True):
        d = self.d
        k = d.int(0, 9)
        if k <= 3 and self.funcs:
            if k <= 1 or not effects:
                f = d.pick(self.funcs)
                if f["pure"] and f["ret"] and f.get("retmode") != "&":
                    c = self.call_of(f, 1)
                    if c is not None:
                        ps = self.paths(f["ret"], True)
                        if ps and d.flip():
                            out.append(["set", d.pick(ps), c])
                        elif f["ret"] == "int" and ps and d.flip():
                            out.append(["aug", d.pick("+-*"), d.pick(ps), c])
                        else:
                            n = self.name("x")
                            out.append(["decl", n, f["ret"], c])
                            self.scopes[-1][n] = (f["ret"], "var")
                    return
            elif effects:
                cands = [f for f in self.funcs if not f["pure"] and
                         not f.get("retmode")]
                if cands:
                    f = d.pick(cands)
                    c = self.call_of(f, 1)
                    if c is not None:
                        ps = self.paths(f["ret"], True) if f["ret"] else []
                        if ps and d.flip(60):
                            out.append(["set", d.pick(ps), c])
                        else:
                            out.append(["ex", c])
                    return
        return super().gen_stmt(out, nest, effects)


def g_funcs(d):
    return G(d, div=False, small=d.flip(50), depth=2, nest=d.int(0, 2),
             nfun=4, stmts=6, structs=d.flip(40), inline=False).program()


def g_inline(d):
    return G(d, div=False, small=d.flip(50), depth=2, nest=d.int(0, 2),
             nfun=4, stmts=6, structs=d.flip(40)).program()


# --- arguments meet parameters -----------------------------------------------
# case: {"funs": [fun], "calls": [[target, expr]], "seed"}
# fun: {"n", "where": "top"|"meth"|"static", "inline", "params": [[name, mode,
#   type, default]], "mut": [param, k] | None, "cnt": bool, "ret": bool}
# expr: ["i", n] ["t", b] ["g", name] ["call", k, [[kw|None, expr]..]]
#   ["+", e, e] ["*", e, e]
# All functions show their arguments.  Where the order of evaluation would
# matter the operations used are commutative.
VARS = {"ga": ("int", 11), "gb": ("int", -7), "gt": ("bool", True),
        "gf": ("bool", False)}


def g_bind(d):
    funs = []
    for k in range(d.int(1, 3)):
        inline = d.flip(40)
        where = d.wpick((3, "top"), (1, "meth"), (1, "static"))
        params = []
        dflt = False
        for j in range(d.int(0, 6)):
            mode = d.wpick((4, "val"), (2, "const"), (1, "ref")) \
                if inline else "val"
            ty = d.wpick((4, "int"), (1, "bool"))
            dflt = dflt or d.flip(30)
            if mode == "ref" and dflt:
                mode = "val"
            dv = None
            if dflt:
                dv = d.int(-9, 99) if ty == "int" else d.flip()
            params.append(["p%d" % j, mode, ty, dv])
        vals = [q for q in params if q[1] == "val"]
        funs.append({
            "n": "f%d" % k, "where": where, "inline": inline,
            "params": params, "ret": d.flip(65),
            "cnt": d.flip(60),
            "mut": [d.pick(vals)[0], d.int(1, 5)]
            if vals and d.flip(60) else None})
    if d.flip(40):
        funs.append({"n": "next", "where": d.pick(["top", "meth", "static"]),
                     "inline": d.flip(40), "params": [], "ret": True,
                     "cnt": True, "mut": None})
    calls = []
    for _ in range(d.int(1, 5)):
        k = d.int(0, len(funs) - 1)
        e = b_call(d, funs, k, 2)
        rets = [i for i, f in enumerate(funs) if f["ret"]]
        if rets and d.flip(40):
            e = b_call(d, funs, d.pick(rets), 1)
            op = d.pick(["+", "+", "*"])
            for _ in range(d.int(1, 2)):
                i = d.pick(rets)
                e = [op, e, e if d.flip() and e[0] == "call" else
                     b_call(d, funs, i, 0)]
        calls.append(e)
    return {"funs": funs, "calls": calls}


def b_call(d, funs, k, depth):
    f = funs[k]
    given = []
    nested = False
    ps = f["params"]
    npos = d.int(0, len(ps))
    refs = set()
    rest = []
    for j, (n, mode, ty, dv) in enumerate(ps):
        if j >= npos and dv is not None and d.flip():
            continue
        if mode == "ref":
            c = [v for v in sorted(VARS) if VARS[v][0] == ty]
            e = ["g", d.pick(c)]
        elif mode == "const" or d.flip(45):
            e = ["i", d.int(-50, 300)] if ty == "int" else ["t", d.flip()]
        elif ty == "int" and depth and not nested and d.flip(40) and \
                any(g["ret"] for g in funs):
            nested = True
            e = b_call(d, funs, d.pick(
                [i for i, g in enumerate(funs) if g["ret"]]), depth - 1)
        else:
            e = ["g", d.pick([v for v in sorted(VARS)
                              if VARS[v][0] == ty])]
        (given if j < npos else rest).append([None if j < npos else n, e])
    return ["call", k, given + d.shuffle(rest)]


def b_text(e, funs):
    if e[0] == "i":
        return str(e[1])
    if e[0] == "t":
        return str(e[1])
    if e[0] == "g":
        return e[1]
    if e[0] in "+*":
        return "%s %s %s" % (b_text(e[1], funs), e[0], b_text(e[2], funs))
    f = funs[e[1]]
    return "%s%s(%s)" % (
        {"top": "", "meth": "ent.", "static": "T."}[f["where"]], f["n"],
        ", ".join((k + "=" if k else "") + b_text(v, funs)
                  for k, v in e[2]))


def b_src(case):
    funs = case["funs"]
    meths, tops = [], []
    for f in funs:
        out = []
        ps = []
        for n, mode, ty, dv in f["params"]:
            ps.append({"val": "", "const": "const ", "ref": "&"}[mode] +
                      "%s: %s" % (n, ty) +
                      ("" if dv is None else " = %s" % dv))
        ind = "" if f["where"] == "top" else "    "
        out.append("%s%s%sdef %s(%s)%s:" % (
            ind, "static " if f["where"] == "static" else "",
            "inline " if f["inline"] else "", f["n"], ", ".join(ps),
            " -> int" if f["ret"] else ""))
        names = [q[0] for q in f["params"]]
        body = ["print.tell(print.format(\"%s%s\"%s))" % (
            f["n"], "".join(" %%%d" % i for i in range(len(names))),
            "".join(", " + n for n in names))]
        if f["mut"]:
            n, k = f["mut"]
            ty = [q[2] for q in f["params"] if q[0] == n][0]
            body.append("%s += %d" % (n, k) if ty == "int" else
                        "%s = not %s" % (n, n))
            body.append("print.tell(print.format(\"m %%0\", %s))" % n)
        if f["cnt"]:
            body.append("cnt += 1")
        if f["ret"]:
            body.append("result %s" % " + ".join(
                ["cnt"] + ["%d * %s" % (j + 2, q[0]) for j, q in
                           enumerate(f["params"]) if q[2] == "int"]))
        out += [ind + "    " + b for b in body]
        (tops if f["where"] == "top" else meths).append("\n".join(out))
    lines = ["import print", "cnt := 0"]
    lines += ["%s: %s" % (v, VARS[v][0]) for v in sorted(VARS)]
    lines += ["%s = %s" % (v, VARS[v][1]) for v in sorted(VARS)]
    lines += ["entity T:\n    k: int"] + meths
    lines += tops
    if any(f["where"] == "meth" for f in funs):
        lines.append("ent := T(\"pig\", Pos(0, 0, 0))")
    for j, e in enumerate(case["calls"]):
        t = b_text(e, funs)
        if e[0] == "call" and not funs[e[1]]["ret"]:
            lines.append(t)
        else:
            lines.append("r%d := %s" % (j, t))
            lines.append("print.tell(print.format(\"r %%0\", r%d))" % j)
    return "\n".join(lines) + "\n"


class BindModel:
    def __init__(self, funs):
        self.funs = funs
        self.cnt = 0
        self.out = []
        self.ncalls = 0

    def ev(self, e):
        if e[0] in "it":
            return e[1]
        if e[0] == "g":
            return VARS[e[1]][1]
        if e[0] in "+*":
            a = self.ev(e[1])
            b = self.ev(e[2])
            return lang.wrap(a + b if e[0] == "+" else a * b)
        f = self.funs[e[1]]
        self.ncalls += 1
        env = {}
        for j, (k, v) in enumerate(e[2]):
            env[k or f["params"][j][0]] = self.ev(v)
        for n, mode, ty, dv in f["params"]:
            env.setdefault(n, dv)
        self.out.append(" ".join([f["n"]] + [str(int(env[q[0]]))
                                             for q in f["params"]]))
        if f["mut"]:
            n, k = f["mut"]
            ty = [q[2] for q in f["params"] if q[0] == n][0]
            env[n] = lang.wrap(env[n] + k) if ty == "int" else not env[n]
            self.out.append("m %d" % env[n])
        if f["cnt"]:
            self.cnt += 1
        if f["ret"]:
            return lang.wrap(self.cnt + sum(
                (j + 2) * env[q[0]] for j, q in enumerate(f["params"])
                if q[2] == "int"))

    def run(self, calls):
        for e in calls:
            v = self.ev(e)
            if v is not None:
                self.out.append("r %d" % v)


def run_bind(case):
    src = b_src(case)
    m = BindModel(case["funs"])
    m.run(case["calls"])
    b = build(src)
    vm = execute(b, setup=lambda vm: vm.add_ent("minecraft:player"), src=src)
    same([e[2] for e in vm.events if e[0] == "tellraw"], m.out,
         "what the functions show", src, b)
    tags = set()
    for e in case["calls"]:
        if e[0] != "call":
            tags.add("calls-in-expression")
            continue
        f = case["funs"][e[1]]
        if len(e[2]) < len(f["params"]):
            tags.add("defaults")
        if any(k for k, v in e[2]):
            tags.add("keywords")
        if any(v[0] == "call" for k, v in e[2]):
            tags.add("call-in-argument")
        tags.add(f["where"] + ("-inline" if f["inline"] else ""))
    return {"nontrivial": m.ncalls >= 2 and bool(
        tags & {"calls-in-expression", "defaults", "keywords"}),
            "tags": sorted(tags)}

# --- functions inside of functions -------------------------------------------
# case: {"body": [stmt]}
# stmt: ["decl", name, expr] ["aug", op, name, expr] ["show", [expr]]
#   ["const", name, call] ["def", fun] ["res", expr] ["call", name|None, call]
#   ["if", expr, [stmt]] ["for", name, [int], [stmt]] ["pass"]
# fun: {"n", "inline", "mode": "" | "&" | "const", "ret": bool,
#   "params": [[name, "" | "const"]], "body": [stmt]}
# expr: int | name | [op, expr, expr];  call: [fun name, [expr]]

class Nest:
    def __init__(self, d):
        self.d = d
        self.nv = 0

    def fresh(self, p):
        self.nv += 1
        return "%s%d" % (p, self.nv)

    # env: {"vars": [..], "consts": [..], "funs": [..]} visible names
    def expr(self, env, depth=1):
        d = self.d
        k = d.int(0, 5)
        if k <= 2 and env["vars"]:
            return d.pick(env["vars"])
        if k == 3 and env["consts"]:
            return d.pick(env["consts"])
        if k == 4 and depth:
            return [d.pick("+-*"), self.expr(env, depth - 1),
                    self.expr(env, depth - 1)]
        return d.int(-9, 9)

    def call(self, env, f):
        d = self.d
        args = []
        for _, mode in f["params"]:
            args.append(d.pick(env["consts"] + [d.int(-9, 9)])
                        if mode == "const" else self.expr(env))
        return [f["n"], args]

    def fun(self, env, depth):
        d = self.d
        inline = d.flip(65)
        mode = d.wpick((3, ""), (1, "&"), (2, "const")) if inline else ""
        f = {"n": self.fresh("f"), "inline": inline, "mode": mode,
             "ret": mode != "" or d.flip(70),
             "params": [[self.fresh("p"), "const" if inline and d.flip(30)
                         else ""] for _ in range(d.int(0, 2))], "body": []}
        new = {k: list(v) for k, v in env.items()}
        for n, m in f["params"]:
            new["consts" if m == "const" else "vars"].append(n)
        own = [n for n, m in f["params"] if m != "const"]
        self.block(f["body"], new, d.int(0, 5), depth - 1, f, own)
        if not f["body"]:
            f["body"].append(["pass"])
        return f

    def result(self, f, env, own):
        d = self.d
        if f["mode"] == "const":
            return ["res", d.pick(env["consts"] + [d.int(-9, 9)])]
        if f["mode"] == "&":
            return ["res", d.pick(own)] if own else None
        return ["res", self.expr(env)]

    def block(self, out, env, n, depth, f=None, own=()):
        """statements of the body of f (None: the main file); own: variables
        of this scope"""
        d = self.d
        own = list(own)
        at = d.int(0, n) if f and f["ret"] else -1
        for i in range(n + 1):
            if i == at:
                if f["mode"] == "&" and not own:
                    v = self.fresh("v")
                    out.append(["decl", v, self.expr(env)])
                    own.append(v)
                    env["vars"].append(v)
                out.append(self.result(f, env, own))
                at = -2
            if i < n:
                self.stmt(out, env, depth, f, own, at == -2)

    def stmt(self, out, env, depth, f, own, after):
        d = self.d
        k = d.wpick((3, "def"), (5, "call"), (2, "decl"), (2, "aug"),
                    (3, "show"), (1, "if"), (1, "for"), (1, "res"))
        if k == "def" and depth > 0:
            g = self.fun(env, depth)
            out.append(["def", g])
            env["funs"].append(g)
            if d.flip(75):
                self.use(out, env, g, own)
        elif k in ("call", "def") and env["funs"]:
            self.use(out, env, d.pick(env["funs"]), own)
        elif k == "decl":
            v = self.fresh("v")
            out.append(["decl", v, self.expr(env)])
            env["vars"].append(v)
            own.append(v)
        elif k == "aug" and env["vars"]:
            out.append(["aug", d.pick("+-*"), d.pick(env["vars"]),
                        self.expr(env)])
        elif k == "if":
            body = []
            e = {x: list(y) for x, y in env.items()}
            for _ in range(d.int(1, 2)):
                self.stmt(body, e, 0, f, list(own), after)
            if body:
                out.append(["if", self.expr(env), body])
        elif k == "for":
            body = []
            e = {x: list(y) for x, y in env.items()}
            v = self.fresh("i")
            e["consts"].append(v)
            # a loop runs its body more than once: one result only
            once = f is not None and f["mode"] != ""
            for _ in range(d.int(1, 3)):
                self.stmt(body, e, depth - 1, None if once else f, [], after)
            if body:
                out.append(["for", v, [d.int(-9, 9)
                                       for _ in range(d.int(1, 3))], body])
        elif k == "res" and f and f["ret"] and f["mode"] == "" and after:
            out.append(["res", self.expr(env)])
        else:
            out.append(["show", [self.expr(env)
                                 for _ in range(d.int(1, 3))]])

    def use(self, out, env, g, own):
        d = self.d
        c = self.call(env, g)
        if g["ret"] and g["mode"] == "const" and d.flip(60):
            v = self.fresh("c")
            out.append(["const", v, c])
            env["consts"].append(v)
        elif g["ret"] and d.flip(80):
            v = self.fresh("v")
            out.append(["call", v, c])
            env["vars"].append(v)
            own.append(v)
        else:
            out.append(["call", None, c])


def g_nest(d):
    g = Nest(d)
    out = []
    env = {"vars": [], "consts": [], "funs": []}
    for _ in range(d.int(1, 2)):
        v = g.fresh("v")
        out.append(["decl", v, d.int(-9, 9)])
        env["vars"].append(v)
    for _ in range(d.int(1, 2)):
        f = g.fun(env, d.int(2, 4))
        out.append(["def", f])
        env["funs"].append(f)
        g.use(out, env, f, [])
    g.block(out, env, d.int(1, 5), 3)
    out.append(["show", list(env["vars"])])
    return {"body": out}


def nexpr(e):
    if isinstance(e, list):
        return "(%s %s %s)" % (nexpr(e[1]), e[0], nexpr(e[2]))
    return str(e)


def nlines(body, pad, out):
    for s in body:
        k = s[0]
        if k == "decl":
            out.append("%s%s: int = %s" % (pad, s[1], nexpr(s[2])))
        elif k == "aug":
            out.append("%s%s %s= %s" % (pad, s[2], s[1], nexpr(s[3])))
        elif k == "show":
            out.append('%sprint.tell(print.format("%s"%s))' % (
                pad, " ".join("%%%d" % i for i in range(len(s[1]))),
                "".join(", " + nexpr(e) for e in s[1])))
        elif k in ("const", "call"):
            c = "%s(%s)" % (s[2][0], ", ".join(map(nexpr, s[2][1])))
            out.append(pad + ("const %s = " % s[1] if k == "const" else
                              "%s := " % s[1] if s[1] else "") + c)
        elif k == "res":
            out.append("%sresult %s" % (pad, nexpr(s[1])))
        elif k == "pass":
            out.append(pad + "pass")
        elif k == "if":
            out.append("%sif %s > 0:" % (pad, nexpr(s[1])))
            nlines(s[2], pad + "    ", out)
        elif k == "for":
            out.append("%sfor %s in {%s}:" % (pad, s[1],
                                              ", ".join(map(str, s[2]))))
            nlines(s[3], pad + "    ", out)
        else:
            f = s[1]
            ps = [("const " + n if m == "const" else n) + ": int"
                  for n, m in f["params"]]
            mode = {"const": "const ", "&": "&"}.get(f["mode"], "")
            out.append("%s%sdef %s(%s)%s:" % (
                pad, "inline " if f["inline"] else "", f["n"], ", ".join(ps),
                " -> %sint" % mode if f["ret"] else ""))
            nlines(f["body"], pad + "    ", out)


class NestModel:
    def __init__(self):
        self.out = []
        self.steps = self.calls = 0

    def ev(self, e, env):
        if isinstance(e, list):
            a, b = self.ev(e[1], env), self.ev(e[2], env)
            v = a + b if e[0] == "+" else a - b if e[0] == "-" else a * b
            if abs(v) > 10 ** 6:
                raise Skip("big")
            return v
        return self.cell(e, env)[0] if isinstance(e, str) else e

    def cell(self, n, env):
        while n not in env:
            env = env["^"]
        return env[n]

    def call(self, c, env):
        self.steps += 1
        if self.steps > 300:
            raise Skip("long")
        f, home = self.cell(c[0], env)
        new = {"^": home}
        for (n, _), a in zip(f["params"], c[1]):
            new[n] = [self.ev(a, env)]
        self.calls += home is not None and "^" in home
        box = [None]
        self.block(f["body"], new, box, f)
        # a reference shows what the variable holds at the end
        return self.cell(box[0], new)[0] if f["mode"] == "&" else box[0]

    def block(self, body, env, box, f=None):
        for s in body:
            k = s[0]
            if k == "decl":
                env[s[1]] = [self.ev(s[2], env)]
            elif k == "aug":
                c = self.cell(s[2], env)
                c[0] = self.ev([s[1], c[0], s[3]], env)
            elif k == "show":
                self.out.append(" ".join(str(self.ev(e, env))
                                         for e in s[1]))
            elif k in ("const", "call"):
                v = self.call(s[2], env)
                if s[1]:
                    env[s[1]] = [v]
            elif k == "res":
                box[0] = s[1] if f and f["mode"] == "&" \
                    else self.ev(s[1], env)
            elif k == "if":
                # names of a branch belong to the scope around it
                if self.ev(s[1], env) > 0:
                    self.block(s[2], env, box, f)
            elif k == "for":
                for v in s[2]:
                    self.block(s[3], {"^": env, s[1]: [v]}, box, f)
            elif k == "def":
                env[s[1]["n"]] = (s[1], env)


def run_nest(case):
    m = NestModel()
    m.block(case["body"], {}, [None])
    out = ["import print"]
    nlines(case["body"], "", out)
    src = "\n".join(out) + "\n"
    b = build(src)
    vm = execute(b, None, src)
    same([e[2] for e in vm.events if e[0] == "tellraw"], m.out,
         "messages", src, b)
    return {"nontrivial": m.calls >= 2,
            "tags": ["depth%d" % max((len(x) - len(x.lstrip())) // 4
                                     for x in out)]}


CHECKS = [
    Check("plain", g_funcs, run, 8000, 200000),
    Check("inline", g_inline, run, 9000, 250000),
    Check("nested", g_nest, run_nest, 5000, 120000),
    Check("binding", g_bind, run_bind, 4000, 100000),
]
