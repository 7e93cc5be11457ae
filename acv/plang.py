"""Shared judge of the checks that compare execution with lang.Model."""
from .core import Skip, Violation
from .h import build, execute, same
from . import lang


def model(prog):
    m = lang.Model(prog)
    try:
        m.run()
    except lang.ModelError as e:
        raise Skip(str(e))
    return m


def judge(prog, m=None, src=None, **cfg):
    m = m or model(prog)
    src = src or lang.render(prog)
    b = build(src, **cfg)
    vm = execute(b, lang.setup_vm, src, undef_ok=True)
    same(lang.observed(vm), m.obs, "observed values", src, b)
    return m, src, b, vm


def heads(x, acc=None):
    """how often each expression/statement head occurs in a program"""
    if acc is None:
        acc = {}
    if isinstance(x, list):
        if x and isinstance(x[0], str):
            acc[x[0]] = acc.get(x[0], 0) + 1
            if x[0] in ("bin", "aug") and isinstance(x[1], str):
                acc[x[1]] = acc.get(x[1], 0) + 1
        for y in x:
            heads(y, acc)
    elif isinstance(x, dict):
        for y in x.values():
            heads(y, acc)
    return acc


def one_stmt(d, g, kinds, nvars=3):
    """Declare variables of every storage class, run one statement that may
    read and write any of them, dump everything."""
    w = g.w
    body = []
    if w["structs"]:
        g.gen_structs()
    for _ in range(d.int(1, nvars)):
        n = g.name("g")
        ty = g.pick_type()
        body.append(g.decl(n, ty, 0))
        g.scopes[0][n] = (ty, "var")
    if w["div"]:
        n = g.name("k")
        v = g.intlit() or 6
        body.append(["decl", n, None, ["i", v]])
        g.scopes[0][n] = ("int", "prot")
    if w["scb"] and d.flip(40):
        g.scores.append(("h1", "ob1"))
        body.append(["set", ["sc", "h1", "ob1"], ["i", g.intlit()]])
    if w["consts"] and d.flip(40):
        n = g.name("c")
        e = g.const_int(1)
        body.append(["const", n, e])
        g.scopes[0][n] = ("int", "const")
        g.cvals[n] = g.cv(e)
    if w["calls"]:
        for _ in range(d.int(0, 1)):
            body.append(["def", g.gen_func(w["inline"] and d.flip(40),
                                           True)])
    for _ in range(d.int(1, 2)):
        d.pick(kinds)(d, g, body)
    body += g.dump()
    return {"structs": g.structs, "math": w["math"],
            "funcs": [dict(f, at="body") for f in g.funcs], "body": body}


def k_set(ty):
    def f(d, g, out):
        t = ty or g.pick_type()
        ps = g.paths(t, True)
        if ps and d.flip(75):
            out.append(["set", d.pick(ps), g.ex(t)])
        else:
            n = g.name("x")
            out.append(g.decl(n, t))
            g.scopes[0][n] = (t, "var")
    return f


def k_aug(d, g, out):
    ps = g.paths("int", True)
    if ps:
        op = d.pick("+-*/%" if g.w["div"] else "+-*")
        v = g.divisor(2, True) if op in "/%" else g.ie()
        out.append(["aug", op, d.pick(ps), v])


def k_obs(d, g, out):
    g.gen_obs(out)


def k_if(d, g, out):
    out.append(["if", [[g.be(), [["say", 1]]]],
                [["say", 2]] if d.flip() else None])
