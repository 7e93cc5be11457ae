"""P27: values of every type behave the same wherever they are stored."""
from ..core import Check
from ..h import build, execute, same
from .. import ulang, static

RULE = ("structs, entities and groups are all written to, at least one "
        "function or method that takes or returns one of them is called, and "
        "at least eight writes happen")
ASSUMPTIONS = [
    "a player is online, so that entities can be created",
    "operands with side effects stand alone in a statement",
    "a reference parameter is not reached through an entity variable",
]


def run(case):
    p = case["prog"]
    src = ulang.source(p, case["split"])
    b = build(src, optimizer=case["opt"])
    static.lint(b, False, src=src)
    m = ulang.Model(p)
    vm = execute(b, lambda v: v.add_ent("player"), src)
    m.start()
    for h in [["show"]] + case["hist"]:
        if h[0] == "if" and h[1] < len(p["ifs"]):
            m.block(p["ifs"][h[1]], [{}, m.glob])
            execute(b, vm=vm, src=src, path="i%d" % h[1])
        elif h[0] == "main":
            m.start()
            execute(b, vm=vm, src=src, init=False)
        elif h[0] == "tick":
            for _ in range(h[1]):
                m.tick()
                if b.tick:
                    execute(b, vm=vm, src=src, path=b.tick)
        m.show()
        execute(b, vm=vm, src=src, path="show")
    got = [e[2] for e in vm.events if e[0] == "tellraw"]
    same(got, m.out, "displayed values", src, b)
    return {"nontrivial": m.writes >= 8 and bool(m.kinds & {"S"}) and
            bool(m.kinds & {"g"}) and m.called > 0,
            "tags": sorted(m.kinds) + (["ticks"] if m.ticked else [])}


def g(d):
    p = ulang.Gen(d).program()
    hist = []
    for _ in range(d.int(0, 4)):
        k = d.wpick((3, "if"), (3 if p["tasks"] else 0, "tick"), (1, "main"))
        hist.append([k, d.int(0, 1) if k == "if" else d.int(1, 4)])
    return {"prog": p, "opt": d.flip(), "hist": hist,
            "split": d.pick([0, 0, 1, 2])}


CHECKS = [
    Check("programs", g, run, 6000, 120000),
]
