"""P06: structs and value semantics."""
from ..core import Check
from .. import lang, plang

RULE = ("the program copies, swaps, passes or returns a struct value, or "
        "writes a field, and the effect is observed")
ASSUMPTIONS = [
    "a struct value is only read after every field was written",
]


def run(prog):
    m, src, b, vm = plang.judge(prog)
    h = plang.heads(prog)
    return {"nontrivial": "f" in h and bool(prog["structs"]),
            "tags": [k for k in ("swap", "mk", "f", "ref", "call") if k in h]
            + (["extends"] if any(s["bases"] for s in prog["structs"])
               else [])}


class G(lang.Gen):
    def gen_structs(self):
        while not self.structs:
            super().gen_structs()

    def pick_type(self):
        d = self.d
        k = d.int(0, 9)
        if k < 6:
            return d.pick(self.structs)["name"]
        return "int" if k < 9 else "bool"

    def gen_stmt(self, out, nest, effects=True):
        d = self.d
        k = d.int(0, 9)
        if k <= 2:
            ty = self.pick_type()
            ps = self.paths(ty, True)
            if len(ps) >= 2:
                a, b = d.sample(ps, 2)
                if k == 0:
                    out.append(["swap", a, b])
                else:
                    out.append(["set", a, b])
                return
        return super().gen_stmt(out, nest, effects)


def g_structs(d):
    return G(d, div=False, small=d.flip(70), depth=2, nest=d.int(0, 2),
             nstructs=4, stmts=7, forlist=False).program()


def g_assign(d):
    g = G(d, div=False, small=True, depth=2, nstructs=4, scb=False)
    def k_swap(d, g, out):
        ps = g.paths(g.pick_type(), True)
        if len(ps) >= 2:
            out.append(["swap"] + d.sample(ps, 2))
    return plang.one_stmt(d, g, [plang.k_set(None), plang.k_set(None),
                                 k_swap], 4)


CHECKS = [
    Check("structs", g_structs, run, 8000, 200000),
    Check("assign", g_assign, run, 9000, 200000),
]
