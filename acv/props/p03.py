"""P03: control flow."""
from ..core import Check
from .. import lang, plang

RULE = ("a branch or loop whose outcome depends on a runtime value is "
        "executed")
ASSUMPTIONS = [
    "loops terminate within the model's budget",
    "names declared in a branch are not used after it",
]


def run(prog):
    m, src, b, vm = plang.judge(prog)
    h = plang.heads(prog)
    st = m.stats
    return {"nontrivial": bool(st.get("then") or st.get("else") or
                               st.get("loop1") or st.get("loop2")),
            "tags": [k for k in ("then", "else", "loop0", "loop1", "loop2")
                     if st.get(k)] + (["for"] if "for" in h else [])}


class G(lang.Gen):
    def gen_stmt(self, out, nest, effects=True):
        d = self.d
        k = d.int(0, 9)
        if nest > 0 and k <= 2:
            return self.gen_if(out, nest, effects)
        if nest > 0 and k == 3 and self.loop_depth < 2:
            return self.gen_while(out, nest, effects)
        if k == 4 and effects:
            self.n += 1
            return out.append(["say", self.n])
        return super().gen_stmt(out, nest, effects)


def g_flow(d):
    return G(d, div=False, small=True, depth=d.int(1, 3), nest=d.int(1, 4),
             structs=False, stmts=6, math=False).program()


def g_loops(d):
    """nested loops whose conditions and counters are shared"""
    g = G(d, div=False, small=True, depth=2, nest=3, structs=False,
          calls=d.flip(60), forlist=d.flip(30))
    body = []
    for _ in range(d.int(1, 3)):
        n = g.name("g")
        body.append(["decl", n, "int", ["i", d.int(0, 5)]])
        g.scopes[0][n] = ("int", "var")
    n = g.name("b")
    body.append(["decl", n, "bool", ["t", d.flip()]])
    g.scopes[0][n] = ("bool", "var")
    if g.w["calls"]:
        body.append(["def", g.gen_func(d.flip(30), d.flip(30))])
    for _ in range(d.int(1, 2)):
        g.gen_while(body, 3, True)
        if d.flip(30):
            g.gen_if(body, 3, True)
    body += g.dump()
    return {"structs": [], "funcs": [dict(f, at="body") for f in g.funcs],
            "body": body}


CHECKS = [
    Check("flow", g_flow, run, 10000, 250000),
    Check("loops", g_loops, run, 8000, 200000),
]
