"""P30: what a world has been used for before does not matter.

A program of another property's check is started in a world in which it was
started before, in which another program was run, or whose scores hold
arbitrary values.  The oracle of the check it comes from must hold for it all
the same."""
import random
import re

from ..core import Check, Skip, Violation
from .. import h as mod, harvest
from ..mcvm import Fuel, Malformed

RULE = ("the world had at least one score before the program was started, "
        "and the case is non-trivial by the rule of the check it comes from")
ASSUMPTIONS = [
    "entities of earlier runs were removed (their tags would still name them)",
    "scores other than those of the compiler are left alone",
    "a task that a function creates is one from the call that creates it on",
]
OWN = {"P08", "P13", "P14", "P23", "P24", "P26"}
OBJ = re.compile(r"^scoreboard objectives add (\S+) ", re.M)
MODES = ["again", "again", "stale", "older"]


def OTHERS():
    return {(p, c.name) for p, c in harvest.checks() if p not in OWN}


def g_others(d):
    mode = d.pick(MODES)
    c = {"h": harvest.draw(d, OTHERS()), "mode": mode,
          "seed": d.int(0, 10 ** 6), "times": d.pick([1, 1, 2])}
    if mode == "older":
        c["old"] = harvest.draw(d, OTHERS())
    if c["h"]["prop"] == "P19":
        c["mode"] = "again"       # (see ASSUMPTIONS)
    return c


def forget(vm):
    """A world without entities in which nothing was observed yet."""
    for e in list(vm.ents):
        vm.remove_ent(e)
    for k in [k for k in vm.scores if not isinstance(k[0], str)]:
        del vm.scores[k]
    vm._uid = 0
    vm.steps = vm.time = 0
    for x in (vm.events, vm.undef_reads, vm.tr_keys, vm.targets, vm.pending):
        x.clear()
    vm.blocks.clear()
    vm.touched_fns.clear()


def start(b, vm):
    if b.init:
        vm.run(b.init)
    if b.main in b.files:
        vm.run(b.main)


def use(b, vm, r):
    """Some of what a player may do once the program has been started."""
    own = b.cfg.internal_folder + "/"
    fs = [p for p in sorted(b.files) if own not in p and not p.endswith(
        ".json") and p not in (b.main, b.init, b.tick)]
    for _ in range(r.randint(0, 5)):
        if fs and r.random() < .6:
            vm.run(r.choice(fs))
        elif b.tick in b.files:
            for _ in range(r.randint(1, 4)):
                vm.run(b.tick)


def run_others(case):
    used = [0]
    older = None
    # a task that a function creates keeps its request (see ASSUMPTIONS)
    c = case["h"]["case"]
    makers = case["h"]["prop"] == "P19" and any(
        i[0] == "maker" for i in c.get("items", ()))
    if case["mode"] == "older":
        files, main, cfg = harvest.source(case["old"])
        out, older = mod.try_build(files, main=main, **cfg)
        if out != "ok":
            raise Skip("older program refused")

    def before(b, vm, setup, is_main):
        r = random.Random(case["seed"])
        if case["mode"] == "stale":
            for t in b.files.values():
                for o in OBJ.findall(t):
                    vm.objectives.setdefault(o, "dummy")
            pre = b.cfg.scoreboard
            for t in b.files.values():
                for m in re.finditer(r"(\w+\d) (%s\d+)(?!\S)"
                                     % re.escape(pre), t):
                    if m.group(2) in vm.objectives:
                        vm.scores[m.group(1), m.group(2)] = r.choice(
                            [-1, 0, 1, 2, 3, 7, 2 ** 31 - 1, -2 ** 31,
                             r.randint(-2 ** 31, 2 ** 31 - 1)])
        else:
            first = older if older else b
            files = vm.files
            if setup:
                setup(vm)
            fuel, vm.fuel = vm.fuel, 20000
            rng, vm.rng = vm.rng, (lambda lo, hi: lo)
            try:
                vm.files = {p: t.split("\n") for p, t in first.files.items()}
                for _ in range(case["times"]):
                    start(first, vm)
                    if not makers:
                        use(first, vm, r)
            except (Malformed, Fuel, RecursionError):
                raise Skip("former run") from None
            finally:
                vm.files, vm.fuel, vm.rng = files, fuel, rng
        used[0] += bool(vm.scores)
        forget(vm)
    mod.BEFORE = before
    try:
        info = harvest.rerun(case["h"])
    except Violation as e:
        mod.BEFORE = None
        try:
            harvest.rerun(case["h"])
        except Violation:
            raise Skip("wrong in a fresh world")
        raise Violation("%s does not hold in a used world (%s): %s" % (
            case["h"]["prop"], case["mode"], e)) from None
    finally:
        mod.BEFORE = None
    return {"nontrivial": bool(used[0] and info.get("nontrivial")),
            "tags": [case["mode"], case["h"]["prop"]]}


CHECKS = [
    Check("others", g_others, run_others, 9000, 160000),
]
