"""P08: everything the compiler writes is complete and well formed."""
from ..core import Check, Skip, gen
from ..h import build, try_build
from .. import harvest, lang, plang, snips, soup, static
from .p10 import attempt, mutate
from .p12 import g_cfg

RULE = ("the output has at least ten commands or refers to at least one "
        "other function file")
ASSUMPTIONS = [
    "raw commands written by the user are not judged beyond their first word",
    "string constants in commands contain no line breaks",
]


def info(x, *tags):
    return {"nontrivial": x.ncmd >= 10 or x.refs > 0, "tags": list(tags)}


def run_lang(case):
    m = plang.model(case["prog"])
    src = lang.render(case["prog"])
    b = build(src, **case["cfg"])
    return info(static.lint(b, case["cfg"].get("debug_comments"),
                            extra_objs=("ob1", "ob2"), src=src))


def run_src(case):
    b = build(case["src"], **case["cfg"])
    return info(static.lint(b, case["cfg"].get("debug_comments"),
                            src=case["src"]))


class Foreign:
    """all objectives but those that the compiler makes itself"""

    def __init__(self, cfg):
        self.own = cfg.get("scoreboard", "acacia")

    def __contains__(self, o):
        return not (o.startswith(self.own) and
                    o[len(self.own):].isdigit())


def run_soup(case):
    # no spaces in names of entities, particles and the like
    case = dict(case, src=case["src"].replace('"a b"', '"ab"'))
    out, b = try_build({"main.aca": case["src"], "mod.aca": MOD},
                       **case["cfg"])
    if out != "ok":
        raise Skip
    # objectives named by the program are its own affair
    return info(static.lint(b, case["cfg"].get("debug_comments"),
                            extra_objs=Foreign(case["cfg"]),
                            src=case["src"], spaces=False))


MOD = "def test(x: int) -> bool:\n    result x > 3\nconst V = 4\n" \
      "inline def get_counter() -> const Any:\n" \
      "    n: int = 0\n    def c():\n        n += 1\n    result c\n"


def g_lang(d):
    return {"prog": lang.Gen(d, depth=2, nest=3).program(), "cfg": g_cfg(d)}


def g_snips(d):
    return {"src": snips.compose(d.sample(sorted(snips.SNIPS), d.int(1, 4)),
                                 d), "cfg": g_cfg(d)}


def g_others(d):
    return {"h": harvest.draw(d, PROGRAMS()),
            "cfg": g_cfg(d) if d.flip(40) else {},
            "ms": [[d.int(0, 10 ** 6), d.pick([0, 0, 1, 2, 4, 5, 6]),
                    d.int(0, 10 ** 6)] for _ in range(
                        d.int(1, 3) if d.flip(60) else 0)]}


def PROGRAMS():
    # P21's programs call modules that write commands of their own
    return {(p, c.name) for p, c in harvest.checks() if p not in (
        "P08", "P21")}


def run_others(case):
    files, main, cfg = harvest.source(case["h"])
    cfg = dict(cfg, **case["cfg"])
    if case.get("ms") and isinstance(files[main], str):
        # any other program that is accepted has to be well-formed too
        files = dict(files)
        files[main] = mutate(files[main], case["ms"])
    out, b = attempt(files, main, cfg)
    if out != "ok":
        raise Skip
    src = "\n".join(t if isinstance(t, str) else t.decode("utf-8", "replace")
                    for t in files.values())
    # objectives named by the program are its own affair; the main file is
    # not written when no command is left in it
    x = static.lint(b, cfg.get("debug_comments"), src=src, spaces=False,
                    extra_objs=Foreign(cfg), entry=False)
    return info(x, case["h"]["prop"])


def g_soup(d):
    return {"src": soup.tprogram(d), "cfg": g_cfg(d)}


CHECKS = [
    Check("programs", g_lang, run_lang, 4000, 90000),
    Check("features", g_snips, run_src, 3000, 50000),
    Check("others", g_others, run_others, 4500, 90000),
    Check("soup", g_soup, run_soup, 5000, 120000),
]
