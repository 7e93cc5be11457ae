"""P09: the output is a function of sources and configuration alone."""
from ..build import compile_sources, Rejected, scratch_base
from ..core import Check, Skip, Violation
from ..detserver import ask
from ..h import _short
from .. import harvest, lang, snips, soup
from .p10 import MOD
from .p12 import g_cfg

RULE = ("the program is accepted, or refused after parsing with a message "
        "naming at least one position; compiled by three processes")
ASSUMPTIONS = [
    "processes differ in hash seed, memory layout, working directory of the "
    "sources, creation order of files and programs compiled before",
    "error messages are compared too, and debug comments, with the source directory masked",
]


def run(case):
    src, cfg = case["src"], case["cfg"]
    if isinstance(src, str):
        src = {"main.aca": src, "mod.aca": MOD}
    return compare(case, src, cfg)


def compare(case, src, cfg):
    try:
        b = compile_sources(src, **cfg)
        mine = {"ok": True, "others": b.others, "files": {
            k: v.replace(scratch_base(), "<dir>")
            for k, v in b.files.items()}}
    except Rejected as e:
        mine = {"ok": False, "text": e.text.replace(scratch_base(), "<dir>")}
    for seed, pre, rev in ((case["h1"], [], True),
                           (case["h2"], case["pre"], False)):
        r = ask(seed, {"src": src, "cfg": cfg, "pre": pre, "reverse": rev})
        if r != mine:
            if r["ok"] and mine["ok"]:
                diff = [p for p in sorted(set(r["files"]) |
                                          set(mine["files"]))
                        if r["files"].get(p) != mine["files"].get(p)]
                p = diff[0] if diff else "tick.json"
                raise Violation(
                    "two processes write different files: %s\n%s\n--- one\n"
                    "%s\n--- other\n%s" % (
                        diff, _short(src), mine["files"].get(p),
                        r["files"].get(p)))
            raise Violation("two processes disagree:\n%s\n%s\n%s" % (
                str(mine)[:800], str(r)[:800], _short(src)))
    return {"nontrivial": mine["ok"] or ":" in mine.get("text", ""),
            "tags": ["ok" if mine["ok"] else "rejected"]}


def case(d, src):
    pre = []
    if d.flip(40):
        pre.append(soup.tprogram(d))
    if d.flip(20):
        pre.append(snips.compose(d.sample(sorted(snips.SNIPS), 2), d))
    return {"src": src, "cfg": g_cfg(d) if d.flip(40) else {},
            "h1": d.int(1, 3), "h2": d.int(4, 6), "pre": pre}


def g_snips(d):
    return case(d, snips.compose(
        d.sample(sorted(snips.SNIPS), d.int(2, 6)), d))


def g_soup(d):
    return case(d, soup.tprogram(d))


def g_lang(d):
    return case(d, lang.render(lang.Gen(d, depth=2).program()))


def g_others(d):
    c = case(d, None)
    c["h"] = harvest.draw(d)
    if d.flip(30):
        # compile another program in the same process before
        c["before"] = harvest.draw(d)
    return c


def run_others(case):
    src, main, cfg = harvest.source(case["h"])
    if any(isinstance(t, bytes) for t in src.values()):
        raise Skip("raw bytes")
    cfg = {**case["cfg"], **cfg, "main": main}
    if "before" in case:
        f, m, _ = harvest.source(case["before"])
        if m == "main.aca" and not any(isinstance(t, bytes)
                                       for t in f.values()):
            case = dict(case, pre=[f] + case["pre"])
    r = compare(case, src, cfg)
    r["tags"].append(case["h"]["prop"])
    return r


CHECKS = [
    Check("others", g_others, run_others, 1800, 60000),
    Check("features", g_snips, run, 1200, 30000),
    Check("soup", g_soup, run, 2000, 50000),
    Check("programs", g_lang, run, 1300, 40000),
]
