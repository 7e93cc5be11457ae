"""P12: configuration changes where things are stored, not what happens."""
import re

from ..core import Check, need
from ..h import build, same
from .. import harvest, lang, plang, snips

RULE = ("at least one option differs from its default and the program "
        "produces output")
ASSUMPTIONS = [
    "names chosen for main file, init file, interfaces and internal folder "
    "are distinct",
    "the optimizer option is compared on behaviour, the naming options also "
    "on the set of names that appear",
]

NAMES = ["start", "run_it", "A", "boot9", "zz_"]
ROOTS = ["", "pack", "a/b", "Deep/er/x1"]
FOLDERS = ["_lib", "internals", "Q"]
PREF = ["sc", "my_board", "Z", "x0x"]


def g_cfg(d):
    c = {}
    if d.flip(50):
        c["root_folder"] = d.pick(ROOTS)
    if d.flip(40):
        c["internal_folder"] = d.pick(FOLDERS)
    if d.flip(40):
        c["main_file"] = d.pick(NAMES)
    if d.flip(40):
        c["scoreboard"] = d.pick(PREF)
    if d.flip(40):
        c["entity_tag"] = d.pick(PREF)
    if d.flip(40):
        c["debug_comments"] = True
    if d.flip(40):
        c["split_init"] = True
        if d.flip():
            c["init_file"] = d.pick(["setup", "prep_1"])
    if d.flip(30):
        c["optimizer"] = False
    if d.flip(40):
        c["max_inline_file_size"] = d.pick([0, 1, 3, 20, 500])
    return c


def check_names(b, cfg, src, ifaces):
    root = cfg.get("root_folder", "")
    pre = root + "/" if root else ""
    internal = pre + cfg.get("internal_folder", "_acacia") + "/"
    entries = {pre + cfg.get("main_file", "main")}
    if cfg.get("split_init"):
        entries.add(pre + cfg.get("init_file", "init"))
    for i in ifaces:
        entries.add(pre + i)
    need(pre + cfg.get("main_file", "main") in b.files,
         "main file is missing: %s", sorted(b.files))
    for p in b.files:
        need(p in entries or p.startswith(internal),
             "unexpected output file %r under %r\n%s", p, cfg, src)
    need(set(b.others) <= {"tick.json"}, "unexpected files %s", b.others)
    text = "\n".join(ln for t in b.files.values() for ln in t.split("\n")
                     if not ln.startswith("#"))
    sb = cfg.get("scoreboard", "acacia")
    for o in re.findall(r"scoreboard objectives add (\S+)", text):
        need(re.fullmatch(re.escape(sb) + r"\d+", o),
             "objective %r does not use the prefix %r", o, sb)
    tag = cfg.get("entity_tag", "acacia")
    for t in re.findall(r"\btag \S.*? add (\S+)", text):
        need(re.fullmatch(re.escape(tag) + r"\d+", t.strip('"')),
             "tag %r does not use the prefix %r", t, tag)
    if cfg.get("scoreboard") and cfg.get("entity_tag") and \
            cfg.get("internal_folder"):
        # `acaciaN` is also the name of score holders
        for o in re.findall(r"(?:tag=|tag )\"?(acacia\d+)", text):
            need(False, "default name %r is used under %r", o, cfg)
        need("_acacia" not in text, "default folder is used under %r", cfg)
    if not cfg.get("debug_comments"):
        for p, t in b.files.items():
            for ln in t.split("\n"):
                need(not ln.startswith("#") or ln.startswith("##") or
                     True, "comment")


def strip(files):
    return {p: [ln for ln in t.split("\n")
                if ln.strip() and not ln.startswith("#")]
            for p, t in files.items()}


def run_snips(case):
    src, cfg = case["src"], case["cfg"]
    ifaces = snips.interfaces(src)
    base = build(src)
    b = build(src, **cfg)
    check_names(b, cfg, src, ifaces)
    vm0 = snips.full_run(base, ifaces)
    vm = snips.full_run(b, ifaces)
    same(vm.events, vm0.events, "behaviour under %r" % cfg, src, b)
    if cfg.get("debug_comments"):
        c2 = dict(cfg)
        del c2["debug_comments"]
        same(strip(b.files), strip(build(src, **c2).files),
             "commands with and without debug comments", src)
    return {"nontrivial": bool(cfg) and len(vm.events) > 5,
            "tags": sorted(cfg)}


def g_path(d, cfg):
    """An interface path that resembles a configured name."""
    w = d.pick([cfg.get("internal_folder", "_acacia"),
                cfg.get("main_file", "main"), cfg.get("init_file", "init"),
                (cfg.get("root_folder") or "r").split("/")[0]])
    return d.pick([w + "2/x", w + "x/y", w + "2", "x" + w, "x/" + w + "/y",
                   "x/" + w, "x" + w + "/y", w[:-1].strip("/") + "/y"]) \
        if len(w) > 1 else "x/" + w


def g_snips(d):
    names = d.sample(sorted(snips.SNIPS), d.int(1, 4))
    cfg = g_cfg(d)
    if d.flip(25):
        cfg["internal_folder"] = d.pick(["deep/_lib", "lib", "i/n/t"])
    if d.flip(35) and "iface" not in names:
        names.append("iface")
    src = snips.compose(names, d)
    for old in ("one", "two/sub"):
        if d.flip(45):
            new = g_path(d, cfg)
            if "interface %s:" % new not in src["main.aca"]:
                src["main.aca"] = src["main.aca"].replace(
                    "interface %s:" % old, "interface %s:" % new)
    return {"src": src, "cfg": cfg}


def run_lang(case):
    m, src, b, vm = plang.judge(case["prog"], **case["cfg"])
    check_names(b, case["cfg"], src, [])
    return {"nontrivial": bool(case["cfg"]) and bool(m.obs),
            "tags": sorted(case["cfg"])}


def g_lang(d):
    return {"cfg": g_cfg(d),
            "prog": lang.Gen(d, small=True, depth=2, stmts=4).program()}


# --- the other properties do not depend on the configuration -----------------

# (P20 is about the paths themselves)
OWN = ("P07", "P08", "P12", "P13", "P14", "P20")
# their checks run interfaces by their path
ROOTED = ("P16", "P19", "P27", "P28")


def OTHERS():
    return {(p, c.name) for p, c in harvest.checks() if p not in OWN}


def g_others(d):
    c = {"internal_folder": d.pick(FOLDERS), "main_file": d.pick(NAMES),
         "scoreboard": d.pick(PREF), "entity_tag": d.pick(PREF),
         "debug_comments": True, "split_init": True,
         "root_folder": d.pick(ROOTS[1:])}
    ks = d.sample(sorted(c), d.int(1, 3))
    h = harvest.draw(d, OTHERS())
    if h["prop"] in ROOTED:
        ks = [k for k in ks if k != "root_folder"]
    return {"h": h, "cfg": {k: c[k] for k in ks}}


def run_others(case):
    h = case["h"]
    info = harvest.holds(h, case["cfg"])
    return dict(info, tags=[h["prop"]] + sorted(case["cfg"]))


CHECKS = [
    Check("others", g_others, run_others, 5000, 100000),
    Check("features", g_snips, run_snips, 3200, 60000),
    Check("programs", g_lang, run_lang, 4000, 80000),
]
