"""P11: the command line keeps its promises about files and exit codes."""
import contextlib
import io
import os
import shutil
import sys

from ..build import scratch_base, compile_sources, write_sources, _emptied, \
    _cpu_limit
from ..core import Check, Violation, need
from ..guard import contained
from ..h import _short
from .. import soup, snips
from .p10 import MOD

from acaciamc import cli

RULE = "the output directory held files before, or the run failed"
ASSUMPTIONS = [
    "the tool is run with permission to write its output",
    "an audit hook stops writes outside of the scratch directory before they "
    "happen, and the run is then reported",
]

OLD = {
    "main.mcfunction": "old main\n", "stale.mcfunction": "old stale\n",
    "_acacia/acalib1.mcfunction": "old lib\n", "notes.txt": "mine\n",
    "pack/keep.mcfunction": "k\n", "pack/_acacia/tick.mcfunction": "t\n",
    "pack/sub/other.txt": "o\n", "a/b/main.mcfunction": "ab\n",
    "a/c.mcfunction": "ac\n", "tick.json": '{"values": ["old/tick"]}',
    "init.mcfunction": "old init\n",
}


def snapshot(d):
    res = {}
    for root, dirs, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                res[os.path.relpath(p, d)] = f.read()
    return res


# option -> (argv, config keyword, value)
GOOD = [
    (["-s", "board"], {"scoreboard": "board"}),
    (["-f", "pack"], {"root_folder": "pack"}),
    (["-f", "/a//b/"], {"root_folder": "a/b"}),
    (["-m", "start"], {"main_file": "start"}),
    (["-t", "tagg"], {"entity_tag": "tagg"}),
    (["-d"], {"debug_comments": True}),
    (["-O"], {"optimizer": False}),
    (["-i"], {"split_init": True}),
    (["-i", "prep"], {"split_init": True, "init_file": "prep"}),
    (["--internal-folder", "intern"], {"internal_folder": "intern"}),
    (["--max-inline-file-size", "0"], {"max_inline_file_size": 0}),
    (["--max-inline-file-size", "7"], {"max_inline_file_size": 7}),
    (["-v", "1.19.50"], {"mc_version": (1, 19, 50)}),
    (["-v", "1.20.70.1"], {"mc_version": (1, 20, 70, 1)}),
    (["-e"], {"education_edition": True}),
    (["--encoding", "utf-16"], {"encoding": "utf-16"}),
    (["--verbose"], {}),
]
BAD = [
    ["-s", "1x"], ["-s", "a b"], ["-f", "a/../b"], ["-f", "../x"],
    ["-f", "a/1"], ["-m", "x.y"], ["-m", "a/b"], ["-m", "../m"],
    ["-v", "1"], ["-v", "1.19.49"], ["-v", "x.y"], ["-v", "1.-20.5"],
    ["-v", "0.99"], ["--max-inline-file-size", "-1"],
    ["--max-inline-file-size", "x"], ["-i", "bad name"], ["-i", "../up"],
    ["--internal-folder", "../q"], ["--internal-folder", "a/b"],
    ["--internal-folder", ".."], ["--encoding", "no-such-codec"],
    ["-i", "main"], ["--nonsense"], ["-o"],
]
BROKEN = ["x := \n", "x := y\n", "/say a\\ud800b\n", "import nothere\n",
          "x: int = True\n", "def f(:\n", "interface ../../../esc:\n    x := 1\n",
          "interface main:\n    /say 1\n", "\x00", "x := 1 +* 2\n"]


def g(d):
    if d.flip(30):
        src = {"main.aca": d.pick(BROKEN)}
    elif d.flip():
        src = snips.compose(d.sample(sorted(snips.SNIPS), d.int(1, 2)), d)
    else:
        src = {"main.aca": soup.tprogram(d), "mod.aca": MOD}
    opts = []
    used = set()
    for i in d.sample(range(len(GOOD)), d.int(0, 3)):
        if GOOD[i][0][0] not in used:
            used.add(GOOD[i][0][0])
            opts.append(i)
    bad = d.pick(BAD) if d.flip(20) else None
    return {"src": src, "opts": opts, "bad": bad, "u": d.flip(50),
            "out": d.pick(["explicit", "default", "missing_parent", "new",
                           "explicit", "default"]),
            "old": d.flip(75), "nofile": d.pick(
                ["", "", "", "", "", "", "", "", "absent", "dir"])}


def run(case):
    base = _emptied("cli")
    work = os.path.join(base, "work")
    os.makedirs(work)
    cfg = {"encoding": "utf-8"}
    argv = []
    for i in case["opts"]:
        argv += GOOD[i][0]
        cfg.update(GOOD[i][1])
    if case["bad"]:
        argv += case["bad"]
    # reference: what the library produces
    srcs = {n: t.encode(cfg["encoding"], "replace")
            for n, t in case["src"].items()}
    try:
        ref = compile_sources(srcs, **cfg)
        expect = dict(("%s.mcfunction" % k, v) for k, v in ref.files.items())
        expect.update(ref.others)
    except Exception:
        expect = None
    write_sources(work, srcs)
    if case["nofile"] == "dir":
        os.makedirs(os.path.join(work, "dir"))
    out = os.path.join(work, {
        "explicit": "target", "default": "main.acaout", "new": "fresh",
        "missing_parent": "no/such"}[case["out"]])
    if case["out"] != "default":
        argv += ["-o", out]
    if case["u"]:
        argv += ["-u"]
    if case["old"] and case["out"] in ("explicit", "default"):
        write_sources(out, OLD)
    main = {"": "main.aca", "absent": "nope.aca",
            "dir": "dir"}[case["nofile"]]
    argv = [os.path.join(work, main)] + argv
    before = snapshot(work)
    err = io.StringIO()
    code = 0
    oldcwd = os.getcwd()
    os.chdir(work)
    try:
        with contextlib.redirect_stderr(err), \
                contextlib.redirect_stdout(io.StringIO()), \
                contained(base) as hits, _cpu_limit(40):
            try:
                args = cli.build_argparser().parse_args(argv)
                cli.run(args)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else \
                    (0 if e.code is None else 1)
    finally:
        os.chdir(oldcwd)
    what = "acacia %s\n%s\n%s" % (
        " ".join(argv), _short(case["src"]), err.getvalue()[:500])
    need(not hits, "file system effect outside of the output: %s\n%s",
         hits, what)
    after = snapshot(work)
    rel = os.path.relpath(out, work)
    should_fail = (case["bad"] is not None or case["nofile"] or
                   case["out"] == "missing_parent" or expect is None)
    if case["bad"] == ["-i", "main"] and not case["nofile"]:
        # not a collision if another main name was chosen
        should_fail = should_fail if "main_file" not in cfg else None
    if should_fail is None:
        return {"nontrivial": False}
    if should_fail:
        need(code != 0, "a failing run reports success\n%s", what)
        need(err.getvalue().strip() != "", "no message on failure\n%s", what)
        need("Traceback" not in err.getvalue() or "--verbose" in argv,
             "traceback instead of an error message\n%s", what)
        need(after == before, "a failed run changed files: %s\n%s", sorted(
            k for k in set(before) | set(after)
            if before.get(k) != after.get(k)), what)
        return {"nontrivial": True, "tags": ["failed"]}
    need(code == 0, "a valid run failed (exit %s)\n%s", code, what)
    want = dict(before)
    root = cfg.get("root_folder", "")
    if case["u"]:
        pre = os.path.join(rel, root) + "/" if root else rel + "/"
        for k in list(want):
            if k.startswith(pre):
                del want[k]
    enc = cfg["encoding"]
    tmp = os.path.realpath(scratch_base())
    for k, v in expect.items():
        want[os.path.join(rel, k)] = v.encode(enc).replace(
            os.path.join(tmp, "src").encode(enc), b"<src>")
    for k, v in after.items():
        if k.startswith(rel + "/"):
            after[k] = v.replace(work.encode(enc), b"<src>")
    if enc == "utf-16" and "debug_comments" in cfg:
        # paths in comments can not be masked bytewise
        want = {k: None for k in want}
        after = {k: None for k in after}
    need(after == want, "wrong files after a successful run: %s\n%s",
         sorted(k for k in set(want) | set(after)
                if want.get(k) != after.get(k))[:10], what)
    return {"nontrivial": case["old"] and case["out"] in
            ("explicit", "default"),
            "tags": ["ok", "u" if case["u"] else "keep"]}


CHECKS = [Check("runs", g, run, 6000, 120000)]
