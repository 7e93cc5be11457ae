"""Compile Acacia sources with the code under test (imported from /repo)."""
import json
import os
import shutil
import signal
import sys
import tempfile

REPO = os.environ.get("ACV_REPO", "/repo")
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings("ignore", category=SyntaxWarning)
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import acaciamc  # noqa: E402
if os.path.realpath(os.path.dirname(os.path.dirname(acaciamc.__file__))) \
        != os.path.realpath(REPO):
    raise RuntimeError("acaciamc imported from %s, not from %s"
                       % (acaciamc.__file__, REPO))
from acaciamc.compiler import Compiler, Config  # noqa: E402
from .guard import contained  # noqa: E402
from acaciamc.error import Error as AcaciaError  # noqa: E402

sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))

_BASE = None
CPU_LIMIT = 40


def scratch_base():
    """One private scratch directory per process."""
    global _BASE
    if _BASE is None or _BASE[0] != os.getpid():
        root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = tempfile.mkdtemp(prefix="acv-", dir=root)
        import atexit
        pid = os.getpid()

        def _clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_clean)
        _BASE = (os.getpid(), d)
    return _BASE[1]


def cleanup_scratch():
    global _BASE
    if _BASE is not None and _BASE[0] == os.getpid():
        shutil.rmtree(_BASE[1], ignore_errors=True)
        _BASE = None


class Rejected(Exception):
    """The compiler refused the program with a located Acacia error."""

    def __init__(self, err):
        self.err = err
        try:
            self.text = err.full_msg()
        except Exception as e:  # message building is part of the product
            raise
        self.kind = err.type.name
        super().__init__(self.text)


class Hang(BaseException):
    """The compiler used more CPU time than any small program needs."""


class _cpu_limit:
    """CPU-time guard (not wall-clock) around the code under test."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def h(*_):
            raise Hang("more than %d s of CPU time" % self.seconds)
        self.old = signal.signal(signal.SIGVTALRM, h)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


class Built:
    """Result of a successful compilation: the files that were written.

    files: {path without .mcfunction: text}"""

    def __init__(self, compiler, cfg, outdir):
        self.compiler = compiler
        self.cfg = cfg
        compiler.output(outdir)
        self.files = {}
        self.others = {}
        for root, _, names in os.walk(outdir):
            for n in names:
                p = os.path.join(root, n)
                rel = os.path.relpath(p, outdir)
                with open(p, encoding=cfg.encoding, newline="") as f:
                    t = f.read()
                if rel.endswith(".mcfunction"):
                    self.files[rel[:-11]] = t
                else:
                    self.others[rel] = t
        root = cfg.root_folder + "/" if cfg.root_folder else ""
        self.main = root + cfg.main_file
        self.init = root + cfg.init_file if cfg.split_init else None
        self.tick = None
        if "tick.json" in self.others:
            v = json.loads(self.others["tick.json"])["values"]
            assert len(v) == 1
            self.tick = v[0]

    def text(self):
        return "\n".join("== %s\n%s" % (k, self.files[k])
                         for k in sorted(self.files))


def _emptied(name):
    d = os.path.join(scratch_base(), name)
    if os.path.isdir(d):
        for name in os.listdir(d):
            p = os.path.join(d, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
    else:
        os.makedirs(d)
    return d


def write_sources(d, sources):
    for name, text in sources.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        mode = "wb" if isinstance(text, bytes) else "w"
        if mode == "wb":
            with open(p, "wb") as f:
                f.write(text)
        else:
            with open(p, "w", encoding="utf-8", newline="") as f:
                f.write(text)


def compile_sources(sources, main="main.aca", **cfg):
    """sources: {relative path: text}.  Returns Built, raises Rejected, or
    lets any other exception (an internal crash) through."""
    if isinstance(sources, (str, bytes)):
        sources = {main: sources}
    d = _emptied("src")
    write_sources(d, sources)
    cfg.setdefault("encoding", "utf-8")
    conf = Config(**cfg)
    with _cpu_limit(CPU_LIMIT), contained(scratch_base()):
        try:
            c = Compiler(os.path.join(d, main), conf)
            return Built(c, conf, _emptied("out"))
        except AcaciaError as err:
            raise Rejected(err) from None
