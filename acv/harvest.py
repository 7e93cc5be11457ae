"""Sources of the programs that the other properties generate."""
import importlib
import sys

from .core import Skip, Violation

# property -> its checks whose first action is to compile a program
SKIP = {"P09", "P10", "P11", "P26", "P29"}
NAMES = ("build", "try_build", "compile_sources", "run_src")


class _Captured(BaseException):
    def __init__(self, src, main, cfg):
        self.src, self.main, self.cfg = src, main, cfg


def _capture(src, *args, **cfg):
    for k in ("setup", "undef_ok", "fuel"):
        cfg.pop(k, None)
    main = cfg.pop("main", "main.aca")
    if isinstance(src, (str, bytes)):
        src = {main: src}
    raise _Captured(dict(src), main, cfg)


_checks = None


def checks():
    """[(property, check)]"""
    global _checks
    if _checks is None:
        _checks = []
        for i in range(1, 100):
            p = "P%02d" % i
            if p in SKIP:
                continue
            try:
                m = importlib.import_module("acv.props." + p.lower())
            except ModuleNotFoundError:
                break
            # (not those that harvest programs themselves)
            _checks += [(p, c) for c in m.CHECKS
                        if c.name not in ("others", "everything")]
    return _checks


def find(prop, name):
    for p, c in checks():
        if p == prop and c.name == name:
            return c
    raise KeyError((prop, name))


def draw(d, only=None):
    """a case of another property, as JSON data"""
    cs = [(p, c) for p, c in checks()
          if only is None or (p, c.name) in only]
    p, c = d.pick(cs)
    return {"prop": p, "check": c.name, "case": c.strategy(d)}


def source(h):
    """(files, main, configuration) that the case compiles first"""
    c = find(h["prop"], h["check"])
    patched = []
    for name, m in list(sys.modules.items()):
        if not name.startswith("acv.") or m is None:
            continue
        for k in NAMES:
            if hasattr(m, k):
                patched.append((m, k, getattr(m, k)))
    try:
        for m, k, _ in patched:
            setattr(m, k, _capture)
        c.run(h["case"])
    except _Captured as e:
        return e.src, e.main, e.cfg
    except Skip:
        raise
    finally:
        for m, k, v in patched:
            setattr(m, k, v)
    raise Skip("no program")


def rerun(h, **extra):
    """The outcome of the check when every compilation has the additional
    configuration."""
    from . import h as mod
    real = mod.compile_sources

    def compile_sources(src, *args, **cfg):
        for k, v in extra.items():
            cfg.setdefault(k, v)
        return real(src, *args, **cfg)
    c = find(h["prop"], h["check"])
    mod.compile_sources = compile_sources
    try:
        return c.run(h["case"])
    except (Violation, Skip):
        raise
    except Exception as e:
        raise Violation("%s: %s" % (type(e).__name__, e)) from e
    finally:
        mod.compile_sources = real


def holds(h, cfg):
    """The check passes under cfg, or it does not without cfg either."""
    try:
        return rerun(h, **cfg)
    except Violation as e:
        try:
            rerun(h)
        except Violation:
            raise Skip("wrong with every setting")
        raise Violation("%s does not hold under %r: %s"
                        % (h["prop"], cfg, e)) from None
