"""Helpers shared by the property modules: judged compilation and execution."""
import traceback

from .build import compile_sources, Rejected, Built, Hang, AcaciaError
from .core import Violation, Skip, need, Check
from .mcvm import VM, Malformed, Fuel


def _short(src):
    if isinstance(src, dict):
        return "\n".join("== %s\n%s" % kv for kv in src.items())
    return src if isinstance(src, str) else repr(src)


def tb_tail(e):
    fr = traceback.extract_tb(e.__traceback__)
    return "%s: %s (%s)" % (
        type(e).__name__, str(e)[:300],
        " < ".join("%s:%s" % (f.filename.rsplit("/", 1)[-1], f.name)
                   for f in reversed(fr[-3:])))


def build(src, **cfg):
    """Compile a program that the language defines as valid."""
    try:
        return compile_sources(src, **cfg)
    except Rejected as e:
        raise Violation("valid program rejected: %s\n%s"
                        % (e.text, _short(src))) from None
    except Hang as e:
        raise Violation("compiler does not terminate (%s)\n%s"
                        % (e, _short(src))) from None
    except Exception as e:
        raise Violation("internal error on a valid program: %s\n%s"
                        % (tb_tail(e), _short(src))) from None


def try_build(src, **cfg):
    """Compile; returns ("ok", Built) or ("rejected", Rejected).  Internal
    errors are violations."""
    try:
        return "ok", compile_sources(src, **cfg)
    except Rejected as e:
        return "rejected", e
    except Hang as e:
        raise Violation("compiler does not terminate (%s)\n%s"
                        % (e, _short(src))) from None
    except Exception as e:
        raise Violation("internal error: %s\n%s"
                        % (tb_tail(e), _short(src))) from None


# How the world was used before a program is started in it (for P30):
# None or a function (build, vm, setup, start)
BEFORE = None


def execute(b, setup=None, src="", fuel=400000, vm=None, path=None, ctx=None,
            rng=None, undef_ok=False, init=True):
    """Run the main file of a build; malformed commands, missing functions
    and runaway execution are violations."""
    if vm is None:
        vm = VM(b.files, fuel=fuel, rng=rng)
        if BEFORE is not None:
            BEFORE(b, vm, setup, path is None and init)
        if setup:
            setup(vm)
    try:
        if path is None:
            if b.init and init:
                vm.run(b.init)
            # a main file in which nothing is left is not written (see DESIGN)
            if not (b.init and b.cfg.optimizer and b.main not in b.files):
                vm.run(b.main)
        else:
            vm.run(path, ctx)
    except Malformed as e:
        raise Violation("generated command can not be run: %s\n%s\n%s"
                        % (e, _short(src), b.text()[:4000])) from None
    except Fuel:
        raise Violation("generated program does not terminate\n%s\n%s"
                        % (_short(src), b.text()[:4000])) from None
    except RecursionError:
        raise Violation("generated program recurses without end\n%s\n%s"
                        % (_short(src), b.text()[:4000])) from None
    if vm.undef_reads and not undef_ok:
        raise Violation("generated program reads scores that were never "
                        "written: %s\n%s\n%s" % (
                            sorted(set(map(str, vm.undef_reads)))[:5],
                            _short(src), b.text()[:4000])) from None
    return vm


def run_src(src, setup=None, undef_ok=False, fuel=400000, **cfg):
    b = build(src, **cfg)
    return execute(b, setup, src, undef_ok=undef_ok, fuel=fuel)


def same(got, want, what, src, b=None):
    if got != want:
        raise Violation("%s: got %r, expected %r\n%s%s" % (
            what, got, want, _short(src),
            "\n" + b.text()[:6000] if b is not None else ""))
