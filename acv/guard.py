"""Keeps file-system effects of the code under test inside one directory.

An audit hook refuses (before it happens) every write, deletion, rename or
process start outside of the allowed directory while the guard is on."""
import os
import sys

_allowed = None
_hits = []
_installed = False

WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Escape(Exception):
    """The code under test tried to leave its directory."""


def _inside(path):
    if isinstance(path, int) or path is None:
        return True
    p = os.path.realpath(os.fsdecode(path))
    return p == _allowed or p.startswith(_allowed + os.sep) or \
        p == os.devnull


def _deny(what):
    _hits.append(what)
    raise Escape(what)


def _hook(event, args):
    if _allowed is None:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(flags, int) and flags & WRITE and not _inside(path):
            _deny("write to %r" % (path,))
    elif event in ("os.remove", "os.rmdir"):
        # calls relative to a directory descriptor come from rmtree, which
        # is judged by its own event
        if args[1] == -1 and not _inside(args[0]):
            _deny("%s of %r" % (event, args[0]))
    elif event == "os.mkdir":
        if args[2] == -1 and not _inside(args[0]):
            _deny("%s of %r" % (event, args[0]))
    elif event in ("shutil.rmtree", "os.truncate", "os.chmod", "os.chown"):
        if not _inside(args[0]):
            _deny("%s of %r" % (event, args[0]))
    elif event in ("os.rename", "os.link", "os.symlink", "shutil.move",
                   "shutil.copyfile", "shutil.copytree"):
        if not (_inside(args[0]) and _inside(args[1])):
            _deny("%s of %r, %r" % (event, args[0], args[1]))
    elif event in ("subprocess.Popen", "os.system", "os.exec", "os.kill",
                   "os.posix_spawn", "os.fork", "os.forkpty"):
        _deny(event)


class contained:
    """with contained(directory) as hits: ..."""

    def __init__(self, root):
        self.root = os.path.realpath(root)

    def __enter__(self):
        global _allowed, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        self.old = _allowed
        _allowed = self.root
        del _hits[:]
        return _hits

    def __exit__(self, *_):
        global _allowed
        _allowed = self.old
