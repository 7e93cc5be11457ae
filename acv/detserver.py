"""Compiles programs sent as JSON lines; used to compare processes."""
import json
import os
import subprocess
import sys
import atexit


def serve():
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    from acv.build import compile_sources, Rejected, Hang, scratch_base
    out = sys.stdout
    noise = []
    k = 0
    for line in sys.stdin:
        req = json.loads(line)
        k += 1
        # shift later allocations
        noise.append([object() for _ in range((k * 37) % 211)])
        if len(noise) > 20:
            del noise[:7]
        for pre in req["pre"]:
            try:
                compile_sources(pre)
            except (Rejected, Hang):
                pass
            except Exception:
                pass
        try:
            src = req["src"]
            if req["reverse"]:
                src = dict(reversed(list(src.items())))
            b = compile_sources(src, **{
                k: tuple(v) if isinstance(v, list) else v
                for k, v in req["cfg"].items()})
            res = {"ok": True, "others": b.others, "files": {
                k: v.replace(scratch_base(), "<dir>")
                for k, v in b.files.items()}}
        except Rejected as e:
            res = {"ok": False, "text": e.text.replace(
                scratch_base(), "<dir>")}
        except Hang:
            res = {"ok": False, "text": "hang"}
        except Exception as e:
            res = {"ok": False, "text": "internal error %s"
                   % type(e).__name__}
        out.write(json.dumps(res) + "\n")
        out.flush()


_servers = {}


def ask(hashseed, req):
    """Compile in another process (one per hash seed, kept alive)."""
    key = (os.getpid(), hashseed)
    p = _servers.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
                   PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.Popen(
            [sys.executable, "-B", os.path.abspath(__file__)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env,
            text=True)
        _servers[key] = p
        atexit.register(stop, key)
    p.stdin.write(json.dumps(req) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


def stop(key):
    p = _servers.pop(key, None)
    if p is not None and key[0] == os.getpid():
        p.stdin.close()
        try:
            p.wait(5)
        except subprocess.TimeoutExpired:
            p.kill()


if __name__ == "__main__":
    serve()
