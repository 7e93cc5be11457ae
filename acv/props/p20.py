"""P20: interfaces are exported where they say and run what they say."""
from ..core import Check, Skip, need
from ..h import build, execute, same, try_build

from .. import lang, plang
from .p03 import G as FlowGen

RULE = ("an interface that reads or changes state is invoked after the "
        "program was started; or a path is judged")
ASSUMPTIONS = [
    "the program is started before its interfaces are used",
    "an interface without any effect needs no file",
]

CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-()"
CFGS = [{}, {}, {"root_folder": "pk"}, {"root_folder": "a/b"},
        {"internal_folder": "lib"}, {"main_file": "start"},
        {"split_init": True}, {"split_init": True, "init_file": "prep"},
        {"internal_folder": "acalib1", "main_file": "tick"}]
MORE = [{}, {"optimizer": False}, {"max_inline_file_size": 0},
        {"debug_comments": True}, {"optimizer": False,
                                   "debug_comments": True}]


def full(cfg):
    return dict({"root_folder": "", "internal_folder": "_acacia",
                 "main_file": "main", "split_init": False,
                 "init_file": "init"}, **cfg)


def reserved(path, cfg):
    c = full(cfg)
    names = [c["main_file"], c["internal_folder"]]
    if c["split_init"]:
        names.append(c["init_file"])
    p = path.lower()
    return any(p == n.lower() or p.startswith(n.lower() + "/")
               for n in names)


def legal(path, cfg):
    if not path or any(ch not in CHARS + "/" for ch in path):
        return False
    parts = path.split("/")
    return not any(x in ("", ".", "..") for x in parts) and \
        not reserved(path, cfg)


def write(d, path):
    """the path as it stands in the source"""
    k = d.int(0, 9)
    plain = all(ch in CHARS + "/" and ch not in "()" for ch in path) and path
    if plain and k < 6:
        return d.pick(["", "", " "]) + path if path[0] != "#" else path
    if k < 8 or not path:
        out = ""
        for ch in path:
            if ch in '"\\$\n':
                out += {'"': '\\"', "\\": "\\\\", "$": "$",
                        "\n": "\\n"}[ch]
            elif d.flip(4) and ord(ch) < 256:
                out += "\\x%02x" % ord(ch)
            else:
                out += ch
        return '"' + out.replace("${", "\\u0024{") + '"'
    i = d.int(0, len(path))
    j = d.int(i, len(path))
    mid = path[i:j]
    if any(ch in '"\\$\n{}' for ch in path):
        return '"' + "".join("\\u%04x" % ord(c) if ord(c) < 0x10000 else
                             "\\U%08x" % ord(c) for c in path) + '"'
    return '"%s${"%s"}%s"' % (path[:i], mid, path[j:])


def names(d, cfg):
    c = full(cfg)
    seg = lambda: d.wpick(
        (8, d.text(CHARS, 1, 6)),
        (3, d.pick(["a", "b", "A", "x1", "tick", "load", "...", "..a", "a.",
                    ".b", "-", "(x)", "acalib1", "0"])),
        (2, d.pick([c["main_file"], c["internal_folder"], c["init_file"],
                    "main", "init", "_acacia"])))
    k = [seg() for _ in range(d.wpick((5, 1), (4, 2), (1, 3)))]
    p = "/".join(k)
    if d.flip(25):
        p = d.pick([p.upper(), p.capitalize(), p.swapcase()])
    return p


class G(FlowGen):
    def __init__(self, d, cfg, **w):
        super().__init__(d, **w)
        self.cfg = cfg
        self.ifaces = []
        self.inside = False
        self.taken = set()

    def path(self):
        for _ in range(20):
            p = names(self.d, self.cfg)
            if p not in self.taken and p.lower() not in self.taken and \
                    legal(p, self.cfg) and not any(
                        set(x) == {"."} for x in p.split("/")):
                self.taken.add(p.lower())
                return p
        raise Skip("no path")

    def gen_stmt(self, out, nest, effects=True):
        d = self.d
        if not self.inside and self.in_fun is None and effects and \
                len(self.ifaces) < 5 and d.flip(22):
            return self.iface(out)
        return super().gen_stmt(out, nest, effects)

    def iface(self, out):
        d = self.d
        p = self.path()
        self.inside = True
        self.w["forlist"] = True
        depth, self.loop_depth = self.loop_depth, 0
        self.scopes.append({})
        body = []
        for _ in range(d.int(1, 4)):
            self.gen_stmt(body, 2)
        self.gen_obs(body)
        self.scopes.pop()
        self.loop_depth = depth
        self.w["forlist"] = False
        self.inside = False
        out.append(["iface", write(d, p), body])
        self.ifaces.append(p)

    def program(self):
        # gather the module-level code first, interfaces come in between
        res = super().program()
        if not self.ifaces:
            self.scopes.append({})
            self.iface(res["body"])
            self.scopes.pop()
        return res


def g_run(d):
    cfg = dict(d.pick(CFGS), **d.pick(MORE))
    g = G(d, cfg, div=d.flip(30), small=d.flip(60), depth=d.int(1, 3),
          nest=d.int(1, 3), structs=d.flip(40), stmts=8, forlist=False,
          nfun=3)
    prog = g.program()
    n = len(g.ifaces)
    hist = [d.wpick((6, d.int(0, n - 1)), (1, "main"))
            for _ in range(d.int(1, 7))]
    return {"prog": prog, "paths": g.ifaces, "cfg": cfg, "hist": hist,
            "mod": d.flip(25)}


def find(prog):
    out = []

    def walk(b):
        for s in b:
            if s[0] == "iface":
                out.append(s)
            elif s[0] == "if":
                for _, x in s[1]:
                    walk(x)
                walk(s[2] or [])
            elif s[0] == "while":
                walk(s[2])
    walk(prog["body"])
    return out


def run(case):
    prog, cfg = case["prog"], case["cfg"]
    src = lang.render(prog)
    files = {"main.aca": src}
    if case["mod"]:
        files = {"main.aca": "import prog\n", "prog.aca": src}
    c = full(cfg)
    pre = c["root_folder"] + "/" if c["root_folder"] else ""
    b = build(files, **cfg)
    its = find(prog)
    if len(its) != len(case["paths"]):
        raise Skip("paths of other interfaces")
    vm = execute(b, lang.setup_vm, files, undef_ok=True)
    m = lang.Model(prog)
    res = {}
    try:
        m.run()
        for k in case["hist"]:
            same(lang.observed(vm), m.obs, "observed values", files, b)
            if k == "main":
                if case["mod"]:
                    # the flags of loaded modules are reset at a start
                    pass
                execute(b, None, files, vm=vm, undef_ok=True, init=False)
                m.block(prog["body"], m.globals)
            else:
                f = pre + case["paths"][k]
                need(f in b.files, "no file %r for the interface\n%s\n%s",
                     f, files, sorted(b.files))
                execute(b, None, files, vm=vm, path=f, undef_ok=True)
                m.block(its[k][2], {"^": m.globals})
    except lang.ModelError as e:
        raise Skip(str(e))
    except KeyError as e:
        raise Skip("the declaration of %s was not executed" % e)
    same(lang.observed(vm), m.obs, "observed values", files, b)
    # nothing else is exported
    have = {f for f in b.files}
    want = {pre + p for p in case["paths"]}
    inner = (pre + c["internal_folder"] + "/").lower()
    extra = {f for f in have - want if not f.lower().startswith(inner)} - {
        pre + c["main_file"]} - (
        {pre + c["init_file"]} if c["split_init"] else set())
    need(not extra, "files nobody asked for: %s\n%s", sorted(extra), files)
    return {"nontrivial": any(k != "main" for k in case["hist"]),
            "tags": ["n%d" % len(its)] + sorted(cfg)}


# --- paths -------------------------------------------------------------------

BADP = ["", "/a", "a/", "a//b", ".", "..", "a/..", "../a", "./a", "a/./b",
        "a b", "a\\b", "a:b", "a*b", "é", "a\nb", "a\"b", "a,b", "a$b",
        "a/b/", "//", "/", "a/../../b", " a", "a ", "\u4e2d", "\U0001f600",
        "a\tb", "a#b", "a+b", "a[b]", "~a", "@a"]


def g_paths(d):
    cfg = d.pick(CFGS)
    ps, n = [], d.int(1, 4)
    for _ in range(n):
        k = d.wpick((6, "name"), (2, "bad"), (2, "again"), (2, "res"))
        if k == "name":
            p = names(d, cfg)
        elif k == "bad":
            p = d.pick(BADP)
        elif k == "again" and ps:
            p = d.pick(ps)[0]
            p = d.pick([p, p.upper(), p.lower(), p.swapcase(), p + "/x",
                        p + "x", "x/" + p])
        else:
            c = full(cfg)
            p = d.pick([c["main_file"], c["internal_folder"],
                        c["init_file"]])
            p = d.pick([p, p.upper(), p.capitalize(), p + "/x", p + "x",
                        "x/" + p, p + ".x", p + "/acalib1", p + "/tick"])
        ps.append([p, write(d, p), d.pick(["", "", "if", "def", "while",
                                           "method"])])
    return {"cfg": cfg, "paths": ps}


def run_paths(case):
    cfg = case["cfg"]
    lines = ["x := 1"]
    bad, seen, at = None, {}, {}
    for i, (p, text, ctx) in enumerate(case["paths"]):
        body = ["    /say i%d" % i]
        pad = ""
        if ctx:
            lines.append({"if": "if x > 0:", "while": "while x > 9:",
                          "def": "def f%d():" % i,
                          "method": "entity E%d:" % i}[ctx])
            pad = "    "
            if ctx == "method":
                lines.append("    def m():")
                pad += "    "
        # an unquoted path ends where the next character is not allowed
        lines.append(pad + "interface " + text + ":")
        if bad is None:
            if not legal(p, cfg):
                bad = (len(lines), "rule")
            elif p.lower() in seen:
                bad = (len(lines), "dup", seen[p.lower()])
        seen.setdefault(p.lower(), len(lines))
        at[p] = i
        lines += [pad + x for x in body]
    src = "\n".join(lines) + "\n"
    if bad is None:
        b = build(src, **cfg)
        pre = full(cfg)["root_folder"]
        pre = pre + "/" if pre else ""
        for p, i in at.items():
            need(pre + p in b.files, "no file for %r\n%s\n%s", p, src,
                 sorted(b.files))
            vm = execute(b, None, src)
            n = len(vm.events)
            execute(b, None, src, vm=vm, path=pre + p)
            same([e[1] for e in vm.events[n:]], ["say i%d" % i],
                 "output of the interface %r" % p, src, b)
        return {"nontrivial": True, "tags": ["accepted"]}
    out, r = try_build(src, **cfg)
    need(out == "rejected", "accepted although the path in line %d is not "
         "possible\n%s", bad[0], src)
    t = r.text.strip().split("\n")
    need(":%d:" % bad[0] in t[-1], "line %d is refused with %s\n%s", bad[0],
         r.text, src)
    need(bad[1] != "dup" or any(":%d:" % bad[2] in x for x in t[:-1]),
         "the first definition (line %s) is not named: %s\n%s", bad[2:],
         r.text, src)
    return {"nontrivial": True, "tags": [bad[1]]}


CHECKS = [
    Check("programs", g_run, run, 5000, 100000),
    Check("paths", g_paths, run_paths, 4000, 80000),
]
