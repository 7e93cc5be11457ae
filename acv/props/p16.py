"""P16: modules are found, run once per start, and shared."""
from ..core import Check, Skip, Violation, need
from ..h import build, execute, same, try_build

RULE = ("at least two modules are loaded and one of them is imported from "
        "two places; or an import that must be refused")
ASSUMPTIONS = [
    "module files are readable; the import graph of accepted programs has "
    "no cycle",
    "a module's variables are used only after the module was loaded",
]

DIRS = ["proj", "proj/pk", "proj/pk/sub", "lib", "lib/x", ""]
NAMES = ["m0", "m1", "util", "math", "world", "Mod_3", "print", "main"]


def metas(path):
    """ways to name the module (main file is proj/main.aca)"""
    d, _, n = path.rpartition("/")
    out = []
    parts = d.split("/") if d else []
    if parts[:1] == ["proj"]:
        tail = ".".join(parts[1:] + [n])
        out.append("." + tail)
        out.append("..proj." + tail)
        if len(parts) > 1 or n not in ("math", "world", "print"):
            out.append(tail)
    else:
        out.append(".." + ".".join(parts + [n]))
    return out


class G:
    def __init__(self, d):
        self.d = d
        self.mods = []      # path (no extension)
        n = d.int(1, 5)
        while len(self.mods) < n:
            p = d.pick(DIRS)
            nm = d.pick(NAMES)
            p = (p + "/" if p else "") + nm
            if p != "proj/main" and p not in self.mods:
                self.mods.append(p)
            elif len(self.mods) and d.flip(10):
                break
        # modules written in Python import nothing
        self.py = [d.flip(25) for _ in self.mods]
        self.bodies = []
        for i in range(len(self.mods)):
            if self.py[i]:
                self.bodies.append([])
                continue
            self.bodies.append(self.body(i, range(i)))
        self.main = self.body(len(self.mods), range(len(self.mods)),
                              d.int(4, 12))

    def bind(self, j, scope, out, lazy=False):
        """emit an import of module j; scope: bound name -> (what, module)"""
        d = self.d
        meta = d.pick(metas(self.mods[j]))
        k = d.int(0, 3)
        ctr = len(scope)
        last = self.mods[j].rpartition("/")[2]
        if k == 0:
            if last not in scope and not lazy and d.flip(50) and \
                    last != "print":
                scope[last] = ("mod", j)
                out.append(["import", "import " + meta, j])
            else:
                n = "a%d" % ctr
                scope[n] = ("mod", j)
                out.append(["import", "import %s as %s" % (meta, n), j])
            return
        exports = [("n", "n%d" % j), ("bump", "bump%d" % j),
                   ("get", "get%d" % j), ("K", "K%d" % j)]
        if k == 1:
            if any(n in scope for _, n in exports):
                return self.bind(j, scope, out, lazy)
            for w, n in exports:
                scope[n] = (w, j)
            scope["Show%d" % j] = ("x", j)
            for x in range(2):
                scope["lazy%d_%d" % (j, x)] = ("x", j)
            for x in range(6):
                scope["never%d_%d" % (j, x)] = ("x", j)
            out.append(["import", "from %s import *" % meta, j])
            return
        items = []
        for _ in range(d.int(1, 3)):
            w, n = d.pick(exports)
            al = "b%d" % len(scope)
            if n not in scope and d.flip(40):
                items.append(n)
                scope[n] = (w, j)
            else:
                items.append("%s as %s" % (n, al))
                scope[al] = (w, j)
        txt = ", ".join(items)
        if d.flip(30):
            txt = d.pick(["(%s)", "(%s,)", "(\n    %s\n)"]) % txt
        out.append(["import", "from %s import %s" % (meta, txt), j])

    def use(self, scope, out):
        d = self.d
        if not scope:
            return
        n = d.pick(sorted(scope))
        w, j = scope[n]
        if w == "x":
            return
        if w == "mod":
            w = d.pick(["n", "bump", "get", "K"])
            ref = "%s.%s%d" % (n, w, j)
        else:
            ref = n
        k = d.int(1, 9)
        if w == "n":
            op = d.int(0, 2)
            out.append(["var", ref, j, ["show", "set", "add"][op], k])
        elif w == "bump":
            out.append(["bump", ref, j, k])
        elif w == "get":
            out.append(["get", ref, j])
        else:
            out.append(["K", ref, j])

    def body(self, i, before, n=None):
        d = self.d
        out = []
        scope = {}
        lazies = 0
        own = i < len(self.mods)
        for _ in range(d.int(1, 6) if n is None else n):
            k = d.int(0, 9)
            if k <= 3 and before:
                self.bind(d.pick(list(before)), scope, out)
            elif k <= 6:
                self.use(scope, out)
            elif k == 7:
                out.append(["print", d.int(0, 99)])
            elif k == 8 and before and lazies < 2:
                # import inside of a function
                j = d.pick(list(before))
                inner, sc = [], {}
                self.bind(j, sc, inner, True)
                for _ in range(d.int(1, 2)):
                    self.use(sc, inner)
                out.append(["lazy", lazies, inner])
                lazies += 1
                for _ in range(d.int(0, 2)):
                    out.append(["call", lazies - 1])
            elif k == 9 and before:
                j = d.pick(list(before))
                inner, sc = [], {}
                inner.append(["import", "import %s as w%d_%d" % (
                    d.pick(metas(self.mods[j])), len(out), j), j])
                sc["w%d_%d" % (len(out), j)] = ("mod", j)
                for _ in range(d.int(0, 2)):
                    self.use(sc, inner)
                scope["w%d_%d" % (len(out), j)] = ("x", j)
                out.append(["if", d.flip(), inner])
            elif own:
                out.append(["own", d.int(1, 9)])
        return out

    def decoys(self):
        d = self.d
        out = []
        for p in self.mods:
            nm = p.rpartition("/")[2]
            for _ in range(d.int(0, 2)):
                q = d.pick(DIRS)
                q = (q + "/" if q else "") + nm
                ext = d.pick([".aca", ".txt", ".mcfunction", ".aca.bak",
                              ".pyc"])
                if ext == ".aca" and (q in self.mods or q == "proj/main"):
                    continue
                out.append(q + ext)
        # never shadow the library
        if d.flip(30) and "proj/print" not in self.mods:
            out.append("proj/print.aca")
        return out


def stmts(body, pad, i, out):
    for s in body:
        k = s[0]
        if k == "import":
            out.append(pad + s[1])
        elif k == "var":
            if s[3] == "show":
                out.append(pad + 'print.tell(print.format("v%d %%0", %s))'
                           % (s[2], s[1]))
            else:
                out.append(pad + "%s %s %d" % (
                    s[1], "=" if s[3] == "set" else "+=", s[4]))
        elif k == "bump":
            out.append(pad + "%s(%d)" % (s[1], s[3]))
        elif k == "get":
            out.append(pad + 'print.tell(print.format("g%d %%0", %s()))'
                       % (s[2], s[1]))
        elif k == "K":
            out.append(pad + 'print.tell(print.format("k%d %%0", %s))'
                       % (s[2], s[1]))
        elif k == "print":
            out.append(pad + 'print.tell("p%d %d")' % (i, s[1]))
        elif k == "own":
            out.append(pad + "n%d += %d" % (i, s[1]))
        elif k == "lazy":
            out.append(pad + "def lazy%d_%d():" % (i, s[1]))
            stmts(s[2], pad + "    ", i, out)
        elif k == "call":
            out.append(pad + "lazy%d_%d()" % (i, s[1]))
        elif k == "if":
            out.append(pad + "if sw%d %s 3:" % (i, ">" if s[1] else "<"))
            stmts(s[2], pad + "    ", i, out)


PY = """from acaciamc.tools import axe, resultlib
import acaciamc.objects as objects
import acaciamc.mccmdgen.cmds as cmds

def acacia_build(compiler):
    n = objects.IntVar.new(compiler)
    @axe.chop
    @axe.arg("by", objects.IntDataType)
    def bump(compiler, by):
        tmp = objects.IntVar.new(compiler, tmp=True)
        return resultlib.commands(list(by.export(tmp, compiler)) + [
            cmds.ScbOperation(cmds.ScbOp.ADD_EQ, n.slot, tmp.slot)])
    @axe.chop
    def get(compiler):
        r = objects.IntVar.new(compiler, tmp=True)
        return resultlib.Result(r, [
            cmds.ScbOperation(cmds.ScbOp.ASSIGN, r.slot, n.slot),
            cmds.ScbAddConst(r.slot, 1)])
    return objects.BuiltModule({
        "n%(i)d": n, "bump%(i)d": objects.BinaryFunction(bump),
        "get%(i)d": objects.BinaryFunction(get),
        "K%(i)d": resultlib.literal(%(k)d)}, [
        cmds.ScbSetConst(n.slot, %(v)d),
        cmds.RawtextOutput("tellraw @a", cmds.Rawtext([
            cmds.RawtextText("load %(i)d")]))])
"""


def texts(case):
    files = {}
    for i, p in enumerate(case["mods"]):
        if case["py"][i]:
            files[p + ".py"] = PY % {"i": i, "v": i * 10, "k": 100 + i}
            continue
        out = ["import print", "n%d := %d" % (i, i * 10),
               "_hid%d := 1" % i, "const K%d = %d" % (i, 100 + i)]
        out += ["def bump%d(by: int):" % i, "    n%d += by" % i,
                "def get%d() -> int:" % i, "    result n%d + _hid%d" % (i, i)]
        out.append('print.tell("load %d")' % i)
        out.append("_sw := 5")
        body = []
        stmts(case["bodies"][i], "", i, body)
        out += [x.replace("if sw%d " % i, "if _sw ") for x in body]
        out += ['interface go%d:' % i, "    n%d += 1000" % i,
                '    print.tell(print.format("i%d %%0", n%d))' % (i, i)]
        files[p + ".aca"] = "\n".join(out) + "\n"
    i = len(case["mods"])
    out = ["import print", "sw%d := 5" % i]
    stmts(case["main"], "", i, out)
    files["proj/main.aca"] = "\n".join(out) + "\n"
    for q in case["decoys"]:
        files.setdefault(q, "this is wrong(\n")
    return files


class Model:
    def __init__(self, case):
        self.c = case
        self.out = []
        self.n = {}
        self.loads = 0
        self.imports = {}

    def start(self):
        self.loaded = set()
        self.block(self.c["main"], len(self.c["mods"]))

    def load(self, j):
        self.imports[j] = self.imports.get(j, 0) + 1
        if j in self.loaded:
            return
        self.loaded.add(j)
        self.loads += 1
        self.n[j] = j * 10
        self.out.append("load %d" % j)
        self.block(self.c["bodies"][j], j)

    def block(self, body, i):
        fns = {}
        for s in body:
            k = s[0]
            if k == "import":
                self.load(s[2])
            elif k == "var":
                if s[3] == "show":
                    self.out.append("v%d %d" % (s[2], self.n[s[2]]))
                elif s[3] == "set":
                    self.n[s[2]] = s[4]
                else:
                    self.n[s[2]] += s[4]
            elif k == "bump":
                self.n[s[2]] += s[3]
            elif k == "get":
                self.out.append("g%d %d" % (s[2], self.n[s[2]] + 1))
            elif k == "K":
                self.out.append("k%d %d" % (s[2], 100 + s[2]))
            elif k == "print":
                self.out.append("p%d %d" % (i, s[1]))
            elif k == "own":
                self.n[i] += s[1]
            elif k == "lazy":
                fns[s[1]] = s[2]
            elif k == "call":
                self.block(fns[s[1]], i)
            elif k == "if" and s[1]:
                self.block(s[2], i)


def g(d):
    x = G(d)
    return {"mods": x.mods, "bodies": x.bodies, "main": x.main,
            "py": x.py, "decoys": x.decoys(), "again": d.flip(60),
            "ifs": [d.int(0, 5) for _ in range(d.int(0, 4))],
            "opt": d.flip(), "split": d.flip(25)}


def run(case):
    files = texts(case)
    b = build_main(files, optimizer=case["opt"], split_init=case["split"])
    m = Model(case)
    m.start()
    vm = execute(b, None, files)
    for j in case["ifs"]:
        if j in m.loaded and not case["py"][j]:
            m.n[j] += 1000
            m.out.append("i%d %d" % (j, m.n[j]))
            execute(b, vm=vm, src=files, path="go%d" % j)
    if case["again"]:
        m.start()
        execute(b, vm=vm, src=files, init=False)
    got = [e[2] for e in vm.events if e[0] == "tellraw"]
    same(got, m.out, "messages of the modules", files, b)
    return {"nontrivial": m.loads >= 2 and max(m.imports.values()) >= 2,
            "tags": (["again"] if case["again"] else []) + (
                ["python"] if any(case["py"]) else [])}


def build_main(files, **cfg):
    return build(files, main="proj/main.aca", **cfg)


# --- refusals ---------------------------------------------------------------

BASE = {
    "proj/m.aca": "import print\nfrom .k import kv\nimport .k as kk\n"
                  "x := 1\n_p := 2\nconst C = 3\ndef f() -> int:\n"
                  "    result x\n",
    "proj/k.aca": "kv := 4\nkw := 5\n",
    "proj/c1.aca": "import .c2\n",
    "proj/c2.aca": "import .c3\n",
    "proj/c3.aca": "a := 1\ndef g():\n    import .c1\n",
    "proj/self.aca": "import .self as q\n",
    "proj/back.aca": "import .main as q\n",
    "proj/bad.aca": "a := (\n",
    "proj/bad2.aca": "a := 1 + True\n",
    "proj/sub/m2.aca": "v := 1\n",
    "out.aca": "v := 1\n",
}
GOOD = ["import m", "from m import x", "from m import x, f as g",
        "from m import *", "import .m", "import m as z", "import sub.m2",
        "from sub.m2 import v", "import ..out", "from m import C as D",
        "import ..proj.k as kq", "import .sub.m2 as t",
        "from m import x as x1, x as x2\nx1 = 3\nx2 = 4\nprint.tell("
        "print.format(\"%0\", x1))",
        "from m import *\nfrom k import *\nx = kv + kw",
        "import m\nm.x = m.C\nm.x += m.f()", "import print as pp",
        "def t():\n    import m\n    m.x = 1\nt()\nimport m as m5",
        "import m as t9\nt9.x = 4\nkv := 5\nkk := 6"]
REFUSED = ["import nothere", "import sub", "import sub.m", "import .nothere",
           "import out", "import ...m", "import M", "from m import _p",
           "from m import kv", "from m import kk", "from m import print",
           "from m import nothere", "from m import x, nothere",
           "import m\nm.kv = 1", "import m\nm._p = 1", "import m\nm.kk.kv = 1",
           "import m\nm.nothere = 2", "from m import *\nkv = 2",
           "from m import *\n_p = 3", "import c1", "import c2", "import c3",
           "import .self as s", "import back", "import bad", "import bad2",
           "import m\nimport m", "from m import x\nfrom m import x",
           "from m import *\nfrom m import x", "import m as x\nx = 3",
           "x9 := 1\nimport m as x9", "from m import f\nf = 3",
           "import m\nm.C = 4", "import m\nm = 3", "from m import C\nC = 3",
           "from m import x, x", "from m import f as g, x as g",
           "import m\nm.x: int = 3", "m.x = 3", "from m import *\nm.x = 3",
           "import m.x", "from m.x import y", "import m\nm()",
           "import ..proj", "from m import x as m1\nm.x = 1"]


def g_ref(d):
    n = d.int(0, 2)
    return {"pre": d.sample(GOOD, n), "bad": d.pick(REFUSED),
            "wrap": d.int(0, 2)}


def run_ref(case):
    def prog(parts):
        out = "import print\n"
        for i, p in enumerate(parts):
            lines = p.split("\n")
            # one function each: names are independent
            out += "def fn%d():\n" % i + "".join(
                "    " + x + "\n" for x in lines)
            out += "fn%d()\n" % i
        return out
    good = prog(case["pre"])
    out, r = try_build(dict(BASE, **{"proj/main.aca": good}),
                       main="proj/main.aca")
    need(out == "ok", "valid imports are refused: %s\n%s",
         r.text if out != "ok" else "", good)
    parts = list(case["pre"])
    parts.insert(min(case["wrap"], len(parts)), case["bad"])
    src = prog(parts)
    if case["wrap"] == 2:
        src = good + case["bad"] + "\n"
    out, r = try_build(dict(BASE, **{"proj/main.aca": src}),
                       main="proj/main.aca")
    need(out == "rejected", "invalid import is accepted\n%s", src)
    return {"nontrivial": True, "tags": ["refused"]}


CHECKS = [
    Check("graphs", g, run, 5000, 100000),
    Check("refused", g_ref, run_ref, 900, 6000),
]
