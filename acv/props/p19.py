"""P19: tasks and loops run at the ticks they were asked for."""
from ..core import Check, Skip, need
from ..h import build, execute, same, try_build
from .. import static
from ..mcvm import wrap

RULE = ("at least five calls happen in ticks, from at least two different "
        "tasks or loops; or a program that must be refused")
ASSUMPTIONS = [
    "the tick function runs once per game tick, after main ran",
    "loops are registered at the top level of a program",
    "a timer that was never started does not match any range",
    "arguments of tasks and loops that are variables are read when the "
    "target is called",
]

# expressions: ["n", k] ["v", name] ["op", o, a, b] ["t", task]
# statements: ["say", id, [expr]] ["set", v, e] ["aug", v, o, e]
#   ["after", task, e] ["cancel", task] ["has", task, body, else]
#   ["if", o, a, b, body] ["call", fn, [args]]
# items: ["func", f] ["task", name, fn, args, kwargs] ["loop", fn, interval,
#   args, kwargs] ["st", stmt] ["maker", name, fn, args, inline]
#   ["iface", path, body]


class Gen:
    def __init__(self, d):
        self.d = d
        self.vars = ["n0", "n1"]
        self.funcs = {}
        self.tasks = []
        self.makers = []
        self.nid = 0
        self.nv = 0

    def fresh(self, p):
        self.nv += 1
        return p + str(self.nv)

    def ex(self, dep=2, ps=(), lo=-1, hi=5):
        d = self.d
        k = d.int(0, 5)
        if k <= 2 or dep <= 0:
            return ["n", d.int(lo, hi)]
        if k == 3:
            return ["v", d.pick(list(self.vars) + list(ps))]
        if k == 4 and self.tasks:
            return ["t", d.pick(self.tasks)]
        return ["op", d.pick("++-*"), self.ex(dep - 1, ps, lo, hi),
                self.ex(dep - 1, ps, lo, hi)]

    def body(self, ps=(), dep=2, calls=True, tasks=True):
        return [self.stmt(ps, dep, calls, tasks)
                for _ in range(self.d.pick([1, 1, 2, 3]))]

    def stmt(self, ps=(), dep=2, calls=True, tasks=True):
        d = self.d
        k = d.int(0, 11)
        ts = self.tasks if tasks else []
        if k <= 2:
            self.nid += 1
            return ["say", self.nid, [self.ex(1, ps)
                                      for _ in range(d.int(0, 2))]]
        if k == 3:
            return ["set", d.pick(self.vars), self.ex(2, ps)]
        if k == 4:
            return ["aug", d.pick(self.vars), d.pick("+-"), self.ex(1, ps)]
        if k <= 7 and ts:
            return ["after", d.pick(ts), self.ex(1, ps, 0, 4)]
        if k == 8 and ts:
            return ["cancel", d.pick(ts)]
        if k == 9 and ts and dep:
            return ["has", d.pick(ts), self.body(ps, dep - 1, calls, tasks),
                    self.body(ps, dep - 1, calls, tasks)
                    if d.flip() else None]
        if k == 10 and dep:
            return ["if", d.pick(["==", "<", ">="]), self.ex(1, ps),
                    self.ex(1, ps), self.body(ps, dep - 1, calls, tasks)]
        if k == 11 and calls:
            c = [f for f in self.funcs]
            if c:
                f = d.pick(c)
                return ["call", f, [self.ex(1, ps)
                                    for _ in self.funcs[f]["params"]]]
        self.nid += 1
        return ["say", self.nid, [["v", d.pick(self.vars)]]]

    def args(self, f):
        """-> positional, keyword"""
        d = self.d
        ps = self.funcs[f]["params"]
        n = d.int(0, len(ps))
        pos, kws = [], []
        for i, (p, dflt) in enumerate(ps):
            if dflt is not None and d.flip(40):
                break
            e = self.ex(d.int(0, 2))
            if i < n:
                pos.append(e)
            else:
                kws.append([p, e])
        else:
            return pos, kws
        # the rest has defaults or goes by keyword
        for p, dflt in ps[i + 1:]:
            if dflt is None or d.flip(50):
                kws.append([p, self.ex(1)])
        return pos, kws

    def program(self):
        d = self.d
        items = []
        for _ in range(d.int(3, 9)):
            k = d.int(0, 9)
            if k <= 2 or not self.funcs:
                f = {"name": self.fresh("f"), "inline": d.flip(25),
                     "params": []}
                for _ in range(d.int(0, 2)):
                    last = f["params"] and f["params"][-1][1] is not None
                    f["params"].append([self.fresh("p"), d.int(1, 9)
                                        if last or d.flip(25) else None])
                self.nid += 1
                f["body"] = [["say", self.nid, [
                    ["v", p] for p, _ in f["params"]]]] + \
                    self.body([p for p, _ in f["params"]])
                items.append(["func", f])
                self.funcs[f["name"]] = f
            elif k <= 4:
                fn = d.pick(sorted(self.funcs))
                t = self.fresh("t")
                pos, kws = self.args(fn)
                items.append(["task", t, fn, pos, kws])
                self.tasks.append(t)
            elif k <= 6:
                fn = d.pick(sorted(self.funcs))
                pos, kws = self.args(fn)
                iv = d.pick([None, ["n", 1], ["n", 2], ["n", 3], ["n", 4],
                             ["v", d.pick(self.vars)], self.ex(2, (), 1, 4),
                             ["n", 0]])
                if pos and iv is None:
                    iv = ["n", 1]
                items.append(["loop", fn, iv, pos, kws])
            elif k == 7:
                fn = d.pick(sorted(self.funcs))
                m = self.fresh("m")
                items.append(["maker", m, fn, self.args(fn)[0]
                              if not self.funcs[fn]["params"] else
                              [self.ex(1) for _ in self.funcs[fn]["params"]],
                              d.flip(40)])
                self.makers.append(m)
            elif k == 8 and self.makers:
                items.append(["mk", d.pick(self.makers), self.ex(1, (), 0, 4)])
            else:
                items.append(["st", self.stmt()])
        n = d.int(1, 3)
        for i in range(n):
            b = self.body()
            if self.makers and d.flip(40):
                b.append(["mk", d.pick(self.makers), self.ex(1, (), 0, 4)])
            items.append(["iface", "go%d" % i, b])
        hist = []
        for _ in range(d.int(2, 7)):
            k = d.int(0, 9)
            if k <= 5:
                hist.append(["tick", d.int(1, 6)])
            elif k <= 8:
                hist.append(["go", d.int(0, n - 1)])
            else:
                hist.append(["main"])
        hist.append(["tick", d.int(3, 10)])
        return {"items": items, "hist": hist,
                "init": [d.int(-2, 4), d.int(0, 4)]}


# --- text -------------------------------------------------------------------

def rx(e):
    if e[0] == "n":
        return str(e[1])
    if e[0] == "v":
        return e[1]
    if e[0] == "t":
        return e[1] + "._timer"
    return "(%s %s %s)" % (rx(e[2]), e[1], rx(e[3]))


def rcall(pos, kws):
    return [rx(e) for e in pos] + ["%s=%s" % (k, rx(e)) for k, e in kws]


def render(case):
    out = ["import print", "import schedule",
           "n0 := %d" % case["init"][0], "n1 := %d" % case["init"][1]]
    cnt = [0]

    def st(s, i):
        I = "    " * i
        k = s[0]
        if k == "say":
            out.append(I + 'print.tell(print.format("%s"%s))' % (
                " ".join(["m%d" % s[1]] + ["%" + str(j)
                                           for j in range(len(s[2]))]),
                "".join(", " + rx(e) for e in s[2])))
        elif k == "set":
            out.append(I + "%s = %s" % (s[1], rx(s[2])))
        elif k == "aug":
            out.append(I + "%s %s= %s" % (s[1], s[2], rx(s[3])))
        elif k == "after":
            out.append(I + "%s.after(%s)" % (s[1], rx(s[2])))
        elif k == "cancel":
            out.append(I + s[1] + ".cancel()")
        elif k == "has":
            out.append(I + "if %s.has_schedule():" % s[1])
            blk(s[2], i + 1)
            if s[3]:
                out.append(I + "else:")
                blk(s[3], i + 1)
        elif k == "if":
            # a variable keeps the condition a run-time one
            cnt[0] += 1
            out.append(I + "c%d := %s" % (cnt[0], rx(s[2])))
            out.append(I + "if c%d %s %s:" % (cnt[0], s[1], rx(s[3])))
            blk(s[4], i + 1)
        elif k == "call":
            out.append(I + "%s(%s)" % (s[1], ", ".join(map(rx, s[2]))))
        elif k == "mk":
            out.append(I + "%s(%s)" % (s[1], rx(s[2])))

    def blk(b, i):
        for s in b:
            st(s, i)
    for it in case["items"]:
        k = it[0]
        if k == "func":
            f = it[1]
            out.append("%sdef %s(%s):" % (
                "inline " if f["inline"] else "", f["name"], ", ".join(
                    p + (": int" if v is None else " = %d" % v)
                    for p, v in f["params"])))
            blk(f["body"], 1)
        elif k == "task":
            out.append("const %s = schedule.Task(%s)" % (it[1], ", ".join(
                [it[2]] + rcall(it[3], it[4]))))
        elif k == "loop":
            a = [it[1]]
            if it[2] is not None:
                a.append(rx(it[2]) if it[3] else "interval=" + rx(it[2]))
            out.append("schedule.register_loop(%s)" % ", ".join(
                a + rcall(it[3], it[4])))
        elif k == "maker":
            out.append("%sdef %s(d: int):" % (
                "inline " if it[4] else "", it[1]))
            out.append("    const t = schedule.Task(%s)" % ", ".join(
                [it[2]] + rcall(it[3], [])))
            out.append("    if not t.has_schedule():")
            out.append("        t.after(d)")
        elif k == "iface":
            out.append("interface %s:" % it[1])
            blk(it[2], 1)
        else:
            st(it[1] if k == "st" else it, 0)
    return "\n".join(out) + "\n"


# --- model ------------------------------------------------------------------

class Model:
    def __init__(self, case):
        self.case = case
        self.out = []
        self.ticks = []      # things done each tick, in order
        self.timer = {}      # timers, by key
        self.funcs = {}
        self.makers = {}
        self.g = {}
        self.acts = 0
        self.who = set()
        self.steps = 0
        # one task for each place where an inline maker is expanded
        n = 0
        self.place = {}
        for it in case["items"]:
            if it[0] == "func":
                self.funcs[it[1]["name"]] = it[1]
            elif it[0] == "task":
                self.ticks.append(["task", it[1], it[2], it[3], it[4]])
            elif it[0] == "loop":
                n += 1
                self.ticks.append(["loop", "l%d" % n, it[1], it[2], it[3],
                                   it[4]])
                self.place[id(it)] = "l%d" % n
            elif it[0] == "maker":
                self.makers[it[1]] = it
                if not it[4]:
                    self.ticks.append(["task", it[1], it[2], it[3], []])
            else:
                for s in [it] if it[0] == "mk" else \
                        it[2] if it[0] == "iface" else []:
                    if s[0] != "mk":
                        continue
                    m = self.makers[s[1]]
                    if m[4]:
                        n += 1
                        self.ticks.append(["task", "x%d" % n, m[2], m[3],
                                           []])
                        self.place[id(s)] = "x%d" % n
                    else:
                        self.place[id(s)] = m[1]

    def ex(self, e, loc):
        if e[0] == "n":
            return e[1]
        if e[0] == "v":
            return loc[e[1]] if e[1] in loc else self.g[e[1]]
        if e[0] == "t":
            return self.timer[e[1]]
        a, b = self.ex(e[2], loc), self.ex(e[3], loc)
        return wrap(a + b if e[1] == "+" else a - b if e[1] == "-"
                    else a * b)

    def call(self, fn, pos, kws, loc):
        f = self.funcs[fn]
        v = {}
        for (p, dflt), e in zip(f["params"], pos):
            v[p] = self.ex(e, loc)
        for k, e in kws:
            v[k] = self.ex(e, loc)
        for p, dflt in f["params"]:
            if p not in v:
                v[p] = dflt
        self.block(f["body"], v)

    def block(self, b, loc):
        for s in b:
            self.st(s, loc)

    def st(self, s, loc):
        self.steps += 1
        if self.steps > 4000:
            raise Skip("long")
        k = s[0]
        if k == "say":
            self.out.append(" ".join(["m%d" % s[1]] + [
                str(self.ex(e, loc)) for e in s[2]]))
        elif k == "set":
            self.g[s[1]] = self.ex(s[2], loc)
        elif k == "aug":
            x = self.ex(s[3], loc)
            self.g[s[1]] = wrap(self.g[s[1]] + (x if s[2] == "+" else -x))
        elif k == "after":
            self.timer[s[1]] = self.ex(s[2], loc)
        elif k == "cancel":
            self.timer[s[1]] = -1
        elif k == "has":
            if self.timer[s[1]] >= 0:
                self.block(s[2], loc)
            elif s[3]:
                self.block(s[3], loc)
        elif k == "if":
            a, b = self.ex(s[2], loc), self.ex(s[3], loc)
            if {"==": a == b, "<": a < b, ">=": a >= b}[s[1]]:
                self.block(s[4], loc)
        elif k == "call":
            self.call(s[1], s[2], [], loc)
        elif k == "mk":
            self.timer[self.place[id(s)]] = self.ex(s[2], loc)

    def main(self):
        self.g = {"n0": self.case["init"][0], "n1": self.case["init"][1]}
        for it in self.case["items"]:
            if it[0] == "task":
                self.timer[it[1]] = -1
            elif it[0] == "loop":
                self.timer[self.place[id(it)]] = 0
            elif it[0] == "st":
                self.st(it[1], {})
            elif it[0] == "mk":
                self.st(it, {})

    def tick(self):
        for t in self.ticks:
            k = t[1]
            if k not in self.timer:
                continue             # its creator has not run yet
            if t[0] == "task":
                if self.timer[k] == 0:
                    self.acts += 1
                    self.who.add(k)
                    self.call(t[2], t[3], t[4], {})
                if self.timer[k] >= 0:
                    self.timer[k] -= 1
            else:
                if self.timer[k] <= 0:
                    self.acts += 1
                    self.who.add(k)
                    self.call(t[2], t[4], t[5], {})
                    self.timer[k] = 1 if t[3] is None else \
                        self.ex(t[3], {})
                self.timer[k] = wrap(self.timer[k] - 1)


def run(case):
    src = render(case)
    m = Model(case)
    m.main()
    b = build(src)
    static.lint(b, False, src=src)
    vm = execute(b, None, src)
    for h in case["hist"]:
        if h[0] == "tick":
            for _ in range(h[1]):
                m.tick()
                if b.tick:
                    execute(b, vm=vm, src=src, path=b.tick, undef_ok=True)
        elif h[0] == "main":
            m.main()
            execute(b, vm=vm, src=src, init=False, undef_ok=True)
        else:
            for it in case["items"]:
                if it[0] == "iface" and it[1] == "go%d" % h[1]:
                    m.block(it[2], {})
            execute(b, vm=vm, src=src, path="go%d" % h[1], undef_ok=True) \
                if "go%d" % h[1] in b.files else None
    got = [e[2] for e in vm.events if e[0] == "tellraw"]
    same(got, m.out, "messages over the ticks", src + "\n" + str(
        case["hist"]), b)
    return {"nontrivial": m.acts >= 5 and len(m.who) >= 2,
            "tags": []}


def g(d):
    return Gen(d).program()


# --- area schedules ----------------------------------------------------------

def g_area(d):
    def num(lo, hi):
        return d.int(lo, hi) / 2.0
    out = []
    for i in range(d.int(1, 4)):
        k = d.pick(["area", "circle", "tick"])
        pos = [num(-9, 9), num(-9, 9), num(-9, 9)]
        off = [d.pick(["abs", "rel"]), num(-9, 9), num(-9, 9), num(-9, 9)]
        out.append([d.int(0, 1), k, pos, off, d.int(0, 9),
                    d.pick(["ta", "big area", "x1"])])
    return {"reqs": out, "fire": d.shuffle(range(len(out))),
            "vals": [d.int(0, 99), d.int(0, 99)],
            "kinds": [d.pick(["f", "f", "g", "h", "i", "j"])
                      for _ in range(2)],
            "after": [d.pick([None, None, 0, 1, 2]) for _ in range(2)]}


# targets of area tasks, with the text they print and what they add to n
AREA = {
    "f": """def f(a: int, b: int):
    print.tell(print.format("f %0 %1 %2", a, b, n))""",
    "g": """def g%d():
    print.tell("g%d")""",
    "h": """def h%d():
    print.tell(print.format("h%d %%0", n))
    n += 1""",
    "i": """inline def i%d():
    print.tell("i%d")""",
    "j": """inline def j%d():
    n += 1
    print.tell(print.format("j%d %%0", n))""",
}


def run_area(case):
    src = ["import print", "import schedule", "n := 0", AREA["f"]]
    for i, v in enumerate(case["vals"]):
        k = case["kinds"][i]
        if k == "f":
            src.append("const t%d = schedule.Task(f, %d, b=%d)" % (i, i, v))
        else:
            src.append(AREA[k] % (i, i))
            src.append("const t%d = schedule.Task(%s%d)" % (i, k, i))
    want = []
    for t, k, pos, off, rad, name in case["reqs"]:
        p = "Pos(%s, %s, %s)" % tuple(pos)
        if k == "area":
            o = "Offset().%s(%s, %s, %s)" % (
                {"abs": "abs", "rel": "offset"}[off[0]], *off[1:])
            src.append("t%d.on_area_loaded(%s, %s)" % (t, p, o))
            c = "" if off[0] == "abs" else "~"
            want.append((tuple(pos), ["~", "~", "~"] + [
                (c, float(x)) for x in off[1:]], t))
        elif k == "circle":
            src.append("t%d.on_circle_loaded(%s, %d)" % (t, p, rad))
            want.append((tuple(pos), ["circle", "~", "~", "~", str(rad)], t))
        else:
            src.append('t%d.on_tickingarea("%s")' % (t, name))
            want.append((None, ["tickingarea", name], t))
        src.append("print.tell(print.format(\"%%0\", t%d.has_schedule()))"
                   % t)
    for i, k in enumerate(case["after"]):
        if k is not None:
            src.append("t%d.after(%d)" % (i, k))
    src = "\n".join(src) + "\n"
    b = build(src)
    static.lint(b, False, src=src)
    vm = execute(b, None, src)

    def norm(ws):
        out = []
        for w in ws:
            w = str(w)
            try:
                out.append(("", float(w)))
                if len(ws) and ws[0] == "circle":
                    out[-1] = w
            except ValueError:
                if w.startswith("~") and len(w) > 1:
                    out.append(("~", float(w[1:])))
                else:
                    out.append(w)
        return out
    got = []
    for (args, where, path), w in zip(vm.pending, want):
        a = norm(args)
        x = w[1]
        # "~" and "~0" are the same
        a = [("~", 0.0) if v == "~" else v for v in a]
        x = [("~", 0.0) if v == "~" else v for v in x]
        got.append((None if w[0] is None else tuple(where[:3]), a))
        same(got[-1], (w[0], x), "scheduled area", src, b)
    same(len(vm.pending), len(want), "number of area schedules", src, b)
    same([e[2] for e in vm.events], ["0"] * len(want),
         "has_schedule after an area schedule", src, b)
    vm.events.clear()
    res = []
    n = 0

    def hit(t):
        nonlocal n
        k = case["kinds"][t]
        n += k == "j"
        res.append("f %d %d %d" % (t, case["vals"][t], n) if k == "f" else
                   "%s%d" % (k, t) if k in "gi" else
                   "%s%d %d" % (k, t, n))
        n += k == "h"
    for j in case["fire"]:
        execute(b, vm=vm, src=src, path=vm.pending[j][2])
        hit(want[j][2])
    for i in range(4):
        execute(b, vm=vm, src=src, path=b.tick, undef_ok=True)
        for t, k in enumerate(case["after"]):
            if k == i:
                hit(t)
    same([e[2] for e in vm.events], res, "calls when areas load", src, b)
    return {"nontrivial": len(want) >= 1, "tags": []}


# --- refusals ----------------------------------------------------------------

PRE = """import schedule
import print
def f(a: int, b: int = 3):
    pass
def g():
    pass
inline def h(const c: int):
    pass
n := 3
const t = schedule.Task(f, 1)
"""
OKS = ["const q = schedule.Task(g)", "const q = schedule.Task(f, b=1, a=n)",
       "const q = schedule.Task(h, 3)", "const q = schedule.Task(print.tell, \"x\")",
       "t.after(n)", "t.after(delay=3)", "b := t.has_schedule()",
       "n = t._timer", "schedule.register_loop(g)",
       "schedule.register_loop(f, 1, 2)", "schedule.register_loop(f, a=n)",
       "schedule.register_loop(f, n, n, n)",
       "schedule.register_loop(target=g, interval=n)",
       "t.on_area_loaded(Pos(1, 2, 3), Offset())",
       "t.on_circle_loaded(Pos(1, 2, 3), 0)", "t.on_tickingarea(\"x\")",
       "t.cancel()"]
BADS = ["const q = schedule.Task()", "const q = schedule.Task(f)",
        "const q = schedule.Task(f, True)", "const q = schedule.Task(f, 1, 2, 3)",
        "const q = schedule.Task(f, 1, a=2)", "const q = schedule.Task(f, c=2)",
        "const q = schedule.Task(3)", "const q = schedule.Task(n)",
        "const q = schedule.Task(h, n)", "const q = schedule.Task(g, 1)",
        "q := schedule.Task(g)", "q: schedule.Task", "t.after()",
        "t.after(True)", "t.after(1.5)", "t.after(\"1\")", "t.after(1, 2)",
        "t.cancel(1)", "t.has_schedule(1)", "n = t.has_schedule()",
        "t.nope()", "t()", "t.on_area_loaded(Pos(1, 2, 3))",
        "t.on_area_loaded(Offset(), Pos(1, 2, 3))",
        "t.on_area_loaded(Pos(1, 2, 3), Pos(1, 2, 3))",
        "t.on_circle_loaded(Pos(1, 2, 3), -1)",
        "t.on_circle_loaded(Pos(1, 2, 3), n)",
        "t.on_circle_loaded(Pos(1, 2, 3), 1.5)", "t.on_tickingarea(3)",
        "t.on_tickingarea()", "schedule.register_loop()",
        "schedule.register_loop(3)", "schedule.register_loop(f)",
        "schedule.register_loop(f, 1)", "schedule.register_loop(g, 1, 2)",
        "schedule.register_loop(g, True)", "schedule.register_loop(g, 1.5)",
        "schedule.register_loop(g, \"1\")",
        "schedule.register_loop(f, 1, True)",
        "schedule.register_loop(f, 1, c=2)",
        "schedule.register_loop(h, 1, n)", "n = schedule.register_loop(g)",
        "n = t.after(1)", "schedule.after(g, 1)", "t._timer = True",
        "schedule = 3", "schedule.Task = g"]


def g_bad(d):
    return {"ok": d.sample(OKS, d.int(0, 2)), "bad": d.pick(BADS)}


def run_bad(case):
    good = PRE + "".join(p + "\n" for p in case["ok"]
                         if "const q" not in p or p == case["ok"][0])
    out, r = try_build(good)
    need(out == "ok", "valid schedule refused: %s\n%s",
         r.text if out != "ok" else "", good)
    out, r = try_build(PRE + case["bad"] + "\n")
    need(out == "rejected", "invalid schedule accepted\n%s", case["bad"])
    return {"nontrivial": True, "tags": ["refused"]}


CHECKS = [
    Check("timelines", g, run, 6000, 120000),
    Check("areas", g_area, run_area, 1500, 20000),
    Check("refused", g_bad, run_bad, 500, 3000),
]
