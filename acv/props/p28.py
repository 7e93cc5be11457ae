"""P28: a statement does the same in every place where it may stand."""
from ..core import Check
from ..h import build, execute, same
from .. import lang, plang, snips, static, ulang

RULE = ("the statements are moved into a place two levels deep or into a "
        "function, method, interface, module or loop, and at least three "
        "outputs are observed")
ASSUMPTIONS = [
    "a player is online, so that entities can be created",
    "the statements moved do not read their executor",
    "names of a block are not used outside of it",
]

WHO = 'Pos(3, 4, 5)'


def ind(lines):
    return ["    " + ln if ln else ln for ln in lines]


def w_fn(n, b):
    return ["def w%d_():" % n] + ind(b) + ["w%d_()" % n]


def w_fnres(n, b):
    return ["def w%d_(k%d_: int) -> int:" % (n, n)] + ind(b) + \
        ["    result k%d_ + 1" % n, "r%d_ := w%d_(2)" % (n, n)]


def w_inl(n, b):
    return ["inline def w%d_():" % n] + ind(b) + ["w%d_()" % n]


def w_inlarg(n, b):
    return ["v%d_ := 4" % n,
            "inline def w%d_(&r%d_: int, const c%d_: int, a%d_ = 3) -> int:"
            % (n, n, n, n)] + ind(["r%d_ += c%d_" % (n, n)] + b) + \
        ["    result a%d_" % n, "w%d_(v%d_, 5)" % (n, n)]


def w_for(n, b):
    return ["for i%d_ in {%d}:" % (n, n)] + ind(b)


def w_if(n, b):
    return ["t%d_ := 1" % n, "if t%d_ == 1:" % n] + ind(b)


def w_else(n, b):
    return ["t%d_ := 1" % n, "if t%d_ == 2:" % n, "    t%d_ = 5" % n,
            "elif t%d_ > 3:" % n, "    pass", "else:"] + ind(b)


def w_elif(n, b):
    return ["t%d_ := 1" % n, "if t%d_ == 2:" % n, "    t%d_ = 5" % n,
            "elif t%d_ < 3:" % n] + ind(b) + \
        ["else:", "    t%d_ = 7" % n]


def w_const(n, b):
    return ["if 1 < 2:"] + ind(b)


def w_constelse(n, b):
    return ["if 1 > 2:", "    pass", "else:"] + ind(b)


def w_while(n, b):
    return ["t%d_ := 3" % n, "while t%d_ == 3:" % n] + \
        ind(["t%d_ += 1" % n] + b)


def w_whileend(n, b):
    return ["t%d_ := True" % n, "while t%d_:" % n] + \
        ind(b + ["t%d_ = False" % n])


def w_meth(q):
    def w(n, b):
        return ["entity W%d_:" % n, "    f%d_: int" % n, "    new():",
                '        new("pig", %s)' % WHO,
                "    %sdef m%d_(a: int) -> int:" % (q, n)] + \
            ind(ind(b + ["result a"])) + \
            ["e%d_ := W%d_()" % (n, n),
             "r%d_ := e%d_.m%d_(3)" % (n, n, n)]
    return w


def w_self(n, b):
    """through a method called on self"""
    return ["entity W%d_:" % n, "    f%d_: int" % n, "    new():",
            '        new("pig", %s)' % WHO,
            "        self.f%d_ = 1" % n,
            "    def m%d_():" % n] + ind(ind(b)) + \
        ["    virtual def v%d_():" % n, "        if self.f%d_ == 1:" % n,
         "            self.m%d_()" % n,
         "e%d_ := W%d_()" % (n, n), "e%d_.v%d_()" % (n, n)]


def w_over(n, b):
    """an override called through a variable of the base"""
    return ["entity V%d_:" % n, "    new():",
            '        new("pig", %s)' % WHO,
            "    virtual def m%d_():" % n, "        pass",
            "entity W%d_ extends V%d_:" % (n, n),
            "    new():", "        V%d_.new()" % n,
            "    override def m%d_():" % n] + ind(ind(b)) + \
        ["e%d_: V%d_ = W%d_()" % (n, n, n), "e%d_.m%d_()" % (n, n)]


def w_static(n, b):
    return ["entity W%d_:" % n, "    static def m%d_():" % n] + \
        ind(ind(b)) + ["W%d_.m%d_()" % (n, n)]


def w_new(q):
    def w(n, b):
        return ["entity W%d_:" % n, "    f%d_: int" % n,
                "    %snew():" % q,
                '        new("pig", %s)' % WHO] + ind(ind(b)) + \
            ["        self.f%d_ = 2" % n, "e%d_ := W%d_()" % (n, n)]
    return w


def w_group(n, b):
    return ["entity W%d_:" % n, "    new():",
            '        new("pig", %s)' % WHO,
            "e%d_ := W%d_()" % (n, n), "g%d_ := Engroup[W%d_]()" % (n, n),
            "g%d_.add(e%d_)" % (n, n), "for x%d_ in g%d_:" % (n, n)] + ind(b)


WRAPS = {
    "function": w_fn, "function with result": w_fnres, "inline": w_inl,
    "inline with parameters": w_inlarg, "for": w_for, "if": w_if,
    "else": w_else, "elif": w_elif, "constant if": w_const,
    "constant else": w_constelse, "while": w_while, "while end": w_whileend,
    "method": w_meth(""), "inline method": w_meth("inline "),
    "virtual method": w_meth("virtual "), "self": w_self,
    "override": w_over, "static": w_static, "new": w_new(""),
    "inline new": w_new("inline "), "group": w_group,
}
# the body may not run at all, or not once, as the compiler sees it
RUNTIME = {"if", "else", "elif", "while", "while end", "group", "function",
           "function with result", "method", "virtual method", "self",
           "override", "static", "new"}


def split(text):
    """(imports, top-level statements as lists of lines)"""
    imports, out = [], []
    for ln in text.split("\n"):
        if not ln.strip():
            continue
        if ln.startswith(("import ", "from ")):
            imports.append(ln)
        elif ln[0] == " " or ln.startswith(("else:", "elif ")):
            out[-1].append(ln)
        else:
            out.append([ln])
    return imports, out


def moved(text, how):
    """main program and other files after moving the statements"""
    imports, stmts = split(text)
    n0 = min(how["keep"], len(stmts))
    head = [ln for s in stmts[:n0] for ln in s]
    body = [ln for s in stmts[n0:] for ln in s]
    if not body:
        body = ["pass"]
    if how["imports"] and not n0:
        body = imports + body
        imports = []
    for k, w in enumerate(how["wraps"]):
        body = WRAPS[w](k, body)
    place = how["place"]
    src = {}
    if place == "interface" and not n0:
        body = ["interface w_/main_:"] + ind(body)
        src["main.aca"] = imports + body
    elif place == "module" and not n0:
        src["wm_.aca"] = imports + body
        src["main.aca"] = ["import wm_"]
    elif place == "module function" and not n0:
        src["wm_.aca"] = imports + ["def go():"] + ind(body)
        src["main.aca"] = ["from wm_ import go", "go()"]
    elif place == "module inline" and not n0:
        src["wm_.aca"] = imports + ["inline def go():"] + ind(body)
        src["main.aca"] = ["import wm_", "wm_.go()"]
    else:
        src["main.aca"] = imports + head + body
    return {k: "\n".join(v) + "\n" for k, v in src.items()}


def g_how(d, text, runtime=True, group=True):
    names = sorted(w for w in WRAPS if (runtime or w not in RUNTIME) and
                   (group or w != "group"))
    _, stmts = split(text)
    n = d.pick([1, 1, 1, 2, 2, 3])
    place = d.pick(["main", "main", "main", "interface", "module",
                    "module function", "module inline"])
    if place == "interface" and not runtime:
        place = "main"
    return {"keep": d.pick([0, 0, 0, d.int(0, len(stmts))]),
            "imports": d.flip(25) and place == "main",
            "wraps": [d.pick(names) for _ in range(n)], "place": place}


def setup(vm):
    lang.setup_vm(vm)
    if not any(e.type.endswith("player") for e in vm.ents):
        vm.add_ent("player")


def run_vm(b, src):
    vm = execute(b, setup, src, undef_ok=True)
    if "w_/main_" in b.files:
        execute(b, vm=vm, path="w_/main_", src=src, undef_ok=True)
    return vm


def info(case, n):
    w = case["how"]["wraps"]
    return {"nontrivial": n >= 3 and (len(w) > 1 or w[0] not in (
        "if", "else", "elif", "constant if", "constant else")),
        "tags": sorted(set(w)) + [case["how"]["place"]]}


# --- programs with a model ---------------------------------------------------

def run_lang(case):
    m = plang.model(case["prog"])
    src = moved(lang.render(case["prog"]), case["how"])
    b = build(src, optimizer=case["opt"])
    vm = run_vm(b, src)
    got = [e[2] if e[0] == "tellraw" else e[1] for e in vm.events
           if e[0] != "summon"]
    same(got, m.obs, "observed values", src, b)
    return info(case, len(m.obs))


def g_lang(d):
    prog = lang.Gen(d, small=d.flip(), depth=2, stmts=4).program()
    return {"prog": prog, "how": g_how(d, lang.render(prog)),
            "opt": d.flip(70)}


# --- features ----------------------------------------------------------------

STATIC = {"loop", "loop1"}      # registered, not executed


def events(b, ifaces, src):
    vm = run_vm(b, src)
    vm.events.append(("phase", "interfaces"))
    for i in ifaces:
        if i in b.files:
            execute(b, vm=vm, path=i, src=src, undef_ok=True)
    vm.events.append(("phase", "ticks"))
    for _ in range(6):
        if b.tick:
            execute(b, vm=vm, path=b.tick, src=src, undef_ok=True)
        vm.events.append(("tick", ""))
    return [(e[0], e[2] if e[0] == "tellraw" else e[1]) for e in vm.events
            if e[0] != "summon"]


def run_snips(case):
    src = dict(case["src"])
    ifaces = snips.interfaces(src)
    want = events(build(src), ifaces, src)
    alt = moved(src.pop("main.aca"), case["how"])
    alt.update(src)
    b = build(alt, optimizer=case["opt"])
    static.lint(b, False, src=alt)
    same(events(b, ifaces, alt), want, "what happens", alt, b)
    return info(case, len([e for e in want if e[0] != "tick"]))


def g_snips(d):
    names = d.sample(sorted(snips.SNIPS), d.int(1, 3))
    src = snips.compose(names, d)
    return {"src": src, "opt": d.flip(70),
            "how": g_how(d, src["main.aca"], not STATIC & set(names))}


# --- values of every type ----------------------------------------------------

def run_values(case):
    p = case["prog"]
    text = ulang.source(p, 0)
    text = text["main.aca"] if isinstance(text, dict) else text
    src = moved(text, case["how"])
    b = build(src, optimizer=case["opt"])
    static.lint(b, False, src=src)
    vm = run_vm(b, src)
    m = ulang.Model(p)
    m.start()
    for i in case["calls"]:
        if i < len(p["ifs"]):
            m.block(p["ifs"][i], [{}, m.glob])
            execute(b, vm=vm, src=src, path="i%d" % i)
    m.show()
    execute(b, vm=vm, src=src, path="show")
    same([e[2] for e in vm.events if e[0] == "tellraw"], m.out,
         "displayed values", src, b)
    return info(case, len(m.out))


def g_values(d):
    p = ulang.Gen(d).program()
    text = ulang.source(p, 0)
    text = text["main.aca"] if isinstance(text, dict) else text
    return {"prog": p, "how": g_how(d, text), "opt": d.flip(70),
            "calls": [d.int(0, 1) for _ in range(d.int(0, 3))]}


CHECKS = [
    Check("values", g_values, run_values, 2000, 40000),
    Check("programs", g_lang, run_lang, 4000, 80000),
    Check("features", g_snips, run_snips, 2500, 50000),
]
