"""Deterministic program fragments that together touch every subsystem.
Used where a property compares two builds of the same program."""

MOD = """
import print
n := 3
def bump(k: int) -> int:
    n += k
    result n
struct P:
    a: int
    b: bool
print.tell("mod loaded")
interface modi:
    n += 10
    print.tell(print.format("modi %0", n))
"""

# name -> (imports, code); codes use disjoint names
SNIPS = {
    "iface": (["print"], """
ic: int = {k}
interface one:
    ic += 1
    print.tell(print.format("one %0", ic))
interface two/sub:
    if ic > {j}:
        print.tell("big")
    else:
        /say two
"""),
    "loop": (["print", "schedule"], """
lc := 0
def on_tick(step: int):
    lc += step
    print.tell(print.format("tick %0", lc))
schedule.register_loop(on_tick, interval={j}, step={k})
"""),
    "loop1": (["print", "schedule"], """
lc1 := 0
def on_tick1():
    lc1 += 1
    if lc1 % 2 == 0:
        /say even
schedule.register_loop(on_tick1)
"""),
    "task": (["print", "schedule"], """
tc := 0
def on_task(v: int):
    tc += v
    print.tell(print.format("task %0", tc))
const tk = schedule.Task(on_task, {k})
tk.after({j})
tb := tk.has_schedule()
print.tell(print.format("sched %0", tb))
"""),
    "hollow": (["print", "schedule"], """
def hf():
    pass
def hff(x: int):
    hf()
inline def hi():
    pass
inline def hii(x: int, const y: int):
    hi()
entity Nil:
    new():
        new(type="armor_stand", pos=Pos(7, 8, {k}))
    virtual def nop():
        pass
    virtual def nop2():
        hf()
    inline def inop():
        pass
    def snop():
        hi()
    static def tnop():
        hf()
entity Nil2 extends Nil:
    override def nop():
        hi()
    override def nop2():
        /say nil {j}
h1: Nil = Nil2()
h1.nop()
h1.nop2()
h1.inop()
h1.snop()
Nil.tnop()
hff({k})
hii({k}, {j})
hx := {k}
const ht = schedule.Task(hi)
ht.after({j})
const ht2 = schedule.Task(hff, {k})
ht2.after({j})
schedule.register_loop(hf)
schedule.register_loop(hii, interval={j}, x={k}, y={j})
if hx > {j}:
    hf()
elif hx == 3:
    hi()
else:
    pass
while hx < -{k}:
    pass
while hx < -{j}:
    hi()
hg := Engroup[Nil]()
for hm in hg:
    hf()
for hn in hg:
    pass
print.tell(print.format("hollow %0", hx))
"""),
    "entity": (["print", "world"], """
entity Base:
    hp: int
    alive: bool
    new(v: int):
        new(type="armor_stand", pos=Pos(1, 2, 3))
        self.hp = v
        self.alive = True
    def hurt(d: int) -> int:
        self.hp -= d
        self.alive = self.hp > 0
        result self.hp
    virtual def kind():
        print.tell("base")
entity Derived extends Base:
    extra: int
    new(v: int):
        Base.new(v * 2)
        self.extra = 7
    override def kind():
        print.tell(print.format("derived %0", self.extra))
e1 := Base({k})
e2: Base = Derived({j})
e1.kind()
e2.kind()
eh := e2.hurt(3)
print.tell(print.format("%0 %1 %2 %3", eh, e1.hp, e1.alive, e2.alive))
e1 = e2
e1.kind()
/say entities
"""),
    "group": (["print", "world"], """
entity Mob:
    score: int
    new():
        new(type="armor_stand", pos=Pos(2, 3, 4))
        self.score = {k}
eg := Engroup[Mob]()
m1 := Mob()
m2 := Mob()
eg.add(m1)
eg.add(m2)
for mb in eg:
    mb.score += {j}
    print.tell(print.format("mob %0", mb.score))
eg.remove(m1)
gb := eg.has(m1)
gn := eg.size()
print.tell(print.format("%0 %1", gb, gn))
eg2 := Engroup[Entity]()
eg2.select(Enfilter().is_type("armor_stand").distance_from(Pos(0, 0, 0), max=50))
print.tell(print.format("sel %0", eg2.size()))
world.move(m2, y={j})
"""),
    "world": (["world"], """
world.setblock(Pos(1, {k}, 2), "stone")
world.fill(Pos(0, 0, 0), Offset(x=+{j}, y=+1, z=+1), world.Block("concrete", {"color": "yellow"}))
wb := world.is_block(Pos(1, 2, 3), "air")
if wb:
    /say air
"""),
    "module": (["print", "mod"], """
mv := mod.bump({k})
mq := mod.P(a=mv, b=True)
print.tell(print.format("mod %0 %1 %2", mv, mod.n, mq.a))
def use_mod():
    mod.n += {j}
use_mod()
use_mod()
print.tell(print.format("%0", mod.n))
"""),
    "const": (["print"], """
const def tri(n: int) -> int:
    acc := 0
    for i in list.range(n):
        acc += i
    result acc
const names = {"a": tri({k}), "b": tri({j})}
for nm in names:
    print.tell(nm)
    cv0 := names[nm]
    print.tell(print.format("%0", cv0))
"""),
    "text": (["print"], """
tx := {k}
ts := {j}
print.tell(print.format("%0 and %{name}! %%", tx, name=ts + 1))
print.title("Hello \\"world\\"", stay_time={j})
print.tell(print.format("%0 %1", tx, print.translate("key.a")))
/say raw ${"text"} ${tri2}
"""),
}
# fragments that need a prelude constant
PRE = {"text": "const tri2 = 5\n"}


def compose(names, d):
    """(sources, tags) of a program made of the given fragments"""
    imports = []
    code = []
    for n in names:
        imp, c = SNIPS[n]
        imports += [i for i in imp if i not in imports]
        c = c.replace("{k}", str(d.int(1, 9))).replace(
            "{j}", str(d.int(2, 6)))
        code.append(PRE.get(n, "") + c)
    text = "".join("import %s\n" % i for i in imports) + "".join(code)
    src = {"main.aca": text}
    if "mod" in imports:
        src["mod.aca"] = MOD
    return src


def interfaces(src):
    """interface paths declared by a program"""
    import re
    res = []
    for t in src.values():
        res += re.findall(r"^interface ([^:\n]+):", t, re.M)
    return res


def full_run(b, ifaces, ticks=6, setup=None):
    """init, main, every interface, some ticks, main again, ticks.
    Returns the VM."""
    from .h import execute
    from .mcvm import VM

    vm = VM(b.files)
    p = vm.add_ent("player", name="Steve", pos=(5.0, 64.0, 5.0))
    vm.add_ent("armor_stand", name="x", pos=(500.0, 64.0, 5.0))
    if setup:
        setup(vm)
    root = b.cfg.root_folder + "/" if b.cfg.root_folder else ""

    def go(path):
        vm.events.append(("phase", path[len(root):] if path.startswith(root)
                          else path))
        if path in b.files:
            execute(b, vm=vm, path=path, undef_ok=True)

    if b.init:
        execute(b, vm=vm, path=b.init, undef_ok=True)
    for round_ in range(2):
        vm.events.append(("phase", "main"))
        execute(b, vm=vm, path=b.main, undef_ok=True)
        for i in ifaces:
            go(root + i)
        for k in range(ticks):
            vm.events.append(("phase", "tick"))
            if b.tick:
                execute(b, vm=vm, path=b.tick, undef_ok=True)
    return vm
