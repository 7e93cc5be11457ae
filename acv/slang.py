"""Static legality tables of the language, for the rejection property."""

PRE = '''import print
import math
import schedule
import world
entity E:
    x: int
    b: bool
    new():
        new("armor_stand", Pos(1, 2, 3))
    def m(v: int) -> int:
        result v
entity F extends E:
    y: int
    new():
        E.new()
entity H:
    z: int
    new():
        new("armor_stand", Pos(1, 2, 3))
struct S:
    a: int
struct T extends S:
    k: bool
struct U:
    a: int
def fn(v: int) -> int:
    result v
inline def fi(v: int) -> int:
    result v
const def fc(v: int) -> int:
    result v
def fv():
    pass
iv := 3
iw := 4
bv := iv > 2
bw := iv > 7
ge := Engroup[E]()
gf := Engroup[F]()
gh := Engroup[H]()
g0 := Engroup[Entity]()
gx := ExternEngroup()
ge.clear()
gf.clear()
gh.clear()
g0.clear()
gx.clear()
ee := E()
ef := F()
eh := H()
ss := S(a=1)
st := T(a=1, k=True)
su := U(a=1)
const ci = 5
const cs = "k"
const cl = {1, 2}
const cm = {1: 2, "k": 3}
const cp = Pos(1, 2, 3)
'''

# kind -> (expressions, type, is a constant, is assignable)
KINDS = {
    "int_lit": (["3", "-7", "0x1F", "int.MAX", "ci", "(2 + 3)"], "int", 1, 0),
    "int_var": (["iv", "iw", "ee.x", "ss.a", 'scb("a", "b")'], "int", 0, 1),
    "int_expr": (["(iv + 1)", "-iv", "(iv * iw)"], "int", 0, 0),
    "int_call": (["fn(2)", "fi(iv)", "ee.m(3)"], "int", 0, 0),
    "bool_lit": (["True", "False", "(not True)", "(1 < 2)"], "bool", 1, 0),
    "bool_var": (["bv", "bw", "st.k", "ef.b"], "bool", 0, 1),
    "bool_expr": (["(iv > 2)", "(not bv)", "(bv and iv > 1)",
                   "ge.is_empty()", "(bv or bw)"], "bool", 0, 0),
    "str": (['"abc"', '""', "cs", '("a" + "b")', '"${ci}"'], "str", 1, 0),
    "float": (["1.5", "-0.25", "(1 + 0.5)", "float(3)"], "float", 1, 0),
    "none": (["None"], "None", 1, 0),
    "list": (["{1, 2}", "{}", "cl", '{"a"}', "list.range(3)"], "list", 1, 0),
    "map": (["{1: 2}", "{:}", "cm"], "map", 1, 0),
    "pos": (["Pos(1, 2, 3)", "cp", "Pos(ee)", "Pos(1, 2, 3).offset(y=1)"],
            "Pos", 1, 0),
    "abspos": (["AbsPos(1, 2, 3)"], "AbsPos", 1, 0),
    "offset": (["Offset(1, 2, 3)", "Offset()"], "Offset", 1, 0),
    "rot": (["Rot(1, 2)", "Rot(ee)"], "Rot", 1, 0),
    "enf": (["Enfilter()", 'Enfilter().has_tag("a")'], "Enfilter", 1, 0),
    "ent_e": (["ee"], "E", 0, 1),
    "ent_f": (["ef"], "F", 0, 1),
    "ent_h": (["eh"], "H", 0, 1),
    # the object keeps its type, only attributes are looked up in E
    "ent_up": (["upcast(ef, E)"], "F", 0, None),
    "grp_e": (["ge"], "Engroup[E]", 0, 1),
    "grp_f": (["gf"], "Engroup[F]", 0, 1),
    "grp_h": (["gh"], "Engroup[H]", 0, 1),
    "grp_0": (["g0"], "Engroup[Entity]", 0, 1),
    "grp_x": (["gx"], "ExternEngroup", 0, 1),
    "st_s": (["ss"], "S", 0, 1),
    "st_t": (["st"], "T", 0, 1),
    "st_u": (["su"], "U", 0, 1),
    "func": (["fn", "fv"], "function", 1, 0),
    "ifunc": (["fi"], "function", 1, 0),
    "cfunc": (["fc"], "function", 1, 0),
    "bfunc": (["math.pow", "print.tell"], "function", 1, 0),
    "type": (["int", "bool", "Pos", "list"], "type", 1, 0),
    "tmpl": (["E", "F", "Entity"], "template", 1, 0),
    "stmpl": (["S", "T"], "struct", 1, 0),
    "module": (["print", "world"], "module", 1, 0),
    "fstr": (['print.format("a")'], "fstring", 1, 0),
    "task": (["schedule.Task(fv)"], "task", 1, 0),
    "void": (["fv()"], "None", 1, 0),
    "item": (['world.Item("apple")'], "item", 1, 0),
    "block": (['world.Block("stone")'], "block", 1, 0),
}
NAMES = sorted(KINDS)

STORABLE = {"int", "bool", "E", "F", "H", "S", "T", "U", "Engroup[E]",
            "Engroup[F]", "Engroup[H]", "Engroup[Entity]", "Entity",
            "ExternEngroup", "None"}
# names that may be written as a type
SPECS = ["int", "bool", "E", "F", "H", "S", "T", "U", "Engroup[E]",
         "Engroup[F]", "Engroup[H]", "Engroup[Entity]", "Entity",
         "ExternEngroup", "None", "list", "map", "Pos", "AbsPos", "Rot",
         "Offset", "Enfilter", "float", "Any"]
# expressions that are not types
NOSPEC = ["3", "iv", "ee", '"int"', "fn", "print", "ss", "{1}", "Engroup"]

PARENTS = {"F": {"E", "Entity"}, "E": {"Entity"}, "H": {"Entity"},
           "T": {"S"},
           "Engroup[F]": {"Engroup[E]", "Engroup[Entity]"},
           "Engroup[E]": {"Engroup[Entity]"},
           "Engroup[H]": {"Engroup[Entity]"},
           "AbsPos": {"Pos", "Offset"}}


def fits(spec, got):
    """a value of type `got` may be where `spec` is declared"""
    return spec == got or spec == "Any" or spec in PARENTS.get(got, ())


def ty(k):
    return KINDS[k][1]


def const(k):
    return bool(KINDS[k][2])


NUM = ("int", "float")


def binop(op, a, b):
    """`a op b` with a, b kinds -> legal?"""
    ta, tb = ty(a), ty(b)
    if ta == tb == "int":
        return True
    if ta in NUM and tb in NUM:
        return const(a) and const(b)
    if op == "+":
        if ta == tb == "str" or ta == tb == "list":
            return True
        if (ta, tb) in (("fstring", "fstring"), ("fstring", "str"),
                        ("str", "fstring")):
            return True
    if op == "*" and ta == "list" and tb == "int":
        return const(b)
    return False


def compare(op, a, b):
    ta, tb = ty(a), ty(b)
    if ta == tb == "int":
        return True
    if ta == tb == "bool":
        return op in ("==", "!=")
    return False


def unary(op, a):
    if op == "not":
        return ty(a) == "bool"
    return ty(a) in NUM


def augmented(op, a, b):
    """`a op= b`"""
    if KINDS[a][3] == 0:  # not assignable
        return False
    ta, tb = ty(a), ty(b)
    if ta == tb == "int":
        return True
    if op in "+-" and "roup" in ta:
        return fits(ta, tb)
    return False


def iterable(a):
    return ty(a) in ("list", "map") or ty(a).startswith("Engroup") or \
        ty(a) == "ExternEngroup"


def truthy(a):
    return ty(a) == "bool"
