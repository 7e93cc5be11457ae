From fef27d652b478a39a2a28e789c1314eccf54ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 01/65] fix: arithmetic between int variables and compound int
 expressions

a + b * c, a - b * c, -a and a += b * c crashed the compiler or were
rejected, because the compiler argument was not passed along and the
arguments of _r_sub_div_mod were in the wrong order.
---
 acaciamc/objects/integer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 8bfe8c7..f4aafd1 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -353,11 +353,12 @@ class IntVar(VarValue):
         """
         # In this condition, we convert a (op)= b to a = a (op) b
         ## Calculate
-        value = getattr(self, STR2METHOD[operator])(other, compiler)
+        group = IntOpGroup.from_intexpr(self)
+        value = getattr(group, STR2METHOD[operator])(other, compiler)
         ## Export
         tmp = IntVar.new(compiler, tmp=True)
         res = value.export(tmp, compiler)
-        res.extend(tmp.export(self))
+        res.extend(tmp.export(self, compiler))
         return res
 
     iadd = partialmethod(_iadd_sub, '+')
@@ -527,7 +528,7 @@ class IntOpGroup(AcaciaExpr):
 
     def unaryneg(self, compiler):
         # -expr = expr * (-1)
-        return self.mul(compiler.add_int_const(-1))
+        return self.mul(compiler.add_int_const(-1), compiler)
 
     ## BINARY (SELF ... OTHER) OPERATORS
 
@@ -558,10 +559,10 @@ class IntOpGroup(AcaciaExpr):
     def _r_add_mul(self, name: str, other, compiler):
         # a (+ or *) b is b (+ or *) a
         if isinstance(other, (IntLiteral, IntVar)):
-            return getattr(self, name)(other)
+            return getattr(self, name)(other, compiler)
         raise InvalidOpError
 
-    def _r_sub_div_mod(self, other, name, compiler):
+    def _r_sub_div_mod(self, name: str, other, compiler):
         # Convert `other` to `IntOpGroup` and use this to handle this
         # operation.
         if isinstance(other, (IntLiteral, IntVar)):
-- 
2.43.0


From b18fe4f3f89d3ac563076c07cd9d9144e61207bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 02/65] fix: comparing a bool literal with a non-bool, and two
 compound bools

BoolLiteral.compare returned None for an operand that is not a bool,
which crashed the compiler; _bool_compare did not know NotWildBool on
its right side, so that '(a or b) == (c or d)' was rejected.
---
 acaciamc/objects/boolean.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index c28d029..ba5ea36 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -64,7 +64,7 @@ def _bool_compare(self: AcaciaExpr, op: Operator, other: AcaciaExpr, compiler):
     elif isinstance(other, NotBoolVar):
         slot2 = other.slot
         invert = not invert
-    elif isinstance(other, (CompareBase, WildBool)):
+    elif isinstance(other, (CompareBase, WildBool, NotWildBool)):
         _dep, other_var = to_BoolVar(other, compiler)
         dep.extend(_dep)
         slot2 = other_var.slot
@@ -162,6 +162,7 @@ class BoolLiteral(ConstExprCombined):
         true = self.value == (op is Operator.equal_to)
         if self.data_type.is_type_of(other):
             return other if true else other.unarynot(compiler)
+        raise InvalidOpError
 
     def ccompare(self, op: Operator, other: "CTObj"):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From 088465d63096f5db3f0f2cc1ddb3671e08e180a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 03/65] fix: never emit invalid score ranges for comparisons

'x > int.MAX' produced a range bound beyond 32 bits, and merging the
ranges of two and-groups could produce a reversed range.
---
 acaciamc/objects/boolean.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index ba5ea36..cce4bc0 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -289,6 +289,14 @@ class ScbMatchesCompare(CompareBase):
 
     def as_execute(self, compiler) -> Tuple[CMDLIST_T, List["_ExecuteSubcmd"]]:
         res = []
+        if (
+            (self.operator is Operator.greater and self.literal == INT_MAX)
+            or (self.operator is Operator.less and self.literal == INT_MIN)
+        ):
+            # Always False; the range below would exceed int limits.
+            return self.dependencies.copy(), [cmds.ExecuteScoreMatch(
+                self.slot, '%d..' % INT_MIN, invert=True
+            )]
         match_range = {
             Operator.greater: '%d..' % (self.literal + 1),
             Operator.greater_equal: '%d..' % self.literal,
@@ -441,6 +449,8 @@ def new_and_group(operands: List[AcaciaExpr], compiler) -> AcaciaExpr:
                 rng = ranges.setdefault(slot, [INT_MIN, INT_MAX])
                 rng[0] = max(min_, rng[0])
                 rng[1] = min(max_, rng[1])
+                if rng[0] > rng[1]:  # must be False
+                    return BoolLiteral(False)
             operand = None
         elif isinstance(operand, NotWildBool):
             # `a and not (b and c)` needs a tmp var:
-- 
2.43.0


From 350c7ae9dde5835231ac490bcf7fa47abc285d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 04/65] fix: both branches of an if may run when the condition
 is a variable

'if y: y = False else: ...' ran the else branch too, because the
variable itself was tested again after the then branch.
---
 acaciamc/mccmdgen/generator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 03766b8..27294f2 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -407,7 +407,15 @@ class Generator(ASTVisitor):
             )
             return
         # Fallback
-        dep, condition_var = to_BoolVar(condition, self.compiler, tmp=False)
+        if has_then and has_else and isinstance(condition, BoolVar):
+            # "then" branch may modify the variable that is used as the
+            # condition, so test a copy of it.
+            condition_var = BoolVar.new(self.compiler)
+            dep = condition.export(condition_var, self.compiler)
+        else:
+            dep, condition_var = to_BoolVar(
+                condition, self.compiler, tmp=False
+            )
         self.current_file.extend(dep)
         if has_then:
             self.current_file.write(cmds.Execute(
-- 
2.43.0


From 9ea504cd1c0f138bbf1974bf7bbcea286cc8d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 05/65] fix: re-evaluate the whole condition of a while loop
 every iteration

Commands written when visiting the condition (such as a function call)
were only placed before the loop, so later iterations tested a stale
value.
---
 acaciamc/mccmdgen/generator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 27294f2..9b529fc 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -168,7 +168,7 @@ class Generator(ASTVisitor):
     def set_mcfunc_file(self, file: cmds.MCFunctionFile):
         old = self.current_file
         self.current_file = file
-        yield
+        yield file
         self.current_file = old
 
     @contextlib.contextmanager
@@ -430,7 +430,10 @@ class Generator(ASTVisitor):
 
     def visit_While(self, node: While):
         # condition
-        condition: AcaciaExpr = self.visit(node.condition)
+        # The commands written when visiting it (e.g. a function call)
+        # are needed every time the condition is tested.
+        with self.set_mcfunc_file(cmds.MCFunctionFile()) as cond_file:
+            condition: AcaciaExpr = self.visit(node.condition)
         if not condition.data_type.matches_cls(BoolDataType):
             self.error_c(ErrorType.WRONG_WHILE_CONDITION,
                          got=str(condition.data_type))
@@ -444,6 +447,7 @@ class Generator(ASTVisitor):
         if isinstance(condition, BoolLiteral):
             # optimize when condition is known at compile time
             if condition.value is False:
+                self.current_file.extend(cond_file.commands)
                 self.write_debug(
                     'Skipped because the condition always evaluates to False'
                 )
@@ -456,8 +460,11 @@ class Generator(ASTVisitor):
         else:
             dep, cond_var = to_BoolVar(condition, self.compiler, tmp=False)
             subcmds = [cmds.ExecuteScoreMatch(cond_var.slot, "1")]
+        dep = cond_file.commands + dep
         # triggering the function
-        if body_file.has_content():
+        if body_file.has_content() or cond_file.has_content():
+            if not body_file.has_content():
+                self.compiler.add_file(body_file)
             body_file.write_debug('## Part 2. Recursion')
             for file in (body_file, self.current_file):
                 file.extend(dep)
-- 
2.43.0


From 1e12cea66a407d1570f08fc3c5eecad1e1b43121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 06/65] fix: concatenated fstrings lose or clobber expression
 values

fstring + fstring dropped the commands that compute the expressions of
the right operand, and expressions of fstrings made in different
statements could share one temporary score.
---
 acaciamc/modules/print.py   | 1 +
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/integer.py | 3 ++-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index d8771ce..6fe0515 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -168,6 +168,7 @@ class FString(ConstExprCombined):
             res.rawtext.append(cmds.RawtextText(other.value))
         elif isinstance(other, FString):
             res.rawtext.extend(other.rawtext)
+            res.dependencies.extend(other.dependencies)
         else:
             raise InvalidOpError
         return res
diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index cce4bc0..a9c7864 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -99,7 +99,8 @@ def _export_bool(subcmds: List["_ExecuteSubcmd"], var: "BoolVar",
 
 def _bool_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for bool."""
-    dependencies, var = to_BoolVar(self, compiler)
+    # `tmp=False` because an fstring might outlive the statement.
+    dependencies, var = to_BoolVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class BoolDataType(DefaultDataType, Storable, SupportsEntityField):
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index f4aafd1..65bbe34 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -104,7 +104,8 @@ STR2PYINTOP: Dict[str, Callable[[int, int], int]] = {
 
 def _int_rawtextify(self: AcaciaExpr, compiler: "Compiler"):
     """A generic `rawtextify` implementation for int."""
-    dependencies, var = to_IntVar(self, compiler)
+    # `tmp=False` because an fstring might outlive the statement.
+    dependencies, var = to_IntVar(self, compiler, tmp=False)
     return [cmds.RawtextScore(var.slot)], dependencies
 
 class IntDataType(DefaultDataType, Storable, SupportsEntityField):
-- 
2.43.0


From d63d7c8a77ca76c8ed4998d284a38458956a11bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:12 +0000
Subject: [PATCH 07/65] fix: constructing into an existing variable must read
 its old value first

`p = P(x=p.y, y=p.x)` and `e = E(e.x)` clobbered the target before the
arguments were read. Also constructing a derived struct into a variable of
its base struct raised KeyError.
---
 acaciamc/mccmdgen/generator.py      | 10 +++++++---
 acaciamc/objects/struct_template.py |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 9b529fc..e7b1c08 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -234,7 +234,7 @@ class Generator(ASTVisitor):
         var = dt.new_var(self.compiler)
         self.register_symbol(node.target, var)
         if node.value is not None:
-            self._assign(var, node.value)
+            self._assign(var, node.value, is_fresh=True)
 
     def visit_AutoVarDef(self, node: AutoVarDef):
         is_ctor: bool = False
@@ -258,7 +258,9 @@ class Generator(ASTVisitor):
         if value is not None and not is_ctor:
             self.current_file.extend(value.export(var, self.compiler))
 
-    def _assign(self, target: AcaciaExpr, value_node: Expression):
+    def _assign(self, target: AcaciaExpr, value_node: Expression,
+                is_fresh=False):
+        # `is_fresh`: `target` has not been assigned to before.
         if not target.is_assignable():
             self.error_c(ErrorType.INVALID_ASSIGN_TARGET)
         value_type: Optional[DataType] = None
@@ -266,7 +268,9 @@ class Generator(ASTVisitor):
         # analyze rvalue
         if isinstance(value_node, Call):
             func, table = self._call_inspect(value_node)
-            if isinstance(func, ConstructorFunction):
+            if is_fresh and isinstance(func, ConstructorFunction):
+                # Constructing in place is only possible when the
+                # arguments can't depend on the old value of `target`.
                 value_type, ctor_kwds = \
                     func.pre_initialize(*table, self.compiler)
             else:
diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 71ef4a7..19b4afc 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -65,7 +65,9 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
         def _call_me(compiler, **fields: Optional[AcaciaExpr]):
             commands = []
             for name, value in fields.items():
-                if value is None:
+                # `instance` may be of a base template and thus lack some
+                # of our fields.
+                if value is None or name not in instance.vars:
                     continue
                 commands.extend(value.export(instance.vars[name], compiler))
             return resultlib.commands(commands)
-- 
2.43.0


From b16ca849b8b8ab93263c2b00938c573046f571e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 08/65] fix: overriding or inheriting virtual methods from any
 base, not only the first

---
 acaciamc/objects/entity_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 054ec5a..179b495 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -340,7 +340,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                     raise Error(ErrorType.OVERRIDE_QUALIFIER,
                                 got=qualifier.localized, name=method)
                 _check_override(implementation, method)
-                disp = parent.method_dispatchers[method]
+                disp = m_virtual[method]
                 self.method_dispatchers[method] = disp
                 disp.register(self, implementation)
                 continue
@@ -373,7 +373,9 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
             if method not in self.method_dispatchers:
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
-                disp.register_inherit(self, parent)
+                disp.register_inherit(self, next(
+                    t for t in self.mro_[1:] if method in t.method_dispatchers
+                ))
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
                 # Inherited simple methods
-- 
2.43.0


From ebe3509b2714021b180c2b04f15c17b30b69930e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 09/65] fix: parameter names must be identifiers

---
 acaciamc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/parser.py b/acaciamc/parser.py
index 41f886e..b04ddab 100644
--- a/acaciamc/parser.py
+++ b/acaciamc/parser.py
@@ -937,7 +937,7 @@ class Parser:
             qualifier = self._func_port_qualifier(allowed_ports)
             # read name
             name = self.current_token.value
-            self.eat()  # eat identifier
+            self.eat(TokenType.identifier)
             # read type
             type_ = None
             if self.current_token.type is TokenType.colon:
-- 
2.43.0


From d81f1123a18b19f8558347b6b21605f25ffe3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 10/65] fix: internal error on "%{}" in print.format

---
 acaciamc/modules/print.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 6fe0515..206475f 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -78,7 +78,7 @@ class _FStrParser:
         """Get the expr from an format
         e.g. "0" -> args[0]; "key" -> keywords["key"]
         """
-        if all(c in DIGITS for c in name):
+        if name and all(c in DIGITS for c in name):
             index = int(name)
             try:
                 expr = self.args[index]
-- 
2.43.0


From 9a7087217151f616fe2dac303065365df70d78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 11/65] fix: with_font must not apply the outer font to nested
 with_font text

---
 acaciamc/modules/print.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/modules/print.py b/acaciamc/modules/print.py
index 206475f..168eed6 100644
--- a/acaciamc/modules/print.py
+++ b/acaciamc/modules/print.py
@@ -285,8 +285,9 @@ def _with_font(compiler: "Compiler", text: FString, color: str,
         if isinstance(component, _FontComponent):
             if component.label == "start":
                 start_levels += 1
-                if start_levels == 1 and i > start_i:
-                    scopes.append((start_i, i))
+                if start_levels == 1:
+                    if i > start_i:
+                        scopes.append((start_i, i))
                     start_i = -1
             if component.label == "end":
                 start_levels -= 1
-- 
2.43.0


From da8435233fe0991d19a6b6358b9cff680f8be6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 12/65] fix: internal error on zero steps of list.range and
 slice

---
 acaciamc/lang/en_US.lang  | 1 +
 acaciamc/objects/list_.py | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index b8cd93a..0e58e04 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -435,6 +435,7 @@ objects.function.bvm.dispatcher = <dispatcher of virtual method %s>
 ## (common use) ##
 
 objects.function.unknown = <unknown>
+objects.list.zerostep = step can't be 0
 
 ### generator.py ###
 
diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index bb0b0c7..b894e5d 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -21,6 +21,7 @@ from acaciamc.mccmdgen.expr import *
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTObj, CTObjPtr, CTDataType
 from acaciamc.mccmdgen.utils import InvalidOpError
+from acaciamc.localization import localize
 
 if TYPE_CHECKING:
     from acaciamc.mccmdgen.ctexpr import CTExpr
@@ -31,6 +32,10 @@ class ListDataType(DefaultDataType):
 ctdt_constlist = CTDataType("const_list")
 ctdt_list = CTDataType("list", (ctdt_constlist,))
 
+def _check_step(step: int):
+    if step == 0:
+        raise axe.ArgumentError("step", localize("objects.list.zerostep"))
+
 class ListType(Type):
     def do_init(self):
         @cmethod_of(self, "range")
@@ -56,6 +61,7 @@ class ListType(Type):
             @axe.arg("stop", axe.LiteralInt())
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start: int, stop: int, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "__new__")
         @axe.chop
@@ -128,6 +134,7 @@ class AcaciaList(ConstExpr):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
@@ -205,6 +212,7 @@ class CTConstList(CTObj):
             @axe.arg("stop", axe.Nullable(axe.LiteralInt()))
             @axe.arg("step", axe.LiteralInt())
             def full(cls, compiler, start, stop, step: int):
+                _check_step(step)
                 return cls._impl(start, stop, step)
         @cmethod_of(self, "cycle")
         @axe.chop
-- 
2.43.0


From 1642880a47a3bb298f74513ba3025c32b967d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 13/65] fix: internal error on extremely long integer literals

---
 acaciamc/tokenizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/acaciamc/tokenizer.py b/acaciamc/tokenizer.py
index 0758b6d..297a6ab 100644
--- a/acaciamc/tokenizer.py
+++ b/acaciamc/tokenizer.py
@@ -579,7 +579,10 @@ class Tokenizer:
         else:  # integer
             if not res:
                 self.error(ErrorType.INTEGER_REQUIRED, base=base)
-            value = int(''.join(res), base=base)
+            try:
+                value = int(''.join(res), base=base)
+            except ValueError:  # Python limits the length of literals
+                self.error(ErrorType.INT_OVERFLOW, ln, col)
             return Token(TokenType.integer, value=value, lineno=ln, col=col)
 
     def handle_name(self):
-- 
2.43.0


From b923854bef04faad6585b3f0aaabaafa0ea717b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 14/65] fix: internal error on source files that can't be
 decoded

---
 acaciamc/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index ab6c4e3..a84fe1f 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -439,6 +439,8 @@ class Compiler:
             if not err.location.file_set():
                 err.location.file = path
             raise
+        except UnicodeDecodeError as err:
+            self.raise_error(Error(ErrorType.IO, message=str(err)))
         finally:
             src_file.close()
         self.current_generator = Generator(
-- 
2.43.0


From 44f6d402ce246d2f470780e4703599fbd51f6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 15/65] fix: interface paths could escape the output folder or
 overwrite reserved files

---
 acaciamc/error.py              | 1 +
 acaciamc/lang/en_US.lang       | 1 +
 acaciamc/mccmdgen/generator.py | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/acaciamc/error.py b/acaciamc/error.py
index fabea2c..b027698 100644
--- a/acaciamc/error.py
+++ b/acaciamc/error.py
@@ -146,6 +146,7 @@ class ErrorType(LocalizedEnum):
     INTERFACE_PATH_SLASH_START = "error.errortype.interfacepathslashstart"
     INTERFACE_PATH_SLASH_END = "error.errortype.interfacepathslashend"
     INTERFACE_PATH_DOUBLE_SLASH = "error.errortype.interfacepathdoubleslash"
+    INTERFACE_PATH_DOTS = "error.errortype.interfacepathdots"
     INTERFACE_PATH_INVALID_CHAR = "error.errortype.interfacepathinvalidchar"
     # Compiler
     IO = "error.errortype.io"
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 0e58e04..62fa379 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -218,6 +218,7 @@ error.errortype.duplicateinterface = Multiple definitions of interface: {path}
 error.errortype.interfacepathslashstart = An interface path cannot start with a slash
 error.errortype.interfacepathslashend = An interface path cannot end with a slash
 error.errortype.interfacepathdoubleslash = Double slashes found in interface path
+error.errortype.interfacepathdots = "." and ".." are not allowed in interface path
 error.errortype.interfacepathempty = Empty interface path
 error.errortype.interfacepathinvalidchar = Invalid character {char!r} in interface path
 error.errortype.io = I/O Error: {message}
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index e7b1c08..e93492f 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -493,6 +493,8 @@ class Generator(ASTVisitor):
             self.error_c(ErrorType.INTERFACE_PATH_SLASH_END)
         if '//' in path:
             self.error_c(ErrorType.INTERFACE_PATH_DOUBLE_SLASH)
+        if any(part in (".", "..") for part in path.split("/")):
+            self.error_c(ErrorType.INTERFACE_PATH_DOTS)
         for c in path:
             if c not in FUNCTION_PATH_CHARS:
                 self.error_c(ErrorType.INTERFACE_PATH_INVALID_CHAR, char=c)
-- 
2.43.0


From 49df06bd6ec11803a36d03bf077e62413c776fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 16/65] fix: negated and malformed integer ranges in entity
 filters

"!1..2" lost its negation and "1..2..3" caused an internal error.
---
 acaciamc/objects/entity_filter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index a893ae4..5538323 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -46,11 +46,13 @@ class IntRange(axe.AnyOf):
         if isinstance(origin_py, int):
             return str(origin_py)
         assert isinstance(origin_py, str)
-        origin_py = origin_py.lstrip()
+        origin_py = origin_py.strip()
+        prefix = ""
         if origin_py.startswith("!"):
-            origin_py = origin_py[1:]
+            prefix = "!"
+            origin_py = origin_py[1:].strip()
         if ".." in origin_py:
-            min_, max_ = origin_py.split("..")
+            min_, _, max_ = origin_py.partition("..")
             min_ = min_.strip()
             max_ = max_.strip()
             if not min_ and not max_:
@@ -58,10 +60,10 @@ class IntRange(axe.AnyOf):
             if (min_ and not self.check_int(min_)
                 or max_ and not self.check_int(max_)):
                 self.wrong_argument()
-            return "%s..%s" % (min_, max_)
+            return "%s%s..%s" % (prefix, min_, max_)
         else:
             if self.check_int(origin_py):
-                return origin_py
+                return prefix + origin_py
             else:
                 self.wrong_argument()
 
-- 
2.43.0


From 698caefffc51b51f951c61d3888de9cfd897b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 17/65] fix: entity filters after a limiting filter must select
 among its result

---
 acaciamc/objects/entity_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index 5538323..ade983b 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -400,7 +400,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_selector_var(
         self, compiler, var: SELECTORVAR_T
     ) -> MCSelector:
-        if self.data[-1].selector.is_var_set():
+        if self.next_use_new_data or self.data[-1].selector.is_var_set():
             self._new_data(compiler)
         res = self.data[-1].selector
         res.var = var
@@ -409,7 +409,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
     def need_set_context(
         self, compiler, *context: "_ExecuteSubcmd"
     ) -> MCSelector:
-        if self.context_occupied:
+        if self.next_use_new_data or self.context_occupied:
             self._new_data(compiler)
         self.data[-1].subcmds.extend(context)
         self.context_occupied = True
-- 
2.43.0


From b14f1bec79f48de7f0e621ca7e05b9e8db4dc388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 18/65] fix: Enfilter.random selected type None when the type
 is inferred

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index ade983b..e243b83 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -141,7 +141,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
                             % (type_, self.entity_type)
                     )
             if not selector.has_arg("type"):
-                selector.type(type_)
+                selector.type(self.entity_type)
             selector.limit(limit)
             # There should be a difference between these two:
             # (Supporse there are more than 5 entities with name "xxx")
-- 
2.43.0


From 4107feefbb90ba0786b5a96d419086e584dc9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 19/65] fix: Enfilter.is_game_mode forgot the game mode
 required before

---
 acaciamc/objects/entity_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/entity_filter.py b/acaciamc/objects/entity_filter.py
index e243b83..5337e8e 100644
--- a/acaciamc/objects/entity_filter.py
+++ b/acaciamc/objects/entity_filter.py
@@ -321,7 +321,7 @@ class EntityFilter(ConstExprCombined, ImmutableMixin):
         @axe.arg("mode", axe.LiteralString())
         @transform_immutable(self)
         def _is_game_mode(self: EntityFilter, compiler, mode: str):
-            selector = self.last_selector(compiler)
+            selector = self.new_if_got(compiler, "m")
             selector.game_mode(mode)
             self.entity_type = PLAYER
             return self
-- 
2.43.0


From 5ad00a56da0a7173b0f0047d56c32170b892dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 20/65] fix: copying an entity reference left an empty tag
 argument in its selector

---
 acaciamc/mccmdgen/mcselector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/mcselector.py b/acaciamc/mccmdgen/mcselector.py
index c0f0d62..3361e79 100644
--- a/acaciamc/mccmdgen/mcselector.py
+++ b/acaciamc/mccmdgen/mcselector.py
@@ -30,9 +30,8 @@ class MCSelector:
     def get_tags(self) -> List[str]:
         """
         Return the list of tags in the selector.
-        Modifying the returned list will modify the selector.
         """
-        return self.args.setdefault("tag", [])
+        return list(self.args.get("tag", ()))
 
     @staticmethod
     def arg_to_str(arg: str, value):
-- 
2.43.0


From 4e0137f4cad9a359bd7d3a61e264996bd74fc260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 21/65] fix: compile time map keys 1, 1.0 and True must be
 distinct

---
 acaciamc/objects/boolean.py | 3 ++-
 acaciamc/objects/float_.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index a9c7864..6b24f68 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -153,7 +153,8 @@ class BoolLiteral(ConstExprCombined):
         return [cmds.RawtextText("1" if self.value else "0")], []
 
     def chash(self):
-        return self.value
+        # Include type since 1.0, 1 and True are equal in Python.
+        return (bool, self.value)
 
     def compare(self, op: Operator, other: AcaciaExpr, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
diff --git a/acaciamc/objects/float_.py b/acaciamc/objects/float_.py
index c86c08c..36da0dd 100644
--- a/acaciamc/objects/float_.py
+++ b/acaciamc/objects/float_.py
@@ -44,7 +44,8 @@ class Float(ConstExprCombined):
         return str(self)
 
     def chash(self):
-        return self.value
+        # Include type since 1.0, 1 and True are equal in Python.
+        return (float, self.value)
 
     @classmethod
     def from_int(cls, integer: IntLiteral):
-- 
2.43.0


From 5a89e405cb0956b947c34d26a5ad6643df9a8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 22/65] fix: endless loop when extending a compile time list
 with itself

---
 acaciamc/objects/list_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index b894e5d..57423b0 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -260,7 +260,7 @@ class CTList(CTConstList):
         @axe.arg("values", axe.CTIterator())
         @axe.slash
         def _extend(compiler, values: List["CTExpr"]):
-            self.ptrs.extend(map(self._new_element, values))
+            self.ptrs.extend(list(map(self._new_element, values)))
         @cmethod_of(self, "append", runtime=False)
         @axe.chop
         @axe.arg("value", axe.Constant())
-- 
2.43.0


From eb5fcc66b9ddcc5e0f141a8e313e06ef25496269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 23/65] fix: versionlib.older accepted newer versions instead
 of older ones

---
 acaciamc/tools/versionlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/versionlib.py b/acaciamc/tools/versionlib.py
index 798ac4c..7517f58 100644
--- a/acaciamc/tools/versionlib.py
+++ b/acaciamc/tools/versionlib.py
@@ -67,7 +67,7 @@ class VersionLower(VersionRequirement):
         return "<%s" % format_version(self.version)
 
     def validate(self, version: VERSION_T) -> bool:
-        return self.version < version
+        return version < self.version
 
 def at_least(version: VERSION_T) -> VersionRequirement:
     """Requires >= the given version."""
-- 
2.43.0


From e33f562ab0e723c7be86907e3451b006f829a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 24/65] fix: schedule.register_loop with a compound interval

---
 acaciamc/modules/schedule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 2e00f21..1b11809 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -217,6 +217,12 @@ def register_loop(compiler: "Compiler", target: AcaciaCallable,
     init_cmds = [cmds.ScbSetConst(timer.slot, 0)]
     # Tick loop
     ## Call on times up AND reset timer
+    if not isinstance(interval, (IntLiteral, IntVar)):
+        # `timer` is checked before every command, so it must not be
+        # changed by anything but the last one.
+        interval_var = IntVar.new(compiler)
+        tick_commands.extend(interval.export(interval_var, compiler))
+        interval = interval_var
     tick_commands.extend(interval.export(timer, compiler))
     compiler.file_tick.extend(
         cmds.execute(
-- 
2.43.0


From 36788fba1615c635ba039268b7247fa5b954279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 25/65] fix: order of optimized files depended on memory
 addresses

---
 acaciamc/mccmdgen/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/optimizer.py b/acaciamc/mccmdgen/optimizer.py
index 8345daf..57f5805 100644
--- a/acaciamc/mccmdgen/optimizer.py
+++ b/acaciamc/mccmdgen/optimizer.py
@@ -41,7 +41,8 @@ class Optimizer(cmds.FunctionsManager, metaclass=ABCMeta):
                 _visit(ref)
         for file in self.entry_files():
             _visit(file)
-        self.files = list(visited)
+        # Keep the order so that the output is deterministic.
+        self.files = [file for file in self.files if file in visited]
 
     @property
     @abstractmethod
-- 
2.43.0


From 124bef1924d26272d0ee0b5cefa13fc8aaee6f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 26/65] fix: optimizer and int expressions must consider scores
 that may alias

Scores selected by selectors may be the same score, and raw commands may
modify scores or change what a selector selects.
---
 acaciamc/mccmdgen/cmds.py   | 52 +++++++++++++++++++++++++++++--------
 acaciamc/modules/math.py    |  2 +-
 acaciamc/objects/integer.py |  2 +-
 3 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 33069a3..893fa65 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -42,6 +42,19 @@ class ScbSlot(NamedTuple):
             mc_str(self.objective)
         )
 
+    def may_alias(self, other: "ScbSlot") -> bool:
+        """
+        Return whether two slots may refer to the same score. What a
+        selector selects is only known at runtime.
+        """
+        if self.objective != other.objective:
+            return False
+        return (self.target == other.target
+                or self.is_selector() or other.is_selector())
+
+    def is_selector(self) -> bool:
+        return self.target.startswith("@") or self.target == "*"
+
 class Command(metaclass=ABCMeta):
 
     is_debug = False  # only write when -d is set
@@ -82,6 +95,20 @@ class Cmd(Command):
     def resolve(self) -> str:
         return self.value
 
+    def _may_use_scores(self) -> bool:
+        # These commands may have been written by the user.
+        return self.value.split(maxsplit=1)[:1] in (
+            ["scoreboard"], ["execute"], ["function"],
+            ["tellraw"], ["titleraw"]
+        )
+
+    def scb_did_read(self, slot: ScbSlot) -> bool:
+        return self._may_use_scores()
+
+    def scb_did_assign(self, slot: ScbSlot) -> bool:
+        # Other commands (e.g. /tag) may change what is selected.
+        return slot.is_selector() or self._may_use_scores()
+
 class ScbSetConst(Command):
     def __init__(self, target: ScbSlot, value: int):
         self.target = target
@@ -93,7 +120,7 @@ class ScbSetConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbAddConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -106,7 +133,7 @@ class ScbAddConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbRemoveConst(Command):
     def __init__(self, target: ScbSlot, value: int):
@@ -119,7 +146,7 @@ class ScbRemoveConst(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbOp(Enum):
     ADD_EQ = "+="
@@ -147,15 +174,17 @@ class ScbOperation(Command):
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (slot.may_alias(self.operand1)
+                    or slot.may_alias(self.operand2))
         else:
-            return slot == self.operand1
+            return slot.may_alias(self.operand1)
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
         if self.operator is ScbOp.SWAP:
-            return slot == self.operand1 or slot == self.operand2
+            return (slot.may_alias(self.operand1)
+                    or slot.may_alias(self.operand2))
         else:
-            return slot == self.operand2
+            return slot.may_alias(self.operand2)
 
 class ScbRandom(Command):
     def __init__(self, target: ScbSlot, min_: int, max_: int):
@@ -170,7 +199,7 @@ class ScbRandom(Command):
         )
 
     def scb_did_assign(self, slot: ScbSlot) -> bool:
-        return slot == self.target
+        return slot.may_alias(self.target)
 
 class ScbObjAdd(Command):
     def __init__(self, name: str, display_name: Optional[str] = None):
@@ -377,7 +406,8 @@ class ExecuteScoreComp(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand1 or slot == self.operand2
+        return (slot.may_alias(self.operand1)
+                or slot.may_alias(self.operand2))
 
     def resolve(self) -> str:
         return "%s score %s %s %s" % (
@@ -395,7 +425,7 @@ class ExecuteScoreMatch(_ExecuteSubcmd):
         self.invert = invert
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot == self.operand
+        return slot.may_alias(self.operand)
 
     def resolve(self) -> str:
         return "%s score %s matches %s" % (
@@ -549,7 +579,7 @@ class RawtextOutput(Command):
         )
 
     def scb_did_read(self, slot: ScbSlot) -> bool:
-        return slot in self.score_slots
+        return any(map(slot.may_alias, self.score_slots))
 
 class TitlerawTimes(Command):
     def __init__(self, player: str, fade_in: int, stay: int, fade_out: int):
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 4a448fc..71dbf71 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -36,7 +36,7 @@ class IntXOpSelf(IntOp):
         self.x = x
 
     def scb_did_assign(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.x
+        return slot.may_alias(self.x)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(STR2SCBOP[self.op], self.x, var.slot)]
diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index 65bbe34..c03fd5d 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -427,7 +427,7 @@ class IntOpVar(IntOp):
         self.slot = slot
 
     def scb_did_read(self, slot: cmds.ScbSlot) -> bool:
-        return slot == self.slot
+        return slot.may_alias(self.slot)
 
     def resolve(self, var: IntVar) -> CMDLIST_T:
         return [cmds.ScbOperation(self.op, var.slot, self.slot)]
-- 
2.43.0


From e5be97c1b606cf7bd0f066c92ca706b321ee13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 27/65] fix: which of several same-named modules is imported
 depended on directory order

---
 acaciamc/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index a84fe1f..adad9e0 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -332,7 +332,7 @@ class Compiler:
                 # meaning this `root` is invalid; continue
                 continue
             ## Step 3
-            for child in os.listdir(final):
+            for child in sorted(os.listdir(final)):
                 path = os.path.join(final, child)
                 if not os.path.isfile(path):
                     continue
-- 
2.43.0


From a77c106ac971ee22c8ed808539ada75a1fe240fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 28/65] fix: internal error on result statement outside of
 functions

---
 acaciamc/mccmdgen/generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index e93492f..a609900 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -953,6 +953,8 @@ class Generator(ASTVisitor):
         ))
 
     def visit_Result(self, node: Result):
+        if self.ctx.function_state == FUNC_NONE:
+            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
         rt = self.ctx.current_function.result_type
         def _check(t: "DataType"):
             if rt is not None and not rt.matches(t):
@@ -976,7 +978,8 @@ class Generator(ASTVisitor):
                 _check(value.data_type)
                 commands = value.export(rv, self.compiler)
             self.current_file.extend(commands)
-        elif self.ctx.function_state == FUNC_INLINE:
+        else:
+            assert self.ctx.function_state == FUNC_INLINE
             value: AcaciaExpr = self.visit(node.value)
             _check(value.data_type)
             p = self.ctx.current_function.result_port
@@ -1004,9 +1007,6 @@ class Generator(ASTVisitor):
                 if not isinstance(value, ConstExpr):
                     self.error_c(ErrorType.RESULT_NOT_CONST)
                 self.ctx.inline_result = value
-        else:
-            assert self.ctx.function_state == FUNC_NONE
-            self.error_c(ErrorType.RESULT_OUT_OF_SCOPE)
 
     def visit_NewCall(self, node: NewCall):
         if self.ctx.entity_new_data is None:
-- 
2.43.0


From 9492fafcb04b9811349d49fca096bc5613167193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 29/65] fix: internal error on duplicate struct fields

---
 acaciamc/mccmdgen/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index a609900..500e289 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -943,7 +943,7 @@ class Generator(ASTVisitor):
             if isinstance(decl, StructField):
                 name, type_ = res
                 if name in fields:
-                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, name=name)
+                    self.error_c(ErrorType.SFIELD_MULTIPLE_DEFS, attr=name)
                 fields[name] = type_
             else:
                 assert isinstance(decl, Pass)
-- 
2.43.0


From d27d0d2334c70840e270d959e7a853435bbfd0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:12 +0000
Subject: [PATCH 30/65] fix: internal error on unsupported augmented
 assignments

---
 acaciamc/mccmdgen/expr.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/expr.py b/acaciamc/mccmdgen/expr.py
index 74fadbe..9c98468 100644
--- a/acaciamc/mccmdgen/expr.py
+++ b/acaciamc/mccmdgen/expr.py
@@ -186,15 +186,20 @@ class AcaciaExpr:
     def unarynot(self, compiler: "Compiler") -> "AcaciaExpr":
         raise InvalidOpError
 
-    def iadd(self, compiler: "Compiler") -> CMDLIST_T:
+    def iadd(self, other: "AcaciaExpr", compiler: "Compiler") \
+            -> CMDLIST_T:
         raise InvalidOpError
-    def isub(self, compiler: "Compiler") -> CMDLIST_T:
+    def isub(self, other: "AcaciaExpr", compiler: "Compiler") \
+            -> CMDLIST_T:
         raise InvalidOpError
-    def imul(self, compiler: "Compiler") -> CMDLIST_T:
+    def imul(self, other: "AcaciaExpr", compiler: "Compiler") \
+            -> CMDLIST_T:
         raise InvalidOpError
-    def idiv(self, compiler: "Compiler") -> CMDLIST_T:
+    def idiv(self, other: "AcaciaExpr", compiler: "Compiler") \
+            -> CMDLIST_T:
         raise InvalidOpError
-    def imod(self, compiler: "Compiler") -> CMDLIST_T:
+    def imod(self, other: "AcaciaExpr", compiler: "Compiler") \
+            -> CMDLIST_T:
         raise InvalidOpError
 
 class ConstExpr(AcaciaExpr, metaclass=ABCMeta):
-- 
2.43.0


From 9122e8e0bfcc8db16b8838336b006bb3e6eee433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 31/65] fix: internal error on unconvertible arguments of
 compile time functions

---
 acaciamc/tools/axe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 9ce908c..66d660f 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -782,7 +782,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
         elif isinstance(origin, acacia.ConstExpr):
             convert = lambda: converter.cconvert(origin.to_ctexpr())
         else:
-            raise _PreconvertError(_PE_NOT_CONST)
+            raise _PreconvertError(_PE_NOT_CONST, origin)
     else:
         if isinstance(converter, CTConverter):
             convert = lambda: converter.cconvert(origin)
@@ -790,7 +790,7 @@ def _get_convert(origin: _EXPR_T, converter: _CONVERTER_T):
             try:
                 origin_rt = abs(origin).to_rt()
             except InvalidOpError:
-                raise _PreconvertError(_PE_NOT_RT)
+                raise _PreconvertError(_PE_NOT_RT, origin)
             convert = lambda: converter.convert(origin_rt)
     return convert
 
-- 
2.43.0


From 285f16a681aa2bc6e61a47e1aa853d8ae6e1fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 32/65] fix: internal error when reporting wrong types of
 compile time variables

---
 acaciamc/tools/axe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 66d660f..d74c6e0 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -402,7 +402,7 @@ def _exprrepr(expr: _EXPR_T) -> str:
     if isinstance(expr, acacia.AcaciaExpr):
         return str(expr.data_type)
     assert isinstance(expr, (acaciact.CTObj, acaciact.CTObjPtr))
-    return expr.cdata_type.name
+    return abs(expr).cdata_type.name
 
 class LiteralInt(UTyped):
     """Accepts an integer literal and converts it to Python `int`.
-- 
2.43.0


From a269729812bc5912b887559d547277d37f4878ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 33/65] fix: internal error on Pos operations in compile time
 functions

---
 acaciamc/objects/position.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 15e9b99..753036c 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -14,7 +14,7 @@ import acaciamc.mccmdgen.cmds as cmds
 from . import entity as entity_module
 from .types import Type
 from .position_offset import PosOffsetDataType, PosOffset, CoordinateType
-from .functions import BinaryFunction
+from .functions import BinaryCTFunction
 from .rotation import RotDataType
 
 if TYPE_CHECKING:
@@ -64,9 +64,8 @@ class PosType(Type):
                 offset.set(1, y, CoordinateType.ABSOLUTE)
                 offset.set(2, z, CoordinateType.ABSOLUTE)
                 inst = Position()
-                new_inst, cmds = (inst.attribute_table.lookup("apply")
-                                  .call([offset], {}, compiler))
-                return new_inst, cmds
+                return (inst.attribute_table.lookup("apply")
+                        .ccall([offset], {}, compiler))
 
     def datatype_hook(self):
         return PosDataType()
@@ -135,20 +134,16 @@ class Position(ConstExprCombined, ImmutableMixin):
                 raise Error(ErrorType.INVALID_POS_ALIGN, align=axis)
             self.context.append(cmds.ExecuteEnv("align", axis))
             return self
-        self.attribute_table.set("abs", BinaryFunction(_abs))
-        self.attribute_table.set("offset", BinaryFunction(_offset))
+        self.attribute_table.set("abs", BinaryCTFunction(_abs))
+        self.attribute_table.set("offset", BinaryCTFunction(_offset))
 
     def _create_offset_alias(self, method: str):
         @transform_immutable(self)
         def _offset_alias(self: Position, compiler, args, kwds):
-            offset, cmds = (
-                PosOffset().attribute_table.lookup(method)
-                .call(args, kwds, compiler)
-            )
-            new_obj, _cmds = (self.attribute_table.lookup("apply")
-                              .call([offset], {}, compiler))
-            cmds.extend(_cmds)
-            return new_obj, cmds
+            offset = (PosOffset().attribute_table.lookup(method)
+                      .ccall(args, kwds, compiler))
+            return (self.attribute_table.lookup("apply")
+                    .ccall([offset], {}, compiler))
         return _offset_alias
 
     def copy(self) -> "Position":
-- 
2.43.0


From beda7a4f24e97494d8d41886c9a182c5d0721c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:58 +0000
Subject: [PATCH 34/65] fix: internal error on lists of variables passed to
 compile time functions

---
 acaciamc/objects/list_.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/list_.py b/acaciamc/objects/list_.py
index 57423b0..50b272b 100644
--- a/acaciamc/objects/list_.py
+++ b/acaciamc/objects/list_.py
@@ -95,7 +95,13 @@ class ListType(Type):
         return ctdt_constlist
 
 def list2ct(x: Iterable[ConstExpr]) -> List[CTObj]:
-    return [i.to_ctexpr() for i in x]
+    res = []
+    for i in x:
+        # `list.repeat` can produce lists of non-constants
+        if not isinstance(i, ConstExpr):
+            raise Error(ErrorType.ELEMENT_NOT_CONST)
+        res.append(i.to_ctexpr())
+    return res
 
 class AcaciaList(ConstExpr):
     def __init__(self, items: Iterable[ConstExpr]):
-- 
2.43.0


From 3407b91609104fd32f7c404fa4ac83586261128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 35/65] fix: internal error on update of compile time maps

---
 acaciamc/objects/map_.py | 2 +-
 acaciamc/tools/axe.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/map_.py b/acaciamc/objects/map_.py
index c582c09..859d377 100644
--- a/acaciamc/objects/map_.py
+++ b/acaciamc/objects/map_.py
@@ -235,7 +235,7 @@ class CTMap(CTConstMap):
             return res
         @cmethod_of(self, "update", runtime=False)
         @axe.chop
-        @axe.arg("other", axe.MapOf(axe.Constant(), axe.Constant()))
+        @axe.arg("other", axe.CTMapOf(axe.Constant(), axe.Constant()))
         def _update(compiler, other: Dict[CTObj, CTObj]):
             for k, v in other.items():
                 self.set(k, v)
diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index d74c6e0..6dd7502 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -628,7 +628,7 @@ class CTListOf(CTTyped):
         super().__init__(objects.list_.ctdt_constlist)
         self.converter = converter
 
-    def get_show_name(self) -> str:
+    def crepr(self) -> str:
         return (localize("axe.converter.std.ctlistof")
                 % self.converter.crepr())
 
@@ -665,7 +665,7 @@ class CTMapOf(CTTyped):
         self.key = key
         self.value = value
 
-    def get_show_name(self) -> str:
+    def crepr(self) -> str:
         k = self.key.crepr()
         v = self.value.crepr()
         return localize("axe.converter.std.ctmapof") % f"({k}: {v})"
-- 
2.43.0


From 425ff275988dc817e5f5b400d9a7221370ec793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 36/65] fix: internal error on wrong types of arguments of
 compile time functions

---
 acaciamc/objects/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index f228af1..36dc4b1 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -328,7 +328,7 @@ class CTArgHandler(ArgumentHandler[
         if not dt.is_typeof(v):
             # Try implicit type conversion
             try:
-                new_value = value.cimplicitcast(dt)
+                new_value = v.cimplicitcast(dt)
             except InvalidOpError:
                 raise Error(ErrorType.WRONG_ARG_TYPE, arg=arg,
                             expect=dt.name, got=v.cdata_type.name)
-- 
2.43.0


From 6f098f35651e9edc0fadf51c800b77e1e54270a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 37/65] fix: internal error when reporting wrong types of
 compile time references

---
 acaciamc/mccmdgen/ctexecuter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index d582565..110dda5 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -297,7 +297,8 @@ class CTExecuter(ASTVisitor):
             dt: CTDataType = self.visit(node.type)
             if not dt.is_typeof(value):
                 self.error_node(node.type, ErrorType.WRONG_REF_TYPE,
-                                anno=dt.name, got=value.cdata_type.name)
+                                anno=dt.name,
+                                got=abs(value).cdata_type.name)
         self.register_symbol(node.name, value)
 
     def visit_ExprStatement(self, node: ExprStatement):
-- 
2.43.0


From 5ec016fbd2e7110cf6c392984804b7a39ccad0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 38/65] fix: int(bool) could be clobbered by later calls in the
 same statement

---
 acaciamc/objects/integer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/integer.py b/acaciamc/objects/integer.py
index c03fd5d..c3b02fc 100644
--- a/acaciamc/objects/integer.py
+++ b/acaciamc/objects/integer.py
@@ -140,7 +140,9 @@ class IntType(Type):
             # Fallback: convert `b` to `BoolVar`,
             # Since 0 is used to store False, 1 is for True, just
             # "cast" it to `IntVar`.
-            dependencies, bool_var = to_BoolVar(b, compiler)
+            # `tmp=False` because the commands are run right away and
+            # the result must survive other calls in this statement.
+            dependencies, bool_var = to_BoolVar(b, compiler, tmp=False)
             res = IntVar(bool_var.slot)
             res.is_temporary = True
             return res, dependencies
-- 
2.43.0


From 917148914a6fe901fe0fb5b87dc9bec31b4159f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:46 +0000
Subject: [PATCH 39/65] fix: math.mod overflowed on large divisors

---
 acaciamc/modules/_math.aca | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/modules/_math.aca b/acaciamc/modules/_math.aca
index 7415838..15fafd6 100644
--- a/acaciamc/modules/_math.aca
+++ b/acaciamc/modules/_math.aca
@@ -8,7 +8,11 @@ def mod(x: int, y: int) -> int:
      * -10 % 3 == -1 while mod(-10, 3) == 2
      * -10 % -3 == mod(-10, -3) == -1
      *#
-    result (x % y + y) % y
+    res := x % y
+    # `(x % y + y) % y` would overflow on large `y`
+    if res != 0 and (x >= 0) != (y >= 0):
+        res += y
+    result res
 
 def floordiv(x: int, y: int) -> int:
     #**
-- 
2.43.0


From 5c5a405d0aba1e0433308a71f73fa4d33a20d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 40/65] fix: endless computation on math.pow of huge constants

---
 acaciamc/modules/math.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 71dbf71..8ccec09 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -7,6 +7,7 @@ from acaciamc.objects.integer import (
     IntRandom, IntCmdOp, IntOpSelf, IntOpVar, IntOp, STR2SCBOP
 )
 from acaciamc.ast import ModuleMeta
+from acaciamc.error import Error, ErrorType
 from acaciamc.tools import axe
 from acaciamc.constants import INT_MIN, INT_MAX
 from acaciamc.localization import localize
@@ -60,6 +61,9 @@ def _pow(compiler: "Compiler", base, exp):
         return IntLiteral(1)
     # Optimize when base is a literal
     if isinstance(base, IntLiteral):
+        if exp.value >= 32 and abs(base.value) > 1:
+            # Don't waste time on calculating a number that overflows
+            raise Error(ErrorType.INT_OVERFLOW)
         return IntLiteral(base.value ** exp.value)
     # Base is a variable but exp is a literal
     # Reference: https://en.wikipedia.org/wiki/Exponentiation_by_squaring
-- 
2.43.0


From c3c90bd5c5b902bbab45d66a4e7ecc15e1f35535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:06 +0000
Subject: [PATCH 41/65] fix: internal error on results of different types in an
 inline function

---
 acaciamc/mccmdgen/generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 500e289..82dc449 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -991,6 +991,12 @@ class Generator(ASTVisitor):
                 if self.ctx.inline_result is None:
                     self.ctx.inline_result = dt.new_var(self.compiler)
                     self.ctx.inline_result.is_temporary = True
+                elif not self.ctx.inline_result.data_type.matches(dt):
+                    # All results must fit in the variable that was
+                    # created for the first one
+                    self.error_c(ErrorType.WRONG_RESULT_TYPE,
+                                 expect=str(self.ctx.inline_result.data_type),
+                                 got=str(dt))
                 self.current_file.extend(
                     value.export(self.ctx.inline_result, self.compiler)
                 )
-- 
2.43.0


From 05ea896f0ed40cf53ada59cf988f22d830a55b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 42/65] fix: compile time functions changed the variables
 passed as arguments

---
 acaciamc/mccmdgen/ctexecuter.py | 3 ++-
 acaciamc/mccmdgen/generator.py  | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 110dda5..7b10ffe 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -346,7 +346,8 @@ class CTExecuter(ASTVisitor):
 
     def visit_Result(self, node: Result):
         # Toplevel result
-        self.result = self.visit(node.value)
+        # Results are returned by value
+        self.result = abs(self.visit(node.value))
 
     # TODO compile time struct?
 
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 82dc449..bcabc94 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -1269,9 +1269,9 @@ class Generator(ASTVisitor):
         with self.set_ctx(func.context):
             ctexec = CTExecuter(self.ctx.scope, self, self.file_name)
             for arg, value in arg2value.items():
-                if isinstance(value, CTObj):
-                    value = CTObjPtr(value)
-                ctexec.current_scope.set(arg, value)
+                # Arguments are passed by value: assigning to an argument
+                # must not change the variable of the caller.
+                ctexec.current_scope.set(arg, CTObjPtr(abs(value)))
             for stmt in func.node.body:
                 ctexec.visittop(stmt)
             result = ctexec.result
-- 
2.43.0


From 4a78df5d8236662a18cc8b72968e80636101b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:07 +0000
Subject: [PATCH 43/65] fix: math.randint with an empty range generated an
 invalid command

---
 acaciamc/lang/en_US.lang | 4 ++++
 acaciamc/modules/math.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 62fa379..54b0dca 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -326,6 +326,10 @@ modules.builtins.swap.differenttype = must have the same type as the other varia
 
 ### modules/math.py ###
 
+## randint ##
+
+modules.math.randint.emptyrange = must not be less than "min"
+
 ##　pow ##
 
 modules.math.pow.negative = must be a non-negative integer
diff --git a/acaciamc/modules/math.py b/acaciamc/modules/math.py
index 8ccec09..aa666c3 100644
--- a/acaciamc/modules/math.py
+++ b/acaciamc/modules/math.py
@@ -29,6 +29,10 @@ def _randint(compiler, min_: int, max_: int):
     randint(const min: int, const max: int) -> int
     Get a random integer between `min` and `max` (inclusive).
     """
+    if min_ > max_:
+        raise axe.ArgumentError(
+            "max", localize("modules.math.randint.emptyrange")
+        )
     return IntOpGroup(init=IntRandom(min_, max_))
 
 class IntXOpSelf(IntOp):
-- 
2.43.0


From 75911ceaa82649c207c1e1763c1c7d2bcea086d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 44/65] fix: output that can't be encoded destroyed the old
 output

---
 acaciamc/cli.py      |  1 +
 acaciamc/compiler.py | 50 ++++++++++++++++++++++++++++----------------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index e5423b4..cab67b2 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -198,6 +198,7 @@ def run(args):
 
     try:
         compiler = Compiler(args.file, cfg)
+        compiler.check_output()
         if args.override_old:
             # Remove old output directory if -u is set and compilation
             # succeeded.
diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index adad9e0..c5f0492 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -6,9 +6,11 @@ It assembles files and classes together and writes output.
 __all__ = ['Compiler', 'Config']
 
 from typing import (
-    Tuple, Union, Optional, Callable, Dict, NamedTuple, List, TYPE_CHECKING
+    Tuple, Union, Optional, Callable, Dict, NamedTuple, List, Iterable,
+    TYPE_CHECKING
 )
 import os
+import locale
 from contextlib import contextmanager
 
 from acaciamc.ast import ModuleMeta
@@ -218,15 +220,20 @@ class Compiler:
         e.g. when `path` is "a/b", main file is generated at
         "a/b/{self.cfg.root_folder}/main.mcfunction".
         """
-        # Mcfunctions
-        for file in self.output_mgr.files:
-            self._write_mcfunction(file, path)
-        # tick.json
-        if self.file_tick.has_content():
-            self._write_file(
-                '{"values": ["%s"]}' % self.output_mgr.tick_file_full_path,
-                os.path.join(path, 'tick.json')
-            )
+        for subpath, content in self._output_files():
+            self._write_file(content, os.path.join(path, subpath))
+
+    def check_output(self):
+        """
+        Make sure that the output can be encoded. It is recommended to
+        call this before overwriting or deleting any existing file.
+        """
+        encoding = self.cfg.encoding or locale.getpreferredencoding(False)
+        for _, content in self._output_files():
+            try:
+                content.encode(encoding)
+            except (UnicodeError, LookupError) as err:
+                self.raise_error(Error(ErrorType.IO, message=str(err)))
 
     def raise_error(self, error: Error):
         if self.current_generator is not None:
@@ -480,12 +487,19 @@ class Compiler:
         except Exception as err:
             self.raise_error(Error(ErrorType.IO, message=str(err)))
 
-    def _write_mcfunction(self, file: cmds.MCFunctionFile, path: str):
-        """Write content of `file` to somewhere in output `path`
-        e.g. when `path` is "a/b", `file.path` is "a", file is at
-        "a/b/a.mcfunction".
+    def _output_files(self) -> Iterable[Tuple[str, str]]:
+        """Return path (relative to output path) and content of all
+        output files.
         """
-        self._write_file(
-            content=file.to_str(debugging=self.cfg.debug_comments),
-            path=os.path.join(path, file.get_path() + '.mcfunction')
-        )
+        # Mcfunctions
+        for file in self.output_mgr.files:
+            yield (
+                file.get_path() + '.mcfunction',
+                file.to_str(debugging=self.cfg.debug_comments)
+            )
+        # tick.json
+        if self.file_tick.has_content():
+            yield (
+                'tick.json',
+                '{"values": ["%s"]}' % self.output_mgr.tick_file_full_path
+            )
-- 
2.43.0


From b2af2a3fd7e1eda2b380fdac1099f31e3f8790aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 45/65] fix: init file and main file with the same name
 overwrote each other

---
 acaciamc/cli.py          | 5 ++++-
 acaciamc/lang/en_US.lang | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/acaciamc/cli.py b/acaciamc/cli.py
index cab67b2..50c2281 100644
--- a/acaciamc/cli.py
+++ b/acaciamc/cli.py
@@ -162,7 +162,10 @@ def get_config(args) -> Config:
     if args.internal_folder:
         assert_id(args.internal_folder, '--internal-folder')
         kwds["internal_folder"] = args.internal_folder
-    return Config(**kwds)
+    cfg = Config(**kwds)
+    if cfg.split_init and cfg.init_file == cfg.main_file:
+        fatal(localize("cli.getconfig.sameinitmain") % cfg.init_file)
+    return cfg
 
 def try_rmtree(path: str):
     """
diff --git a/acaciamc/lang/en_US.lang b/acaciamc/lang/en_US.lang
index 54b0dca..d2f6dcc 100644
--- a/acaciamc/lang/en_US.lang
+++ b/acaciamc/lang/en_US.lang
@@ -87,6 +87,7 @@ cli.assertid.fatal = option {option}: {msg}
 cli.getconfig.invalidfunctionfolder = invalid name {name} in function folder path: {msg}
 cli.getconfig.invalidmcversion = invalid Minecraft version: %s
 cli.getconfig.mcversiontooold = Minecraft version is too low: %s, at least 1.19.50 expected
+cli.getconfig.sameinitmain = init file and main file can't have the same name: %s
 cli.getconfig.maxinlinetoolow = max inline file size must >= 0: %s
 
 ## try_rmtree ##
-- 
2.43.0


From ed02f6ae2fcbb22226380ae5110a092b2b783ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 46/65] fix: importing one attribute under several names kept
 only the last

---
 acaciamc/ast.py                | 10 ++++++----
 acaciamc/mccmdgen/generator.py |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/acaciamc/ast.py b/acaciamc/ast.py
index 0af1052..1c1dafb 100644
--- a/acaciamc/ast.py
+++ b/acaciamc/ast.py
@@ -2,7 +2,7 @@
 
 from typing import (
     Union as _Union, List as _List, Optional as _Optional, Dict as _Dict,
-    Iterable as _Iterable
+    Iterable as _Iterable, Tuple as _Tuple
 )
 
 from acaciamc.localization import LocalizedEnum as _LocalizedEnum
@@ -334,9 +334,11 @@ class FromImport(Statement):  # import specific things from a module
     ):
         super().__init__(lineno, col)
         self.meta = meta
-        self.id2name: _Dict[str, str] = {}
-        for name, alias in zip(names, aliases):
-            self.id2name[name] = name if alias is None else alias
+        # An attribute may be imported more than once with different names
+        self.id2name: _List[_Tuple[str, str]] = [
+            (name, name if alias is None else alias)
+            for name, alias in zip(names, aliases)
+        ]
 
 class FromImportAll(Statement):  # import everything in a module
     def __init__(self, meta: ModuleMeta, lineno, col):
diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index bcabc94..8b87852 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -724,13 +724,13 @@ class Generator(ASTVisitor):
     def visit_FromImport(self, node: FromImport):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
         self.write_debug("Import from %s" % path)
-        for name, alias in node.id2name.items():
+        for name, alias in node.id2name:
             value = self.attribute_of(module, name)
             if value is None:
                 self.error_c(ErrorType.MODULE_NO_ATTRIBUTE,
                              attr=name, module=str(node.meta))
             self.register_symbol(alias, value)
-        self.ctx.scope.no_export.update(node.id2name.values())
+        self.ctx.scope.no_export.update(alias for _, alias in node.id2name)
 
     def visit_FromImportAll(self, node: FromImportAll):
         module, path = self.module_traced(node.meta, node.lineno, node.col)
-- 
2.43.0


From 615a4c5040c038499a5401abc7012d89a3d74774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 47/65] fix: computed arguments of virtual methods crashed the
 compiler

---
 acaciamc/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acaciamc/compiler.py b/acaciamc/compiler.py
index c5f0492..85fddc7 100644
--- a/acaciamc/compiler.py
+++ b/acaciamc/compiler.py
@@ -265,6 +265,12 @@ class Compiler:
         NOTE Temporary vars are only available within 1 statement
         when it comes to next statement, current vars are deleted.
         """
+        if self.current_generator is None:
+            # No statement is being compiled now (e.g. dispatchers of
+            # virtual methods are generated when everything is done),
+            # so the vars in list might be in use by the statement that
+            # runs the commands.
+            return self.allocate()
         if self._free_tmp_score:
             # if there are free vars in list, reuse them
             res = self._free_tmp_score.pop()
-- 
2.43.0


From bedf237cd6cb041e6a349bfbe5c3c0181642b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:59 +0000
Subject: [PATCH 48/65] fix: inline methods called through virtual dispatch had
 no self

---
 acaciamc/objects/entity_template.py | 12 +++++++++---
 acaciamc/objects/functions.py       | 27 +++++++++++++++++++++------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 179b495..2582522 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -101,7 +101,9 @@ class _MethodDispatcher:
                 return _sv
         self.impls[implementation] = ([template], get_self_var)
         for bound in self.bound:
-            bound.add_implementation(template, implementation, get_self_var)
+            bound.add_implementation(
+                template, implementation, get_self_var, template
+            )
 
     def register_inherit(self, template: "EntityTemplate",
                          parent: "EntityTemplate"):
@@ -109,7 +111,9 @@ class _MethodDispatcher:
             if parent in templates:
                 templates.append(template)
                 for bound in self.bound:
-                    bound.add_implementation(template, impl, get_self)
+                    bound.add_implementation(
+                        template, impl, get_self, templates[0]
+                    )
                 break
         else:
             unreachable("Base not found")
@@ -121,7 +125,9 @@ class _MethodDispatcher:
         self.bound.append(res)
         for impl, (templates, get_self_var) in self.impls.items():
             for template in templates:
-                res.add_implementation(template, impl, get_self_var)
+                res.add_implementation(
+                    template, impl, get_self_var, templates[0]
+                )
         return res
 
     def bind_to_cast(self, entity: "_EntityBase"):
diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index 36dc4b1..a1c6a0a 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -428,10 +428,13 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
     cdata_type = ctdt_function
 
     def __init__(self, object_: "_EntityBase", method_name: str,
-                 definition: METHODDEF_T):
+                 definition: METHODDEF_T,
+                 self_template: Optional["EntityTemplate"] = None):
         super().__init__(FunctionDataType())
         self.name = method_name
         self.object = object_
+        # Template of `self` if it is not that of the object
+        self.self_template = self_template
         self.definition = definition
         self.is_inline = isinstance(definition, InlineFunction)
         self.func_repr = self.name
@@ -443,8 +446,12 @@ class _BoundMethod(ConstExprCombined, AcaciaCallable):
                    "Unexpected target function %r" % self.definition
             # `EntityReference` is needed so that `self` is not
             # assignable.
-            self.definition.context.self_value = \
-                EntityReference.from_other(self.object)
+            self_value = EntityReference.from_other(self.object)
+            if self.self_template is not None:
+                self_value = EntityReference(
+                    self_value.selector, self.self_template
+                )
+            self.definition.context.self_value = self_value
         result, commands = self.definition.call(args, keywords, compiler)
         # `BinaryFunction`s cannot be method implementation
         # because we are not sure about their result data type
@@ -500,13 +507,21 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
 
     def add_implementation(
         self, template: "EntityTemplate", definition: METHODDEF_T,
-        get_self_var: Optional[Callable[[], "TaggedEntity"]]
+        get_self_var: Optional[Callable[[], "TaggedEntity"]],
+        definer: "EntityTemplate"
     ):
+        """`definer` is the template that `definition` is written in."""
         if definition in self.impls:
             _, templates, _ = self.impls[definition]
             templates.append(template)
         elif template.is_subtemplate_of(self.object.template):
-            bound_method = _BoundMethod(self.object, self.name, definition)
+            # The implementation might be in a sub-template of the static
+            # type of the object and `self` needs to be of that template.
+            bound_method = _BoundMethod(
+                self.object, self.name, definition,
+                None if self.object.template.is_subtemplate_of(definer)
+                else definer
+            )
             self.impls[definition] = (bound_method, [template], get_self_var)
 
     def call(self, args: ARGS_T, keywords: KEYWORDS_T, compiler) -> CALLRET_T:
@@ -551,7 +566,7 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
                 file.extend(_call_bm(args, keywords, only_bm))
                 continue
             # Fallback
-            for impl, (_, templates, get_self_var) in self.impls.items():
+            for impl, templates, get_self_var in self.impls.values():
                 file.write_debug(
                     "# For %s"
                     % (", ".join(template.name for template in templates))
-- 
2.43.0


From e1085d606d5c513b7bb3c7e489166022b8f07972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 49/65] fix: virtual method calls in one expression shared
 their result

---
 acaciamc/objects/functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/functions.py b/acaciamc/objects/functions.py
index a1c6a0a..bc9fe0a 100644
--- a/acaciamc/objects/functions.py
+++ b/acaciamc/objects/functions.py
@@ -528,11 +528,15 @@ class BoundVirtualMethod(ConstExprCombined, AcaciaCallable):
         file = cmds.MCFunctionFile()
         self.files.append((args, keywords, file))
         compiler.add_file(file)
-        return self.result_var, [
+        # Make a copy of `result_var` since every call shares it
+        result = self.result_var.data_type.new_var(compiler)
+        result.is_temporary = True
+        return result, [
             cmds.Execute(
                 [cmds.ExecuteEnv("as", self.object.to_str())],
                 cmds.InvokeFunction(file)
-            )
+            ),
+            *self.result_var.export(result, compiler)
         ]
 
     def _generate(self, compiler: "Compiler"):
-- 
2.43.0


From d3ed12a085af188b11baacd49f3e47fb1b1b8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 50/65] fix: names of ticking areas with special characters
 were not quoted

---
 acaciamc/modules/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/modules/schedule.py b/acaciamc/modules/schedule.py
index 1b11809..178024f 100644
--- a/acaciamc/modules/schedule.py
+++ b/acaciamc/modules/schedule.py
@@ -169,7 +169,7 @@ class Task(ConstExprCombined):
             return resultlib.commands([
                 cmds.ScheduleFunction(
                     self.target_file,
-                    "on_area_loaded add tickingarea %s" % name
+                    "on_area_loaded add tickingarea %s" % cmds.mc_str(name)
                 ),
             ])
         self.attribute_table.set("_timer", self.timer)
-- 
2.43.0


From 1ed5c020028a9822f9d516581ab632a34aa3f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 51/65] fix: tiny and huge coordinates were written with an
 exponent

---
 acaciamc/mccmdgen/cmds.py           | 6 ++++++
 acaciamc/modules/world.py           | 2 +-
 acaciamc/objects/position_offset.py | 3 ++-
 acaciamc/objects/rotation.py        | 6 ++++--
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index 893fa65..d2f3bfa 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -1,6 +1,7 @@
 """Abstraction of Minecraft commands."""
 
 from abc import ABCMeta, abstractmethod
+from decimal import Decimal
 from enum import Enum
 from typing import List, NamedTuple, Optional, Union, Iterable, Callable, Dict
 import json
@@ -20,6 +21,11 @@ def mc_str(s: str) -> str:
     else:
         return s
 
+def mc_float(value: float) -> str:
+    """Format a float without exponent (Minecraft can't read "1e-05")."""
+    res = str(value)
+    return format(Decimal(res), "f") if "e" in res else res
+
 def mc_selector(s: str) -> str:
     if s.startswith("@"):
         return s
diff --git a/acaciamc/modules/world.py b/acaciamc/modules/world.py
index 0643344..8de733f 100644
--- a/acaciamc/modules/world.py
+++ b/acaciamc/modules/world.py
@@ -697,7 +697,7 @@ def spread(compiler, target: "MCSelector", center: Position,
         )
     cmd = cmds.Execute(
         center.context, "spreadplayers ~ ~ %s %s %s" % (
-            interval, range_, target.to_str()
+            cmds.mc_float(interval), cmds.mc_float(range_), target.to_str()
         )
     )
     return resultlib.commands([cmd])
diff --git a/acaciamc/objects/position_offset.py b/acaciamc/objects/position_offset.py
index 778205e..6f972e0 100644
--- a/acaciamc/objects/position_offset.py
+++ b/acaciamc/objects/position_offset.py
@@ -15,6 +15,7 @@ from acaciamc.tools import axe, cmethod_of, ImmutableMixin, transform_immutable
 from acaciamc.mccmdgen.datatype import DefaultDataType
 from acaciamc.mccmdgen.ctexpr import CTDataType
 from acaciamc.mccmdgen.expr import *
+import acaciamc.mccmdgen.cmds as cmds
 from .types import Type
 
 class CoordinateType(Enum):
@@ -121,7 +122,7 @@ class PosOffset(ConstExprCombined, ImmutableMixin):
 
     def __str__(self) -> str:
         return " ".join(
-            type_.value + str(value)
+            type_.value + cmds.mc_float(value)
             for type_, value in zip(self.value_types, self.values)
         )
 
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 98014d5..6e7b769 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -51,7 +51,9 @@ class RotType(Type):
             def absolute(cls, compiler, vertical: float, horizontal: float):
                 inst = Rotation()
                 inst.context.append(cmds.ExecuteEnv(
-                    "rotated", "%s %s" % (vertical, horizontal)
+                    "rotated", "%s %s" % (
+                        cmds.mc_float(vertical), cmds.mc_float(horizontal)
+                    )
                 ))
                 return inst
         @cmethod_of(self, "face_entity")
@@ -104,7 +106,7 @@ class Rotation(ConstExprCombined, ImmutableMixin):
                 if arg is None:
                     vh.append("~")
                 else:
-                    vh.append(type_prefix + str(arg))
+                    vh.append(type_prefix + cmds.mc_float(arg))
             self.context.append(cmds.ExecuteEnv("rotated", " ".join(vh)))
             return self
         return _setter
-- 
2.43.0


From e3009d66b6ecacdbaadcc27cd87aaeeab73fd597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 52/65] fix: unknown anchors of positions and rotations were
 accepted

---
 acaciamc/objects/position.py | 2 +-
 acaciamc/objects/rotation.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 753036c..035102c 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -42,7 +42,7 @@ class PosType(Type):
             """
             @axe.overload
             @axe.arg("target", entity_module.EntityDataType)
-            @axe.arg("anchor", axe.LiteralString())
+            @axe.arg("anchor", axe.LiteralStringEnum("feet", "eyes"))
             def from_entity(cls, compiler, target: "_EntityBase", anchor: str):
                 inst = Position()
                 inst.context.append(cmds.ExecuteEnv("at", target.to_str()))
diff --git a/acaciamc/objects/rotation.py b/acaciamc/objects/rotation.py
index 6e7b769..fbdbde4 100644
--- a/acaciamc/objects/rotation.py
+++ b/acaciamc/objects/rotation.py
@@ -59,7 +59,8 @@ class RotType(Type):
         @cmethod_of(self, "face_entity")
         @axe.chop
         @axe.arg("target", entity_module.EntityDataType)
-        @axe.arg("anchor", axe.LiteralString(), default=DEFAULT_ANCHOR)
+        @axe.arg("anchor", axe.LiteralStringEnum("feet", "eyes"),
+                 default=DEFAULT_ANCHOR)
         def _face_entity(compiler, target: "_EntityBase", anchor: str):
             inst = Rotation()
             inst.context.append(cmds.ExecuteEnv(
-- 
2.43.0


From 2ea61e70dc7dccd5524ad19d6cc26484a985a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 53/65] fix: aligning a position on no axis emitted an invalid
 command

---
 acaciamc/objects/position.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acaciamc/objects/position.py b/acaciamc/objects/position.py
index 035102c..cc99457 100644
--- a/acaciamc/objects/position.py
+++ b/acaciamc/objects/position.py
@@ -130,7 +130,8 @@ class Position(ConstExprCombined, ImmutableMixin):
             `Pos(10.5, 9.8, 10.5).align("xz")` gives `Pos(10, 9.8, 10)`.
             """
             axis_set = set(axis)
-            if len(axis) != len(axis_set) or not axis_set.issubset(XYZ):
+            if (not axis or len(axis) != len(axis_set)
+                    or not axis_set.issubset(XYZ)):
                 raise Error(ErrorType.INVALID_POS_ALIGN, align=axis)
             self.context.append(cmds.ExecuteEnv("align", axis))
             return self
-- 
2.43.0


From d9aeb9d3c30012b8ff9e873725db4eb92afaaa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 54/65] fix: a None held by a compile time value was no None
 for built-in functions

---
 acaciamc/tools/axe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index 6dd7502..ff6a6fd 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -487,7 +487,7 @@ class Nullable(ConverterContainer):
         return self.converter.convert(origin)
 
     def cconvert(self, origin: acaciact.CTObj):
-        if isinstance(origin, objects.NoneLiteral):
+        if isinstance(abs(origin), objects.NoneLiteral):
             return None
         return self.converter.cconvert(origin)
 
-- 
2.43.0


From 7c7b5940214f75d8cad8932e286ae30994a2f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 55/65] fix: name the operator in diagnostics of compile time
 functions

---
 acaciamc/mccmdgen/ctexecuter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 7b10ffe..62f872e 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -5,6 +5,7 @@ from contextlib import contextmanager
 
 from acaciamc.ast import *
 from acaciamc.error import Error, ErrorType, SourceLocation
+from acaciamc.localization import localize
 from acaciamc.mccmdgen.ctexpr import *
 from acaciamc.mccmdgen.symbol import SymbolTable, CTRTConversionError
 from acaciamc.mccmdgen.utils import unreachable, InvalidOpError
@@ -159,7 +160,7 @@ class CTExecuter(ASTVisitor):
             return meth()
         except InvalidOpError:
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=node.operator.value,
+                            operator=node.operator.localized,
                             operand=f'"{obj.cdata_type.name}"')
 
     def visit_BinOp(self, node: BinOp):
@@ -175,7 +176,7 @@ class CTExecuter(ASTVisitor):
                 rs = right.cdata_type.name
                 self.error_node(
                     node, ErrorType.INVALID_OPERAND,
-                    operator=node.operator.value,
+                    operator=node.operator.localized,
                     operand=f'"{ls}", "{rs}"'
                 )
         return res
@@ -196,7 +197,7 @@ class CTExecuter(ASTVisitor):
                     rs = right.cdata_type.name
                     self.error_node(
                         node, ErrorType.INVALID_OPERAND,
-                        operator=operator.value,
+                        operator=operator.localized,
                         operand=f'"{ls}", "{rs}"'
                     )
             if not res:
@@ -214,7 +215,7 @@ class CTExecuter(ASTVisitor):
                 self.error_node(
                     node.operands[i],
                     ErrorType.INVALID_BOOLOP_OPERAND,
-                    operator=operator.value,
+                    operator=operator.localized,
                     operand=operand.cdata_type.name
                 )
             if operand.value and operator is Operator.or_:
@@ -285,7 +286,9 @@ class CTExecuter(ASTVisitor):
             t1 = abs(target).cdata_type.name
             t2 = value.cdata_type.name
             self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=f'{node.operator.value}=',
+                            operator=localize(
+                                f"{node.operator.value}.augmented"
+                            ),
                             operand=f'"{t1}", "{t2}"')
         target.set(res)
 
-- 
2.43.0


From b8b63ade3f23a05f0555cf49591e872d60083dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 56/65] fix: subscript of a value without items in compile time
 functions

---
 acaciamc/mccmdgen/ctexecuter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 62f872e..9d1ff54 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -238,7 +238,7 @@ class CTExecuter(ASTVisitor):
     def visit_Subscript(self, node: Subscript):
         obj: CTObj = abs(self.visit(node.object))
         subscripts = list(map(self.visit, node.subscripts))
-        meth = self.attribute_of(obj, "__ct_getitem__")
+        meth = obj.attributes.clookup("__ct_getitem__")
         if meth is None:
             self.error_node(node, ErrorType.NO_GETITEM,
                             type_=obj.cdata_type.name)
-- 
2.43.0


From 13a36e1f931999d9a3bdecaa8bdd0d5d2943043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 57/65] fix: compile time augmented assignment ignored the
 reflected operator

---
 acaciamc/mccmdgen/ctexecuter.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/acaciamc/mccmdgen/ctexecuter.py b/acaciamc/mccmdgen/ctexecuter.py
index 9d1ff54..b9574d9 100644
--- a/acaciamc/mccmdgen/ctexecuter.py
+++ b/acaciamc/mccmdgen/ctexecuter.py
@@ -283,13 +283,16 @@ class CTExecuter(ASTVisitor):
         try:
             res = getattr(abs(target), BINOPS[node.operator])(value)
         except InvalidOpError:
-            t1 = abs(target).cdata_type.name
-            t2 = value.cdata_type.name
-            self.error_node(node, ErrorType.INVALID_OPERAND,
-                            operator=localize(
-                                f"{node.operator.value}.augmented"
-                            ),
-                            operand=f'"{t1}", "{t2}"')
+            try:
+                res = getattr(value, RBINOPS[node.operator])(abs(target))
+            except InvalidOpError:
+                t1 = abs(target).cdata_type.name
+                t2 = value.cdata_type.name
+                self.error_node(node, ErrorType.INVALID_OPERAND,
+                                operator=localize(
+                                    f"{node.operator.value}.augmented"
+                                ),
+                                operand=f'"{t1}", "{t2}"')
         target.set(res)
 
     def visit_ReferenceDef(self, node: ReferenceDef):
-- 
2.43.0


From d6ded1cd7c03fd0aff810274438007f635b6acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 58/65] fix: music drifted when several MIDI messages are due
 at the same tick

Only one message per track was handled at every MIDI tick, so that every
chord delayed the rest of its track.
---
 acaciamc/modules/music.py | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/acaciamc/modules/music.py b/acaciamc/modules/music.py
index 24d6143..9fd1e2e 100644
--- a/acaciamc/modules/music.py
+++ b/acaciamc/modules/music.py
@@ -397,26 +397,26 @@ class Music(ConstExprCombined):
     def main_loop(self):
         # Read messages
         for i, track in enumerate(self.tracks):
-            if not track:
-                continue
-            message = track[0]
-            if message.time > self.mt - self.last_msg_mt[i]:
-                continue
-            # Handle message
-            mtype = message.type
-            if mtype == "note_on":
-                if message.velocity != 0:
-                    self.play_note(message)
-            elif mtype == "set_tempo":
-                self.bpm = 6E+7 / message.tempo
-            elif message.is_cc():
-                if message.control == 7:  # Volume
-                    self.channel_volume[message.channel] = message.value
-            elif mtype == "program_change":
-                self.channel_instrument[message.channel] = message.program
-            # Reset timer
-            self.last_msg_mt[i] = self.mt
-            track.pop(0)
+            # Several messages may be due at the same MIDI tick
+            while track:
+                message = track[0]
+                if message.time > self.mt - self.last_msg_mt[i]:
+                    break
+                # Handle message
+                mtype = message.type
+                if mtype == "note_on":
+                    if message.velocity != 0:
+                        self.play_note(message)
+                elif mtype == "set_tempo":
+                    self.bpm = 6E+7 / message.tempo
+                elif message.is_cc():
+                    if message.control == 7:  # Volume
+                        self.channel_volume[message.channel] = message.value
+                elif mtype == "program_change":
+                    self.channel_instrument[message.channel] = message.program
+                # Reset timer
+                self.last_msg_mt[i] = self.mt
+                track.pop(0)
         # Time increment
         self.mt += 1
         # bpm * mt_per_beat is MT per minute. Divide it by 1200 to get MT
-- 
2.43.0


From e684e09b36c77d8951d63b1daa44a133668350f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 59/65] fix: axe: emit arguments renamed to POSITIONAL in
 declaration order

Values of POSITIONAL arguments were passed in the order in which they were
bound, so keyword arguments and defaults swapped values.
---
 acaciamc/tools/axe.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/acaciamc/tools/axe.py b/acaciamc/tools/axe.py
index ff6a6fd..0d0f8f0 100644
--- a/acaciamc/tools/axe.py
+++ b/acaciamc/tools/axe.py
@@ -802,6 +802,8 @@ class _Chopper:
         self.args: Optional[_ArgumentList] = None
         self.kwds: Optional[_ArgumentList] = None
         self.implementation = building.get_target()
+        # Names of arguments renamed to POSITIONAL, in declaration order
+        self.positionals: List[str] = []
         # Parse builder stack
         got_slash = False
         got_star = False
@@ -809,6 +811,8 @@ class _Chopper:
         got_default = False
         before_slash = []
         for type_, definition in building:
+            if definition is not None and definition.rename is POSITIONAL:
+                self.positionals.append(definition.name)
             if type_ == _BP_SLASH:
                 if got_slash or got_star or got_kwds:
                     raise ChopError("only arguments can go before axe.slash")
@@ -882,11 +886,11 @@ class _Chopper:
     def __call__(self, compiler: "Compiler", args: List[_EXPR_T],
                  kwds: Dict[str, _EXPR_T]):
         res: Dict[str, Any] = {}
-        res_positional: List[Any] = []
+        res_positional: Dict[str, Any] = {}
         arg_got: List[str] = []
         def _emit(arg: Union[_Argument, _ArgumentList], value: Any):
             if arg.rename is POSITIONAL:
-                res_positional.append(value)
+                res_positional[arg.name] = value
             else:
                 res[arg.rename] = value
             arg_got.append(arg.name)
@@ -949,8 +953,10 @@ class _Chopper:
             _emit(self.args, [])
         if self.kwds and self.kwds.name not in arg_got:
             _emit(self.kwds, {})
-        return _call_impl(self.implementation, arg_got,
-                          compiler, *res_positional, **res)
+        return _call_impl(
+            self.implementation, arg_got, compiler,
+            *(res_positional[name] for name in self.positionals), **res
+        )
 
 def _create_signature(arg_defs: List[_Argument]) -> str:
     return "(%s)" % ", ".join(
-- 
2.43.0


From 3bbe6510538110ed801320f9dd5885d35fd3fcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 60/65] fix: 'x = not y' when both are fields of the same
 entity

---
 acaciamc/objects/boolean.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/acaciamc/objects/boolean.py b/acaciamc/objects/boolean.py
index 6b24f68..aa772b7 100644
--- a/acaciamc/objects/boolean.py
+++ b/acaciamc/objects/boolean.py
@@ -239,11 +239,9 @@ class NotBoolVar(AcaciaExpr):
                              cmds.ScbSetConst(var.slot, 0))
             ]
         else:
-            return [
-                cmds.ScbSetConst(var.slot, 0),
-                cmds.Execute([cmds.ExecuteScoreMatch(self.slot, "0")],
-                             cmds.ScbSetConst(var.slot, 1))
-            ]
+            return _export_bool(
+                [cmds.ExecuteScoreMatch(self.slot, "0")], var, compiler
+            )
 
     def compare(self, op, other, compiler):
         if not (op is Operator.equal_to or op is Operator.unequal_to):
-- 
2.43.0


From 9c4694e6074592768ac17cf4974e73c2129af3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:13 +0000
Subject: [PATCH 61/65] fix: raw comments and blank commands in a branch are
 not put behind /execute

---
 acaciamc/mccmdgen/cmds.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/acaciamc/mccmdgen/cmds.py b/acaciamc/mccmdgen/cmds.py
index d2f3bfa..7e6495d 100644
--- a/acaciamc/mccmdgen/cmds.py
+++ b/acaciamc/mccmdgen/cmds.py
@@ -490,8 +490,12 @@ def execute(subcmds: List[_ExecuteSubcmd], runs: Union[Command, str]):
     if isinstance(runs, Comment):
         return runs
     if isinstance(runs, str):
-        if runs.lstrip().startswith("#"):
-            return Comment(runs)
+        runs = Cmd(runs)
+    if isinstance(runs, Cmd):
+        # Written by the user: may also be a comment or blank
+        text = runs.value.strip()
+        if not text or text.startswith("#"):
+            return runs
     return Execute(subcmds, runs)
 
 class RawtextComponent(metaclass=ABCMeta):
-- 
2.43.0


From e3dc5332c9aaf5b30ea02a2ff3bb49a6cfe5e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 62/65] fix: 'result' inside a for loop of an inline function
 was lost

---
 acaciamc/mccmdgen/generator.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 8b87852..819d54e 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -190,6 +190,15 @@ class Generator(ASTVisitor):
     def new_ctx(self):
         return self.set_ctx(self.ctx.copy())
 
+    @contextlib.contextmanager
+    def loop_ctx(self):
+        """Context of a loop body: a new scope in the same function."""
+        outer = self.ctx
+        with self.new_ctx():
+            self.ctx.new_scope()
+            yield
+            outer.inline_result = self.ctx.inline_result
+
     # --- VISITORS ---
 
     def visit(self, node: AST, **kwargs):
@@ -899,16 +908,14 @@ class Generator(ASTVisitor):
                              type_=str(iterable.data_type))
             self.write_debug("Iterating over %d items" % len(items))
             for value in items:
-                with self.new_ctx():
-                    self.ctx.new_scope()
+                with self.loop_ctx():
                     self.register_symbol(node.name, value)
                     for stmt in node.body:
                         self.visit(stmt)
         else:
             assert isinstance(iterable, EntityGroup)
             with self.new_mcfunc_file() as body_file, \
-                 self.new_ctx():
-                self.ctx.new_scope()
+                 self.loop_ctx():
                 self.write_debug("Entity group iteration body")
                 this = TaggedEntity.new_tag(iterable.template, self.compiler)
                 executer = EntityReference(MCSelector("s"), iterable.template)
-- 
2.43.0


From e9ac1bf8010a67b14a92a938b26bfe8dd755a047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 63/65] fix: fields named compiler, implementation or all_args
 broke the constructor of a struct

---
 acaciamc/objects/struct_template.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acaciamc/objects/struct_template.py b/acaciamc/objects/struct_template.py
index 19b4afc..133778e 100644
--- a/acaciamc/objects/struct_template.py
+++ b/acaciamc/objects/struct_template.py
@@ -59,12 +59,13 @@ class StructTemplate(ConstExprCombined, ConstructorFunction):
         @axe.chop
         @axe.star
         @apply_decorators([
-            axe.arg(name, type_, default=None)
+            axe.arg(name, type_, default=None, rename=f"field_{name}")
             for name, type_ in self.field_types.items()
         ])
         def _call_me(compiler, **fields: Optional[AcaciaExpr]):
             commands = []
-            for name, value in fields.items():
+            for name in self.field_types:
+                value = fields[f"field_{name}"]
                 # `instance` may be of a base template and thus lack some
                 # of our fields.
                 if value is None or name not in instance.vars:
-- 
2.43.0


From 5793f0b42512dd4892a60f964d137b8bc44a2822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 64/65] fix: the value of a typed variable definition saw the
 new variable

---
 acaciamc/mccmdgen/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acaciamc/mccmdgen/generator.py b/acaciamc/mccmdgen/generator.py
index 819d54e..f0e8e63 100644
--- a/acaciamc/mccmdgen/generator.py
+++ b/acaciamc/mccmdgen/generator.py
@@ -241,9 +241,9 @@ class Generator(ASTVisitor):
         if not isinstance(dt, Storable):
             self.error_c(ErrorType.UNSUPPORTED_VAR_TYPE, var_type=str(dt))
         var = dt.new_var(self.compiler)
-        self.register_symbol(node.target, var)
         if node.value is not None:
             self._assign(var, node.value, is_fresh=True)
+        self.register_symbol(node.target, var)
 
     def visit_AutoVarDef(self, node: AutoVarDef):
         is_ctor: bool = False
-- 
2.43.0


From 8475ab99ac01ae7e4bc2765aca4ea51341c60052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 65/65] fix: methods inherited through a diamond follow the
 method resolution order

---
 acaciamc/objects/entity_template.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/acaciamc/objects/entity_template.py b/acaciamc/objects/entity_template.py
index 2582522..b6d3037 100644
--- a/acaciamc/objects/entity_template.py
+++ b/acaciamc/objects/entity_template.py
@@ -260,6 +260,8 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
         self.method_dispatchers: Dict[str, _MethodDispatcher] = {}
         self.simple_methods: Dict[str, _SimpleMethod] = {}
         self.static_methods: Dict[str, AcaciaCallable] = {}
+        # Names of methods this template itself defines (not inherited)
+        self.own_methods = frozenset(methods)
         self.mro_: List[EntityTemplate] = [self]  # Method Resolution Order
         # Runtime identification number
         # Mark which template an entity is using at runtime.
@@ -328,10 +330,12 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                                 method=method)
             for method, mgr in parent.simple_methods.items():
                 _check(m_virtual, m_static, method)
-                m_simple[method] = mgr
+                if method in parent.own_methods:
+                    m_simple[method] = mgr
             for method, impl in parent.static_methods.items():
                 _check(m_virtual, m_simple, method)
-                m_static[method] = impl
+                if method in parent.own_methods:
+                    m_static[method] = impl
         ## Make sure field names do not conflict with method names
         for attr in attr_list:
             if attr in m_virtual or attr in m_simple or attr in m_static:
@@ -380,7 +384,7 @@ class EntityTemplate(ConstExprCombined, ConstructorFunction):
                 # Inherited override methods
                 self.method_dispatchers[method] = disp
                 disp.register_inherit(self, next(
-                    t for t in self.mro_[1:] if method in t.method_dispatchers
+                    t for t in self.mro_[1:] if method in t.own_methods
                 ))
         for method, mgr in m_simple.items():
             if method not in self.simple_methods:
-- 
2.43.0

