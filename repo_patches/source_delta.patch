From 502a5f6d7701c9be7b940cc5214bf6baad754679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 01/54] fix: subtracting an expression from a number must
 subtract it, not add it

---
 src/andromede/expression/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/expression/expression.py b/src/andromede/expression/expression.py
index ec91591..9043c77 100644
--- a/src/andromede/expression/expression.py
+++ b/src/andromede/expression/expression.py
@@ -62,7 +62,7 @@ class ExpressionNode:
 
     def __rsub__(self, lhs: Any) -> "ExpressionNode":
         lhs = _wrap_in_node(lhs)
-        return lhs + self
+        return lhs - self
 
     def __mul__(self, rhs: Any) -> "ExpressionNode":
         return _apply_if_node(rhs, lambda x: MultiplicationNode(self, x))
-- 
2.43.0


From 3d7821b49705cac70af2837cdf95a1e6b949f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 02/54] fix: take the indexing of constraint bounds into
 account when instantiating constraints

---
 src/andromede/simulation/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 0a4eba0..2c9a5c7 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -423,8 +423,8 @@ def _compute_indexing(
 ) -> IndexingStructure:
     return (
         context.compute_indexing(constraint.expression)
-        or context.compute_indexing(constraint.lower_bound)
-        or context.compute_indexing(constraint.upper_bound)
+        | context.compute_indexing(constraint.lower_bound)
+        | context.compute_indexing(constraint.upper_bound)
     )
 
 
-- 
2.43.0


From 036db53d2266e0c254d54c44c9523d69ce8a4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:57 +0000
Subject: [PATCH 03/54] fix: an expectation must not override the scenario of
 an inner expectation

---
 src/andromede/expression/operators_expansion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/operators_expansion.py b/src/andromede/expression/operators_expansion.py
index 13e2d40..51f29b1 100644
--- a/src/andromede/expression/operators_expansion.py
+++ b/src/andromede/expression/operators_expansion.py
@@ -226,12 +226,12 @@ class ApplyScenario(CopyVisitor):
     scenario: int
 
     def pb_parameter(self, node: ProblemParameterNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
     def pb_variable(self, node: ProblemVariableNode) -> ExpressionNode:
-        if isinstance(node.scenario_index, NoScenarioIndex):
+        if not isinstance(node.scenario_index, CurrentScenarioIndex):
             return node
         return dataclasses.replace(node, scenario_index=OneScenarioIndex(self.scenario))
 
-- 
2.43.0


From f0d02877380053a36f1aa8a03d5fe60ace226815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:08 +0000
Subject: [PATCH 04/54] fix: multiplying linear expressions must not modify the
 right operand

---
 src/andromede/simulation/linear_expression.py | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/andromede/simulation/linear_expression.py b/src/andromede/simulation/linear_expression.py
index 4421761..d6b81ac 100644
--- a/src/andromede/simulation/linear_expression.py
+++ b/src/andromede/simulation/linear_expression.py
@@ -373,21 +373,21 @@ class LinearExpression:
                 # It is possible that both expr are constant
                 left_expr = rhs
                 const_expr = self
-            if is_close_abs(const_expr.constant, 0, EPS):
+            multiplier = const_expr.constant
+            if is_close_abs(multiplier, 0, EPS):
                 return LinearExpression()
-            elif is_close_abs(const_expr.constant, 1, EPS):
-                _copy_expression(left_expr, self)
-            else:
-                left_expr.constant *= const_expr.constant
-                for term_key, term in left_expr.terms.items():
-                    left_expr.terms[term_key] = Term(
-                        term.coefficient * const_expr.constant,
+            # rhs must be left untouched, and must not share its terms with self
+            _copy_expression(left_expr, self)
+            if not is_close_abs(multiplier, 1, EPS):
+                self.constant *= multiplier
+                for term_key, term in self.terms.items():
+                    self.terms[term_key] = Term(
+                        term.coefficient * multiplier,
                         term.component_id,
                         term.variable_name,
                         term.time_index,
                         term.scenario_index,
                     )
-                _copy_expression(left_expr, self)
         return self
 
     def __mul__(self, rhs: "LinearExpression") -> "LinearExpression":
@@ -434,5 +434,5 @@ class LinearExpression:
 
 
 def _copy_expression(src: LinearExpression, dst: LinearExpression) -> None:
-    dst.terms = src.terms
+    dst.terms = dict(src.terms)
     dst.constant = src.constant
-- 
2.43.0


From 8be1203f224a37a10d06866ba0e23e1ea77f477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:32 +0000
Subject: [PATCH 05/54] fix: the scenario group of a parameter must not apply
 to the next parameters

---
 src/andromede/study/resolve_components.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index e9f5291..0b6c858 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -216,12 +216,13 @@ def build_scenarized_data_base(
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
     for comp in input_comp.components:
-        scenarization = None
+        comp_scenarization = None
         if comp.scenario_group:
-            scenarization = scenarizations[comp.scenario_group]
+            comp_scenarization = scenarizations[comp.scenario_group]
 
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
+            scenarization = comp_scenarization
             if param.scenario_group:
                 scenarization = scenarizations[param.scenario_group]
             param_value = _build_data(
-- 
2.43.0


From cf5521e6bd3d3373854514b513d6bb438e12b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:32 +0000
Subject: [PATCH 06/54] fix: load the parameters of nodes when building a
 scenarized database

---
 src/andromede/study/resolve_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index 0b6c858..019fdf5 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -215,7 +215,7 @@ def build_scenarized_data_base(
     database = DataBase()
     scenarizations = _resolve_scenarization(scenario_builder_data)
 
-    for comp in input_comp.components:
+    for comp in input_comp.components + input_comp.nodes:
         comp_scenarization = None
         if comp.scenario_group:
             comp_scenarization = scenarizations[comp.scenario_group]
-- 
2.43.0


From 35388b09fda3f47e2aaa446b9d271bf162ccff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:32 +0000
Subject: [PATCH 07/54] fix: parse time operators applied to parenthesized
 expressions

---
 .../expression/parsing/parse_expression.py    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 1dc3c3e..05f2427 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -147,6 +147,25 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
             return shifted_expr
         return shifted_expr.shift(time_shift)
 
+    # Visit a parse tree produced by ExprParser#timeIndexExpr.
+    def visitTimeIndexExpr(
+        self, ctx: ExprParser.TimeIndexExprContext
+    ) -> ExpressionNode:
+        expr = ctx.expr(0).accept(self)  # type: ignore
+        eval_time = ctx.expr(1).accept(self)  # type: ignore
+        return expr.eval(eval_time)
+
+    # Visit a parse tree produced by ExprParser#timeShiftExpr.
+    def visitTimeShiftExpr(
+        self, ctx: ExprParser.TimeShiftExprContext
+    ) -> ExpressionNode:
+        shifted_expr = ctx.expr().accept(self)  # type: ignore
+        time_shift = ctx.shift().accept(self)  # type: ignore
+        # specifics for (x)[t] ...
+        if expressions_equal(time_shift, literal(0)):
+            return shifted_expr
+        return shifted_expr.shift(time_shift)
+
     def visitTimeSum(self, ctx: ExprParser.TimeSumContext) -> ExpressionNode:
         shifted_expr = ctx.expr().accept(self)  # type: ignore
         from_shift = ctx.from_.accept(self)  # type: ignore
-- 
2.43.0


From 572ffc22a56aae835b9e3d2bdfea150ccdeb90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 08/54] fix: reject expressions with unknown characters instead
 of ignoring them

---
 .../expression/parsing/parse_expression.py    | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index 05f2427..ef83519 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -10,9 +10,10 @@
 #
 # This file is part of the Antares project.
 from dataclasses import dataclass
-from typing import Set
+from typing import Any, Set
 
 from antlr4 import CommonTokenStream, InputStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.error.ErrorStrategy import BailErrorStrategy
 
 from andromede.expression import ExpressionNode, literal, param, var
@@ -261,6 +262,23 @@ class AntaresParseException(Exception):
     pass
 
 
+class _InvalidCharacterListener(ErrorListener):
+    """
+    By default, the lexer only prints a warning and skips unknown characters.
+    """
+
+    def syntaxError(
+        self,
+        recognizer: Any,
+        offendingSymbol: Any,
+        line: int,
+        column: int,
+        msg: str,
+        e: Any,
+    ) -> None:
+        raise ValueError(f"line {line}:{column} {msg}")
+
+
 def parse_expression(expression: str, identifiers: ModelIdentifiers) -> ExpressionNode:
     """
     Parses a string expression to create the corresponding AST representation.
@@ -268,6 +286,7 @@ def parse_expression(expression: str, identifiers: ModelIdentifiers) -> Expressi
     try:
         input = InputStream(expression)
         lexer = ExprLexer(input)
+        lexer.addErrorListener(_InvalidCharacterListener())
         stream = CommonTokenStream(lexer)
         parser = ExprParser(stream)
         parser._errHandler = BailErrorStrategy()
-- 
2.43.0


From f7ed1b491db5ea5f1c2f77250a51ec0e1a297df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:32 +0000
Subject: [PATCH 09/54] fix: multiplications and divisions of a time shift are
 left-associative

---
 .../expression/parsing/parse_expression.py          | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/andromede/expression/parsing/parse_expression.py b/src/andromede/expression/parsing/parse_expression.py
index ef83519..46b36f6 100644
--- a/src/andromede/expression/parsing/parse_expression.py
+++ b/src/andromede/expression/parsing/parse_expression.py
@@ -207,8 +207,17 @@ class ExpressionNodeBuilderVisitor(ExprVisitor):
     # Visit a parse tree produced by ExprParser#shiftMuldiv.
     def visitShiftMuldiv(self, ctx: ExprParser.ShiftMuldivContext) -> ExpressionNode:
         left = ctx.shift_expr().accept(self)  # type: ignore
-        right = ctx.right_expr().accept(self)  # type: ignore
-        op = ctx.op.text  # type: ignore
+        return self._apply_muldiv(left, ctx.op.text, ctx.right_expr())  # type: ignore
+
+    def _apply_muldiv(
+        self, left: ExpressionNode, op: str, right_ctx: ExprParser.Right_exprContext
+    ) -> ExpressionNode:
+        # "t + a / b * c" must be read as "t + (a / b) * c", whereas
+        # the grammar provides us with a and the whole "b * c".
+        if isinstance(right_ctx, ExprParser.RightMuldivContext):
+            left = self._apply_muldiv(left, op, right_ctx.right_expr(0))  # type: ignore
+            return self._apply_muldiv(left, right_ctx.op.text, right_ctx.right_expr(1))  # type: ignore
+        right = right_ctx.accept(self)  # type: ignore
         if op == "*":
             return left * right
         elif op == "/":
-- 
2.43.0


From 9dfd022aa2170e9eb5e16230a31381c6592940ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:32 +0000
Subject: [PATCH 10/54] fix: setting an output value must discard the previous
 values

---
 src/andromede/simulation/output_values.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/output_values.py b/src/andromede/simulation/output_values.py
index c832148..6cd2cd4 100644
--- a/src/andromede/simulation/output_values.py
+++ b/src/andromede/simulation/output_values.py
@@ -101,6 +101,7 @@ class OutputValues:
         @value.setter
         def value(self, values: Union[float, List[float], List[List[float]]]) -> None:
             size_s, size_t = 1, 1
+            self._value.clear()
 
             if isinstance(values, list):
                 size_s = len(values)
-- 
2.43.0


From aaae28a323a6ec126cc3020f2f19c1cc211a04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 11/54] fix: coupling constraints of a decision tree must not
 leak into other trees

---
 src/andromede/simulation/decision_tree.py | 35 +++++++++++------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 9c1ffb1..1a381d3 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -55,14 +55,18 @@ class DecisionTreeNode(NodeMixin):
         parent: Optional["DecisionTreeNode"] = None,
         children: Optional[Iterable["DecisionTreeNode"]] = None,
         prob: float = 1.0,
-        coupling_network: Network = Network("_Coupler"),
-        coupling_info: CouplingInfo = CouplingInfo(),
+        coupling_network: Optional[Network] = None,
+        coupling_info: Optional[CouplingInfo] = None,
     ) -> None:
         self.id = id
         self.config = config
         self.network = network
-        self.coupling_network = coupling_network
-        self.coupling_info = coupling_info
+        self.coupling_network = (
+            coupling_network if coupling_network is not None else Network("_Coupler")
+        )
+        self.coupling_info = (
+            coupling_info if coupling_info is not None else CouplingInfo()
+        )
         self.parent = parent
 
         if prob < 0 or 1 < prob:
@@ -155,19 +159,14 @@ class DecisionTreeNode(NodeMixin):
         variables: List[Variable] = []
         constraints: List[Constraint] = []
 
-        """
-        Here and below, we use (and mostly abuse!) of the fact that
-        both coupling_network and coupling_info attributes are initialized,
-        or bounded, at the function definition since they are default arguments!
-        It allows us to not iterate over the tree, since all nodes share the same
-        coupling_network and coupling_info objects.
-
-        However, IT IS BAD DESIGN!
-        But for now it will suffice since the inner workings will change once
-        Thomas has changed the AST instantiation
-        TODO Update this once the new AST is merged
-        """
-        for var_name in self.coupling_info.variables:
+        # Gathers the coupling information of this tree only
+        coupling_variables: Set[str] = set()
+        coupling_constraints: Dict[str, ExpressionNode] = {}
+        for node in self.traverse():
+            coupling_variables |= node.coupling_info.variables
+            coupling_constraints.update(node.coupling_info.constraints)
+
+        for var_name in coupling_variables:
             variables.append(
                 # TODO For now, unbounded positive float variable
                 float_variable(
@@ -178,7 +177,7 @@ class DecisionTreeNode(NodeMixin):
                 ),
             )
 
-        for cst_name, expr in self.coupling_info.constraints.items():
+        for cst_name, expr in coupling_constraints.items():
             constraints.append(
                 Constraint(
                     name=cst_name,
-- 
2.43.0


From 72a22f3d5df9238e93457a0bf5950cb468fef229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 12/54] fix: keep the coupling constraints of a single node
 decision tree

---
 src/andromede/simulation/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 2c9a5c7..5c39d9f 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -791,7 +791,7 @@ def build_problem(
 def fusion_problems(
     masters: List[OptimizationProblem], coupler: OptimizationProblem
 ) -> OptimizationProblem:
-    if len(masters) == 1:
+    if len(masters) == 1 and coupler.solver.NumConstraints() == 0:
         # Nothing to fusion. Just past down the master
         return masters[0]
 
-- 
2.43.0


From ef06675018296a0c9ab8596643763a762b083684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 13/54] fix: keep integer variables integer in the fused master
 problem

---
 src/andromede/simulation/optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 5c39d9f..a513e4c 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -815,7 +815,9 @@ def fusion_problems(
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
             if var.name() not in root_vars:
-                root_var = root_master.solver.NumVar(var.lb(), var.ub(), var.name())
+                root_var = root_master.solver.Var(
+                    var.lb(), var.ub(), var.integer(), var.name()
+                )
                 root_master.context._solver_variables[var.name()] = SolverVariableInfo(
                     var.name(),
                     len(root_master.context._solver_variables),
@@ -825,6 +827,7 @@ def fusion_problems(
                 root_var = root_vars[var.name()]
                 root_var.SetLb(var.lb())
                 root_var.SetUb(var.ub())
+                root_var.SetInteger(var.integer())
                 root_master.context._solver_variables[
                     var.name()
                 ].is_in_objective = context._solver_variables[
-- 
2.43.0


From 9286be144c689757459cfd6c3dc1980a41c0d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 14/54] fix: keep the constant part of the objective in the
 fused master problem

---
 src/andromede/simulation/optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index a513e4c..8895f8d 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -810,6 +810,7 @@ def fusion_problems(
     for master in masters:
         context = master.context
         objective = master.solver.Objective()
+        root_objective.SetOffset(root_objective.offset() + objective.offset())
 
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
-- 
2.43.0


From f97cb694d1ee181e34226ea680b0c911a0af248a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:21 +0000
Subject: [PATCH 15/54] fix: keep constraints without variables in the fused
 master problem

---
 src/andromede/simulation/optimization.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index 8895f8d..f774a92 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -812,6 +812,13 @@ def fusion_problems(
         objective = master.solver.Objective()
         root_objective.SetOffset(root_objective.offset() + objective.offset())
 
+        # Add all constraints to root, including those without any variable
+        for cstr in master.solver.constraints():
+            key = f"{master.name}_{cstr.name()}"
+            root_constraints[key] = root_master.solver.Constraint(
+                cstr.Lb(), cstr.Ub(), key
+            )
+
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
             # Otherwise we update its upper and lower bounds
@@ -837,14 +844,8 @@ def fusion_problems(
 
             for cstr in master.solver.constraints():
                 coeff = cstr.GetCoefficient(var)
-                # If variable present in constraint, we add the constraint to root
                 if coeff != 0:
-                    key = f"{master.name}_{cstr.name()}"
-                    if key not in root_constraints:
-                        root_constraints[key] = root_master.solver.Constraint(
-                            cstr.Lb(), cstr.Ub(), key
-                        )
-                    root_cstr = root_constraints[key]
+                    root_cstr = root_constraints[f"{master.name}_{cstr.name()}"]
                     root_cstr.SetCoefficient(root_var, coeff)
 
             obj_coeff = objective.GetCoefficient(var)
-- 
2.43.0


From b244608cddcf9a8c95a145cadfbd1efec59ac864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:50 +0000
Subject: [PATCH 16/54] fix: an area without batteries must not prevent the
 conversion of the batteries of other areas

---
 .../input_converter/src/converter.py          | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/andromede/input_converter/src/converter.py b/src/andromede/input_converter/src/converter.py
index 5a9ca67..a93f531 100644
--- a/src/andromede/input_converter/src/converter.py
+++ b/src/andromede/input_converter/src/converter.py
@@ -615,11 +615,10 @@ class AntaresStudyConverter:
         self.logger.info("Converting binding constraints to component list...")
 
         bc_data = read_yaml_file(BC_CONFIG_PATH).get("template")
-        try:
-            for area in valid_areas.values():
-                data_with_area: dict = self._match_area_pattern(bc_data, area.id)
-                bcp = BindingConstraintsPreprocessing(self.study)
-
+        for area in valid_areas.values():
+            data_with_area: dict = self._match_area_pattern(bc_data, area.id)
+            bcp = BindingConstraintsPreprocessing(self.study)
+            try:
                 components.append(
                     InputComponent(
                         id=data_with_area["component"]["id"],
@@ -639,16 +638,17 @@ class AntaresStudyConverter:
                         ],
                     )
                 )
-                connections.append(
-                    InputPortConnections(
-                        component1=data_with_area["component"]["id"],
-                        port1="injection_port",
-                        component2=area.id,
-                        port2="balance_port",
-                    )
+            except (KeyError, FileNotFoundError):
+                # No battery modelled in this area
+                continue
+            connections.append(
+                InputPortConnections(
+                    component1=data_with_area["component"]["id"],
+                    port1="injection_port",
+                    component2=area.id,
+                    port2="balance_port",
                 )
-        except (KeyError, FileNotFoundError) as e:
-            return components, connections
+            )
 
         return components, connections
 
-- 
2.43.0


From 9ca0c9d822da1fa0200a7561e89322a1f4dfe5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:19 +0000
Subject: [PATCH 17/54] fix: the hour before the first one of the first week is
 the last one of this week

---
 .../input_converter/src/data_preprocessing/thermal.py       | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index d2be8aa..693e9e8 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -79,9 +79,7 @@ class ThermalDataPreprocessing:
             indices // period
         ) * period
 
-        previous_indices = np.where(
-            indices == 0, 0, np.minimum(previous_indices, max_valid_index)
-        )
+        previous_indices = np.minimum(previous_indices, max_valid_index)
         variation = pd.DataFrame()
         if direction == Direction.BACKWARD:
             variation = nb_units_max.reset_index(drop=True) - nb_units_max.iloc[
@@ -103,7 +101,7 @@ class ThermalDataPreprocessing:
         return self.series_path / Path(f"{component_id}").with_suffix(suffix)
 
     def generate_component_parameter(
-        self, parameter_id: str, period: int = 0
+        self, parameter_id: str, period: int = DEFAULT_PERIOD
     ) -> InputComponentParameter:
         if parameter_id not in self._prepro_parameter_functions:
             raise ValueError(f"Unsupported parameter_id: {parameter_id}")
-- 
2.43.0


From 6d4a38d81943f1ea8d4c4814f799c5e9d331e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 18/54] fix: compute the minimum power of thermal clusters for
 each scenario

---
 .../input_converter/src/data_preprocessing/thermal.py     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/thermal.py b/src/andromede/input_converter/src/data_preprocessing/thermal.py
index 693e9e8..3ee44fc 100644
--- a/src/andromede/input_converter/src/data_preprocessing/thermal.py
+++ b/src/andromede/input_converter/src/data_preprocessing/thermal.py
@@ -49,10 +49,12 @@ class ThermalDataPreprocessing:
         nominal_capacity: float = self.thermal.properties.nominal_capacity
         scaled_modulation: pd.Series = modulation_data * nominal_capacity * unit_count
         #  min(min_gen_modulation * unit_count * nominal_capacity, p_max_cluster)
-        min_values: pd.Series = pd.concat([scaled_modulation, series_data], axis=1).min(
-            axis=1
+        if series_data.empty:
+            return scaled_modulation.to_frame(name="p_min_cluster")
+        # one column per scenario, as for p_max_cluster
+        return series_data.apply(
+            lambda series: pd.concat([scaled_modulation, series], axis=1).min(axis=1)
         )
-        return min_values.to_frame(name="p_min_cluster")
 
     def _compute_nb_units_min(self) -> pd.DataFrame:
         p_min_cluster: pd.DataFrame = self._compute_p_min_cluster()
-- 
2.43.0


From 9cf884e162f126720aa1be475df71968e0c49a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 19/54] fix: values preprocessed for an area must not be used
 for other areas

---
 .../src/data_preprocessing/binding_constraints.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
index 0f8b527..6e5663f 100644
--- a/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
+++ b/src/andromede/input_converter/src/data_preprocessing/binding_constraints.py
@@ -35,10 +35,10 @@ DataType = Union[ThermalData, TimeseriesData, BindingConstraintData]
 
 
 class BindingConstraintsPreprocessing:
-    preprocessed_values: dict[str, float] = {}
     id: Optional[str] = None
 
     def __init__(self, study: Study):
+        self.preprocessed_values: dict[str, float] = {}
         self.study = study
         self.study_path: Path = study.service.config.study_path  # type: ignore
 
-- 
2.43.0


From 23a1d9a014bc01e02fa6dd53168cc7779f35bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:11 +0000
Subject: [PATCH 20/54] fix: check the data requirements of nodes too

---
 src/andromede/study/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index f89537c..b1eb983 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -257,7 +257,7 @@ class DataBase:
             raise KeyError(f"Index {index} not found.")
 
     def requirements_consistency(self, network: Network) -> None:
-        for component in network.components:
+        for component in network.all_components:
             for param in component.model.parameters.values():
                 data_structure = self.get_data(component.id, param.name)
 
-- 
2.43.0


From 3b9ac4d0533ffd0d93d09d5d27c893cacf110813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:45 +0000
Subject: [PATCH 21/54] fix: support the documented binary variable type

---
 src/andromede/model/resolve_library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 10f3285..ad4221c 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -225,9 +225,12 @@ def _to_expression_if_present(
 def _to_variable(var: InputVariable, identifiers: ModelIdentifiers) -> Variable:
     return Variable(
         name=var.id,
-        data_type={"continuous": ValueType.CONTINUOUS, "integer": ValueType.INTEGER}[
-            var.variable_type
-        ],
+        data_type={
+            "continuous": ValueType.CONTINUOUS,
+            "integer": ValueType.INTEGER,
+            "binary": ValueType.BOOLEAN,
+            "boolean": ValueType.BOOLEAN,
+        }[var.variable_type],
         structure=IndexingStructure(var.time_dependent, var.scenario_dependent),
         lower_bound=_to_expression_if_present(var.lower_bound, identifiers),
         upper_bound=_to_expression_if_present(var.upper_bound, identifiers),
-- 
2.43.0


From c3b8ca5edd427615f835d3d60d06564a368a6267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:12 +0000
Subject: [PATCH 22/54] fix: take the bounds of boolean variables into account

---
 src/andromede/simulation/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index f774a92..af0e8a7 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -686,7 +686,9 @@ class OptimizationProblem:
                         )
 
                     if model_var.data_type == ValueType.BOOLEAN:
-                        solver_var = self.solver.BoolVar(
+                        solver_var = self.solver.IntVar(
+                            max(lower_bound, 0),
+                            min(upper_bound, 1),
                             solver_var_name,
                         )
                     elif model_var.data_type == ValueType.INTEGER:
-- 
2.43.0


From 89e9a88f64aa2ab57c8a7deb51e75f25c5edca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:45 +0000
Subject: [PATCH 23/54] fix: libraries can depend on preloaded libraries

---
 src/andromede/model/resolve_library.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index ad4221c..5f0b82b 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -86,7 +86,13 @@ def resolve_library(
                 output_lib_dict, treated_lib_ids, cur_yaml_lib, current_lib
             )
 
-            remaining_dependencies = set(cur_yaml_lib.dependencies) - treated_lib_ids
+            # Port types of preloaded libraries are already available
+            remaining_dependencies = {
+                dependency
+                for dependency in cur_yaml_lib.dependencies
+                if dependency not in treated_lib_ids
+                and (dependency in yaml_lib_dict or dependency not in output_lib_dict)
+            }
 
             if remaining_dependencies:
                 _add_dependencies_to_stack(import_stack, remaining_dependencies)
-- 
2.43.0


From ee6b13e295fce85b5014e7c914852074a3b238db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:13 +0000
Subject: [PATCH 24/54] fix: refuse data files with missing values

---
 src/andromede/study/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index b1eb983..ab300b9 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -139,13 +139,17 @@ def load_ts_from_txt(
         timeseries_with_extension = timeseries_name + ".txt"
         ts_path = path_to_file / timeseries_with_extension
     try:
-        return pd.read_csv(ts_path, header=None, sep=r"\s+")
+        ts_dataframe = pd.read_csv(ts_path, header=None, sep=r"\s+")
 
     except FileNotFoundError:
         raise FileNotFoundError(f"File '{timeseries_name}' does not exist")
     except Exception:
         raise Exception(f"An error has arrived when processing '{ts_path}'")
 
+    if ts_dataframe.isna().any(axis=None):
+        raise ValueError(f"Missing values in '{ts_path}'")
+    return ts_dataframe
+
 
 def dataframe_to_time_series(ts_dataframe: pd.DataFrame) -> Dict[TimeIndex, float]:
     if ts_dataframe.shape[1] != 1:
-- 
2.43.0


From b82a2e4ee28c442c078e21e6dea3ce70a732dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:49 +0000
Subject: [PATCH 25/54] fix: renewable model declares the parameter that the
 converter writes

---
 src/andromede/libs/antares_historic/antares_historic.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/libs/antares_historic/antares_historic.yml b/src/andromede/libs/antares_historic/antares_historic.yml
index 230c08f..978d9c9 100644
--- a/src/andromede/libs/antares_historic/antares_historic.yml
+++ b/src/andromede/libs/antares_historic/antares_historic.yml
@@ -84,7 +84,7 @@ library:
 
     - id: renewable
       parameters:
-        - id: nominal_capacity
+        - id: p_max_unit
         - id: unit_count
         - id: generation
           time-dependent: true
-- 
2.43.0


From e599de7c5392991451ce19797dbfcd81e08a4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:49 +0000
Subject: [PATCH 26/54] fix: limit the dispatch of PyPSA storage units by their
 capacity

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index 1909a1a..aa09f12 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -376,7 +376,7 @@ library:
         - id: p_store_upper
           expression: p_store <= p_max_pu * p_nom
         - id: p_dispatch_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
           expression: state_of_charge <= max_hours * p_nom
         - id: state_of_charge_balance
-- 
2.43.0


From 0027ce2fcf3268aec63ca8d27702cd1c22936ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:38 +0000
Subject: [PATCH 27/54] fix: PyPSA links and global constraints can have the
 name of a bus

---
 src/andromede/pypsa_converter/pypsa_converter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 4e97462..f076e96 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -182,6 +182,17 @@ class PyPSAStudyConverter:
         for key, val in self.pypsa_network.stores_t.items():
             val.columns = val.columns + "_store"
 
+        self.pypsa_network.links.index = (
+            self.pypsa_network.links.index.astype(str) + "_link"
+        )
+        for key, val in self.pypsa_network.links_t.items():
+            val.columns = val.columns + "_link"
+
+        self.pypsa_network.global_constraints.index = (
+            self.pypsa_network.global_constraints.index.astype(str)
+            + "_global_constraint"
+        )
+
     def _preprocess_pypsa_components(self, component_type: str, capa_str: str) -> None:
         ### Handling PyPSA objects without carriers
         df = getattr(self.pypsa_network, component_type)
-- 
2.43.0


From e2b9fe8a6c723083c58b0afc5dd84d82c4504a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:25 +0000
Subject: [PATCH 28/54] fix: PyPSA carriers that are not defined have no
 emissions

---
 src/andromede/pypsa_converter/pypsa_converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index f076e96..2bd5991 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -210,6 +210,8 @@ class PyPSAStudyConverter:
             ),
         )
         df = getattr(self.pypsa_network, component_type)
+        ### As in PyPSA, carriers that are not defined have no emissions
+        df["co2_emissions"] = df["co2_emissions"].fillna(0.0)
         ### Adding min and max capacities to non-extendable objects
         for field in [capa_str + "_min", capa_str + "_max"]:
             df.loc[df[capa_str + "_extendable"] == False, field] = df[capa_str]
-- 
2.43.0


From 3166757cfa6bd352519a020afe73be517f9432e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:25 +0000
Subject: [PATCH 29/54] fix: refuse inactive PyPSA storage units and stores

---
 src/andromede/pypsa_converter/pypsa_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index 2bd5991..dd2a404 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -112,7 +112,7 @@ class PyPSAStudyConverter:
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
         ### PyPSA components : Storage Units
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
         if not (all((self.pypsa_network.storage_units["sign"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with sign = 1")
@@ -125,7 +125,7 @@ class PyPSAStudyConverter:
         ):
             raise ValueError(f"Converter supports only Storage Units with linear cost")
         ### PyPSA components : Stores
-        if not (all((self.pypsa_network.links["active"] == 1))):
+        if not (all((self.pypsa_network.stores["active"] == 1))):
             raise ValueError(f"Converter supports only Stores with active = 1")
         if not (all((self.pypsa_network.stores["sign"] == 1))):
             raise ValueError(f"Converter supports only Stores with sign = 1")
-- 
2.43.0


From e99544eae53d3f48995735239102aec9702d043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:41 +0000
Subject: [PATCH 30/54] fix: refuse models with several variables, parameters
 or constraints of the same name

---
 src/andromede/model/model.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/andromede/model/model.py b/src/andromede/model/model.py
index 741a4fb..a49a4b3 100644
--- a/src/andromede/model/model.py
+++ b/src/andromede/model/model.py
@@ -17,7 +17,7 @@ defining parameters, variables, and equations.
 """
 import itertools
 from dataclasses import dataclass, field, replace
-from typing import Any, Dict, Iterable, Optional
+from typing import Any, Dict, Iterable, Optional, TypeVar
 
 from andromede.expression import ExpressionNode
 from andromede.expression.degree import is_linear
@@ -28,6 +28,8 @@ from andromede.model.parameter import Parameter
 from andromede.model.port import PortFieldDefinition, PortFieldId, PortType
 from andromede.model.variable import Variable
 
+T = TypeVar("T")
+
 
 # TODO: Introduce bool_variable ?
 def _make_structure_provider(model: "Model") -> IndexingStructureProvider:
@@ -143,6 +145,19 @@ class Model:
         return replace(self, **changes)
 
 
+def _index(model_id: str, objects: Optional[Iterable[T]], key: str) -> Dict[Any, T]:
+    """
+    Objects of a model by name: objects of the same name must not hide one another.
+    """
+    res: Dict[Any, T] = {}
+    for o in objects or []:
+        name = getattr(o, key)
+        if name in res:
+            raise ValueError(f"{name} is defined twice in model {model_id}.")
+        res[name] = o
+    return res
+
+
 def model(
     id: str,
     constraints: Optional[Iterable[Constraint]] = None,
@@ -170,17 +185,13 @@ def model(
                 )
     return Model(
         id=id,
-        constraints={c.name: c for c in constraints} if constraints else {},
-        binding_constraints={c.name: c for c in binding_constraints}
-        if binding_constraints
-        else {},
-        parameters={p.name: p for p in parameters} if parameters else {},
-        variables={v.name: v for v in variables} if variables else {},
+        constraints=_index(id, constraints, "name"),
+        binding_constraints=_index(id, binding_constraints, "name"),
+        parameters=_index(id, parameters, "name"),
+        variables=_index(id, variables, "name"),
         objective_operational_contribution=objective_operational_contribution,
         objective_investment_contribution=objective_investment_contribution,
         inter_block_dyn=inter_block_dyn,
         ports=existing_port_names,
-        port_fields_definitions={d.port_field: d for d in port_fields_definitions}
-        if port_fields_definitions
-        else {},
+        port_fields_definitions=_index(id, port_fields_definitions, "port_field"),
     )
-- 
2.43.0


From 633f96ebc06bda1a6203b9d23870233c4571e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:41 +0000
Subject: [PATCH 31/54] fix: refuse systems with several components of the same
 id

---
 src/andromede/study/resolve_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index 019fdf5..87aacbc 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -68,6 +68,11 @@ def resolve_system(input_system: InputSystem, libraries: dict[str, Library]) ->
     ]
     nodes = [_resolve_component(libraries, n) for n in input_system.nodes]
     all_components: List[Component] = components_list + nodes
+    component_ids = set()
+    for component in all_components:
+        if component.id in component_ids:
+            raise ValueError(f"Component {component.id} is defined twice.")
+        component_ids.add(component.id)
     connections = []
     for cnx in input_system.connections:
         resolved_cnx = _resolve_connections(cnx, all_components)
-- 
2.43.0


From 52a38dfc101fd3bb401796a29ca109826af6a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:41 +0000
Subject: [PATCH 32/54] fix: refuse components with several values of the same
 parameter

---
 src/andromede/study/resolve_components.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/andromede/study/resolve_components.py b/src/andromede/study/resolve_components.py
index 87aacbc..d42cbaa 100644
--- a/src/andromede/study/resolve_components.py
+++ b/src/andromede/study/resolve_components.py
@@ -151,12 +151,22 @@ def build_network(system: System) -> Network:
     return network
 
 
+def _check_parameters_given_once(component: InputComponent) -> None:
+    parameter_ids = [param.id for param in component.parameters or []]
+    for param_id in parameter_ids:
+        if parameter_ids.count(param_id) > 1:
+            raise ValueError(
+                f"Parameter {param_id} of component {component.id} is given twice."
+            )
+
+
 def build_data_base(
     input_system: InputSystem, timeseries_dir: Optional[Path]
 ) -> DataBase:
     database = DataBase()
     input_system_objects = input_system.components + input_system.nodes
     for comp in input_system_objects:
+        _check_parameters_given_once(comp)
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
             param_value = _build_data(
@@ -225,6 +235,7 @@ def build_scenarized_data_base(
         if comp.scenario_group:
             comp_scenarization = scenarizations[comp.scenario_group]
 
+        _check_parameters_given_once(comp)
         # This idiom allows mypy to 'ignore' the fact that comp.parameter can be None
         for param in comp.parameters or []:
             scenarization = comp_scenarization
-- 
2.43.0


From 5ecb550703d9ab97e04ee55e7b5c623a827fe46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:41 +0000
Subject: [PATCH 33/54] fix: refuse libraries and port types that hide others
 of the same id

---
 src/andromede/model/resolve_library.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 5f0b82b..6fd6cbf 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -54,6 +54,8 @@ def resolve_library(
      - parses expressions and resolves references to variables/params
     """
     yaml_lib_dict = dict((l.id, l) for l in input_libs)
+    if len(yaml_lib_dict) < len(input_libs):
+        raise ValueError("Several libraries have the same id.")
 
     preloaded_port_types = {}
     if preloaded_libs:
@@ -118,7 +120,12 @@ def _add_resolved_dependent_port_types_to_current_lib(
 ) -> None:
     done_dependencies = set(cur_yaml_lib.dependencies) & treated_lib_ids
     for done_lib in done_dependencies:
-        current_lib.port_types.update(output_lib_dict[done_lib].port_types)
+        for id, port_type in output_lib_dict[done_lib].port_types.items():
+            if current_lib.port_types.get(id, port_type) != port_type:
+                raise ValueError(
+                    f"Different definitions of port type {id} in the dependencies of library {cur_yaml_lib.id}."
+                )
+            current_lib.port_types[id] = port_type
 
 
 def _update_treated_libs_and_import_stack(
@@ -132,6 +139,8 @@ def _resolve_lib(
 ) -> None:
     port_types = [_convert_port_type(p) for p in cur_yaml_lib.port_types]
     port_types_dict = dict((p.id, p) for p in port_types)
+    if len(port_types_dict) < len(port_types):
+        raise ValueError(f"Port types defined twice in library {cur_yaml_lib.id}.")
 
     if current_lib.port_types.keys() & port_types_dict.keys():
         raise Exception(
-- 
2.43.0


From f01ef1afed254dcacd857bafe577abc2fa8b70e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:44 +0000
Subject: [PATCH 34/54] fix: refuse models whose variables and parameters have
 the same name

---
 src/andromede/model/resolve_library.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 6fd6cbf..6c65867 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -186,6 +186,11 @@ def _resolve_model(input_model: InputModel, port_types: Dict[str, PortType]) ->
         variables={v.id for v in input_model.variables},
         parameters={p.id for p in input_model.parameters},
     )
+    ambiguous = identifiers.variables & identifiers.parameters
+    if ambiguous:
+        raise ValueError(
+            f"Both variables and parameters of model {input_model.id}: {ambiguous}."
+        )
     return model(
         id=input_model.id,
         parameters=[_to_parameter(p) for p in input_model.parameters],
-- 
2.43.0


From 4846964cc41d792c312fed8ec4b65b1bd6da523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 35/54] fix: master constraints with the same name are not
 mixed up when the masters of a tree are merged

---
 src/andromede/simulation/optimization.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index af0e8a7..c704cbc 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -19,7 +19,7 @@ import itertools
 import math
 from dataclasses import dataclass
 from enum import Enum
-from typing import Dict, Iterable, List, Optional
+from typing import Dict, Iterable, List, Optional, Tuple
 
 import ortools.linear_solver.pywraplp as lp
 
@@ -801,7 +801,6 @@ def fusion_problems(
     root_master.name = "master"
 
     root_vars: Dict[str, lp.Variable] = dict()
-    root_constraints: Dict[str, lp.Constraint] = dict()
     root_objective = root_master.solver.Objective()
 
     # We stock the coupler's variables to check for
@@ -814,12 +813,17 @@ def fusion_problems(
         objective = master.solver.Objective()
         root_objective.SetOffset(root_objective.offset() + objective.offset())
 
-        # Add all constraints to root, including those without any variable
-        for cstr in master.solver.constraints():
-            key = f"{master.name}_{cstr.name()}"
-            root_constraints[key] = root_master.solver.Constraint(
-                cstr.Lb(), cstr.Ub(), key
+        # Add all constraints to root, including those without any variable.
+        # They are not identified by their names, which may not be unique
+        constraints: List[Tuple[lp.Constraint, lp.Constraint]] = [
+            (
+                cstr,
+                root_master.solver.Constraint(
+                    cstr.Lb(), cstr.Ub(), f"{master.name}_{cstr.name()}"
+                ),
             )
+            for cstr in master.solver.constraints()
+        ]
 
         for var in master.solver.variables():
             # If variable not already in coupler, we add it
@@ -844,10 +848,9 @@ def fusion_problems(
                     var.name()
                 ].is_in_objective
 
-            for cstr in master.solver.constraints():
+            for cstr, root_cstr in constraints:
                 coeff = cstr.GetCoefficient(var)
                 if coeff != 0:
-                    root_cstr = root_constraints[f"{master.name}_{cstr.name()}"]
                     root_cstr.SetCoefficient(root_var, coeff)
 
             obj_coeff = objective.GetCoefficient(var)
-- 
2.43.0


From 892613774a84b6fcf4fe92a23a401019c1a30273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:01 +0000
Subject: [PATCH 36/54] fix: probabilities of decision tree nodes given as
 children are conditional, as those of nodes given with a parent

---
 src/andromede/simulation/decision_tree.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 1a381d3..957a342 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -42,7 +42,6 @@ class DecisionTreeNode(NodeMixin):
     id: str
     config: InterDecisionTimeScenarioConfig
     network: Network
-    prob: float
 
     coupling_network: Network
     coupling_info: CouplingInfo
@@ -72,10 +71,19 @@ class DecisionTreeNode(NodeMixin):
         if prob < 0 or 1 < prob:
             raise ValueError("Probability must be a value in the range [0, 1]")
 
-        self.prob = prob * (parent.prob if parent is not None else 1)
+        self._conditional_prob = prob
         if children:
             self.children = children
 
+    @property
+    def prob(self) -> float:
+        """
+        Product of the conditional probabilities from the root down to this node
+        """
+        return self._conditional_prob * (
+            self.parent.prob if self.parent is not None else 1
+        )
+
     def traverse(
         self, depth: Optional[int] = None
     ) -> Generator["DecisionTreeNode", None, None]:
@@ -85,9 +93,9 @@ class DecisionTreeNode(NodeMixin):
         if not self.children:
             return True
 
-        # Since we multiply the child's prob by the parent's prob
-        # in the constructor, the sum of the children prob should
-        # equal 1 * parent.prob if the values were set correctly
+        # Since the child's prob is multiplied by the parent's prob,
+        # the sum of the children prob should equal 1 * parent.prob
+        # if the values were set correctly
         if not math.isclose(self.prob, sum(child.prob for child in self.children)):
             return False
 
-- 
2.43.0


From 100162f9d87dad7d080d4cb16af7e86c374c6139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:15 +0000
Subject: [PATCH 37/54] fix: a decision tree whose root has a probability other
 than one is refused

---
 src/andromede/simulation/decision_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index 957a342..f8ec9ce 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -90,6 +90,9 @@ class DecisionTreeNode(NodeMixin):
         yield from LevelOrderIter(self, maxlevel=depth)
 
     def is_leaves_prob_sum_one(self) -> bool:
+        if self.parent is None and not math.isclose(self.prob, 1):
+            return False
+
         if not self.children:
             return True
 
-- 
2.43.0


From e274768bd924666963b7969dac057a2a1e0e5408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:35 +0000
Subject: [PATCH 38/54] fix: a port definition is checked also in the indices
 of its operators over time

---
 src/andromede/model/port.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/model/port.py b/src/andromede/model/port.py
index cf1951f..a834f0c 100644
--- a/src/andromede/model/port.py
+++ b/src/andromede/model/port.py
@@ -149,12 +149,16 @@ class _PortFieldExpressionChecker(ExpressionVisitor[None]):
 
     def time_shift(self, node: TimeShiftNode) -> None:
         visit(node.operand, self)
+        visit(node.time_shift, self)
 
     def time_eval(self, node: TimeEvalNode) -> None:
         visit(node.operand, self)
+        visit(node.eval_time, self)
 
     def time_sum(self, node: TimeSumNode) -> None:
         visit(node.operand, self)
+        visit(node.from_time, self)
+        visit(node.to_time, self)
 
     def all_time_sum(self, node: AllTimeSumNode) -> None:
         visit(node.operand, self)
-- 
2.43.0


From 9deb2accabea487dbb46f18d3498dce85e42a1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:03 +0000
Subject: [PATCH 39/54] fix: the columns of the master problem are in the same
 order at every run

---
 src/andromede/simulation/decision_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/decision_tree.py b/src/andromede/simulation/decision_tree.py
index f8ec9ce..1c58b96 100644
--- a/src/andromede/simulation/decision_tree.py
+++ b/src/andromede/simulation/decision_tree.py
@@ -177,7 +177,7 @@ class DecisionTreeNode(NodeMixin):
             coupling_variables |= node.coupling_info.variables
             coupling_constraints.update(node.coupling_info.constraints)
 
-        for var_name in coupling_variables:
+        for var_name in sorted(coupling_variables):
             variables.append(
                 # TODO For now, unbounded positive float variable
                 float_variable(
-- 
2.43.0


From 891baec28bcce130145cfec852ac22cef3fe5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:16 +0000
Subject: [PATCH 40/54] fix: the storing power of PyPSA storage units is
 limited by p_min_pu, not by p_max_pu

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index aa09f12..b0a7f5d 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -351,7 +351,7 @@ library:
           upper-bound: p_nom_max
         - id: p_store
           lower-bound: 0
-          upper-bound: p_max_pu * p_nom_max
+          upper-bound: -p_min_pu * p_nom_max
         - id: p_dispatch
           lower-bound: 0
           upper-bound: p_max_pu * p_nom_max
@@ -374,7 +374,7 @@ library:
           definition: emission_factor * 0 #Since we assume here cyclity of StorageUnits. In the future, for non-cyclic Store: (e[-1] - e[T-1])*emission_factor
       constraints:
         - id: p_store_upper
-          expression: p_store <= p_max_pu * p_nom
+          expression: p_store <= -p_min_pu * p_nom
         - id: p_dispatch_upper
           expression: p_dispatch <= p_max_pu * p_nom
         - id: state_of_charge_upper
-- 
2.43.0


From 4b5bf8cf9b10c9b72db79a909059fbfcb1af173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:16 +0000
Subject: [PATCH 41/54] fix: no undefined bounds (0 x infinity) for PyPSA
 storage units of unlimited capacity

---
 src/andromede/libs/pypsa_models/pypsa_models.yml | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/andromede/libs/pypsa_models/pypsa_models.yml b/src/andromede/libs/pypsa_models/pypsa_models.yml
index b0a7f5d..4d63c0c 100644
--- a/src/andromede/libs/pypsa_models/pypsa_models.yml
+++ b/src/andromede/libs/pypsa_models/pypsa_models.yml
@@ -351,13 +351,10 @@ library:
           upper-bound: p_nom_max
         - id: p_store
           lower-bound: 0
-          upper-bound: -p_min_pu * p_nom_max
         - id: p_dispatch
           lower-bound: 0
-          upper-bound: p_max_pu * p_nom_max
         - id: state_of_charge
           lower-bound: 0
-          upper-bound: max_hours * p_nom_max
         - id: spill
           lower-bound: 0
       ports:
-- 
2.43.0


From 75e6834e07e3778fa1390759c0e48240f2d54883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:35 +0000
Subject: [PATCH 42/54] fix: negative time steps and scenarios are not read
 from the end of a data series

---
 src/andromede/study/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/andromede/study/data.py b/src/andromede/study/data.py
index ab300b9..3691b86 100644
--- a/src/andromede/study/data.py
+++ b/src/andromede/study/data.py
@@ -199,6 +199,8 @@ class TimeScenarioSeriesData(AbstractDataStructure):
             raise KeyError("Time scenario data requires a scenario index.")
         if self.scenarization:
             scenario = self.scenarization.get_scenario_for_year(scenario)
+        if timestep < 0 or scenario < 0:
+            raise IndexError(f"No value at timestep {timestep}, scenario {scenario}.")
         value = str(self.time_scenario_series.iloc[timestep, scenario])
         return float(value)
 
-- 
2.43.0


From 1c2cfb4db411290e296e09e28ad20131897554ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:35 +0000
Subject: [PATCH 43/54] fix: groups of a scenario builder may have names that
 look like numbers or missing values

---
 src/andromede/study/parsing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/study/parsing.py b/src/andromede/study/parsing.py
index 1f79d80..0df6e61 100644
--- a/src/andromede/study/parsing.py
+++ b/src/andromede/study/parsing.py
@@ -29,7 +29,10 @@ def parse_yaml_components(input_study: TextIO) -> "InputSystem":
 
 
 def parse_scenario_builder(file: Path) -> pd.DataFrame:
-    sb = pd.read_csv(file, names=("name", "year", "scenario"))
+    # Names of groups are texts, even if they look like numbers or missing values
+    sb = pd.read_csv(
+        file, names=("name", "year", "scenario"), converters={"name": str}
+    )
     sb.rename(columns={0: "name", 1: "year", 2: "scenario"})
     return sb
 
-- 
2.43.0


From 75e2454875cd5643f42064411653435a0fa6f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:36 +0000
Subject: [PATCH 44/54] fix: a library with the id of a preloaded one is
 refused

---
 src/andromede/model/resolve_library.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/andromede/model/resolve_library.py b/src/andromede/model/resolve_library.py
index 6c65867..fd0743e 100644
--- a/src/andromede/model/resolve_library.py
+++ b/src/andromede/model/resolve_library.py
@@ -57,15 +57,25 @@ def resolve_library(
     if len(yaml_lib_dict) < len(input_libs):
         raise ValueError("Several libraries have the same id.")
 
-    preloaded_port_types = {}
+    preloaded_port_types: Dict[str, PortType] = {}
     if preloaded_libs:
         for preloaded_lib in preloaded_libs:
-            preloaded_port_types.update(preloaded_lib.port_types)
+            for id, port_type in preloaded_lib.port_types.items():
+                if preloaded_port_types.get(id, port_type) != port_type:
+                    raise ValueError(
+                        f"Different definitions of port type {id} in the preloaded libraries."
+                    )
+                preloaded_port_types[id] = port_type
 
     output_lib_dict: Dict[str, Library] = (
         dict((l.id, l) for l in preloaded_libs) if preloaded_libs else {}
     )
 
+    if len(output_lib_dict) < len(preloaded_libs or []) or (
+        output_lib_dict.keys() & yaml_lib_dict.keys()
+    ):
+        raise ValueError("Several libraries have the same id.")
+
     remaining_lib_ids: List[str] = list(yaml_lib_dict)
     treated_lib_ids: Set[str] = set()
     import_stack: List[str] = []
-- 
2.43.0


From d80df0f40885554efa051a17a0504118e1347499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:24 +0000
Subject: [PATCH 45/54] fix: long names run together in the structure file of
 an expansion problem

---
 src/andromede/simulation/benders_decomposed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 69af497..e1ac57e 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -107,7 +107,8 @@ class BendersDecomposedProblem:
         structure_str = ""
         for problem_name, candidate_to_index in problem_to_candidates.items():
             for candidate, index in candidate_to_index.items():
-                structure_str += f"{problem_name:>50}{candidate:>50}{index:>10}\n"
+                # Names longer than their column must remain separated
+                structure_str += f"{problem_name:>50}{f' {candidate}':>50}{index:>10}\n"
 
         return structure_str
 
-- 
2.43.0


From a274e8692c1a4746465aa6df39b490f5eb406c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:24 +0000
Subject: [PATCH 46/54] fix: nodes of a decision tree with the same id, or
 blocks of a node, are refused

---
 src/andromede/simulation/benders_decomposed.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index e1ac57e..172ea46 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -237,6 +237,10 @@ def build_benders_decomposed_problem(
     if not decision_tree_root.is_leaves_prob_sum_one():
         raise ValueError("Decision tree leaves' probability must sum one!")
 
+    node_ids = [tree_node.id for tree_node in decision_tree_root.traverse()]
+    if len(set(node_ids)) != len(node_ids):
+        raise ValueError(f"Nodes of a decision tree must have unique ids: {node_ids}")
+
     null_time_block = TimeBlock(
         0, [0]
     )  # Not necessary for master, but list must be non-empty
@@ -293,6 +297,11 @@ def build_benders_decomposed_problem(
                 )
             )
 
+    # Each subproblem has its own file, which must not replace another one
+    subproblem_names = [subproblem.name for subproblem in subproblems]
+    if len(set(subproblem_names)) != len(subproblem_names):
+        raise ValueError(f"Subproblems must have unique names: {subproblem_names}")
+
     master = fusion_problems(masters, coupler)
 
     return BendersDecomposedProblem(
-- 
2.43.0


From 6441df70908f95aa50e5ef8d8af56160756a660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:11 +0000
Subject: [PATCH 47/54] fix: PyPSA lines, transformers and committable or
 quadratic links are refused, not dropped

---
 src/andromede/pypsa_converter/pypsa_converter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/andromede/pypsa_converter/pypsa_converter.py b/src/andromede/pypsa_converter/pypsa_converter.py
index dd2a404..c49a39d 100644
--- a/src/andromede/pypsa_converter/pypsa_converter.py
+++ b/src/andromede/pypsa_converter/pypsa_converter.py
@@ -111,6 +111,13 @@ class PyPSAStudyConverter:
         ### PyPSA components : Links
         if not (all((self.pypsa_network.links["active"] == 1))):
             raise ValueError(f"Converter supports only Links with active = 1")
+        if not (all((self.pypsa_network.links["committable"] == False))):
+            raise ValueError(f"Converter supports only Links with commitable = False")
+        if not (all((self.pypsa_network.links["marginal_cost_quadratic"] == 0))):
+            raise ValueError(f"Converter supports only Links with linear cost")
+        ### PyPSA components : Lines and Transformers
+        if len(self.pypsa_network.lines) > 0 or len(self.pypsa_network.transformers) > 0:
+            raise ValueError(f"Converter supports only Links between Buses")
         ### PyPSA components : Storage Units
         if not (all((self.pypsa_network.storage_units["active"] == 1))):
             raise ValueError(f"Converter supports only Storage Units with active = 1")
-- 
2.43.0


From f957f49167a87167ece01dfd5e84f20c514ff0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:06 +0000
Subject: [PATCH 48/54] fix: a decomposed run after a merged one has a
 decomposed solution

---
 src/andromede/simulation/benders_decomposed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 172ea46..3c125ec 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -203,10 +203,10 @@ class BendersDecomposedProblem:
             solver_name=solver_name, log_level=log_level, is_debug=show_debug
         )
 
+        self.is_merged = should_merge
         if not should_merge:
             return_code = BendersRunner(self.emplacement).run()
         else:
-            self.is_merged = True
             return_code = MergeMPSRunner(self.emplacement).run()
 
         if return_code == 0:
-- 
2.43.0


From 33bff79e2403d0f2f7ad9629d0a26ce332a454d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:06 +0000
Subject: [PATCH 49/54] fix: a solver that cannot be executed leaves the
 working directory as it was

---
 src/andromede/simulation/runner.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/andromede/simulation/runner.py b/src/andromede/simulation/runner.py
index ac52a04..f4f9a0f 100644
--- a/src/andromede/simulation/runner.py
+++ b/src/andromede/simulation/runner.py
@@ -10,7 +10,6 @@
 #
 # This file is part of the Antares project.
 
-import os
 import pathlib
 import subprocess
 import sys
@@ -44,14 +43,13 @@ class CommandRunner:
             print("Return code 0 for now")
             return 0
 
-        os.chdir(self.emplacement)
         res = subprocess.run(
             [self.current_dir / self.command, *self.arguments],
+            cwd=self.emplacement,
             stdout=sys.stdout,
             stderr=subprocess.DEVNULL,  # TODO For now, to avoid the "Invalid MIT-MAGIC-COOKIE-1 key" error
             shell=False,
         )
-        os.chdir(self.current_dir)
 
         return res.returncode
 
-- 
2.43.0


From bf332e2dfd6acaf10646f6f5503028d9b069655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:06 +0000
Subject: [PATCH 50/54] fix: the solution of a previous run is not taken for
 the one of a run without any

---
 src/andromede/simulation/benders_decomposed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/andromede/simulation/benders_decomposed.py b/src/andromede/simulation/benders_decomposed.py
index 3c125ec..41606dc 100644
--- a/src/andromede/simulation/benders_decomposed.py
+++ b/src/andromede/simulation/benders_decomposed.py
@@ -203,6 +203,10 @@ class BendersDecomposedProblem:
             solver_name=solver_name, log_level=log_level, is_debug=show_debug
         )
 
+        # The result of a previous run must not be taken for the one of this run
+        self.solution = None
+        (self.emplacement / self.output_path / "out.json").unlink(missing_ok=True)
+
         self.is_merged = should_merge
         if not should_merge:
             return_code = BendersRunner(self.emplacement).run()
-- 
2.43.0


From eebd38f834be8a9da9c338631f4d72ddb43cbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:56 +0000
Subject: [PATCH 51/54] fix: the converter writes in the output directory it is
 given

---
 src/andromede/input_converter/src/main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/main.py b/src/andromede/input_converter/src/main.py
index 684c748..c8c9e5d 100644
--- a/src/andromede/input_converter/src/main.py
+++ b/src/andromede/input_converter/src/main.py
@@ -153,7 +153,10 @@ if __name__ == "__main__":
     if args.output_path:
         config_parser.set("study", "output_path", str(args.output_path))
 
+    output_path = config_parser["study"].get("output_path")
     converter = AntaresStudyConverter(
-        study_input=Path(config_parser["study"].get("study_path")), logger=logger
+        study_input=Path(config_parser["study"].get("study_path")),
+        logger=logger,
+        output_path=Path(output_path) / "output.yaml" if output_path else None,
     )
     converter.process_all()
-- 
2.43.0


From 401341ada5129bf4cc03aada3ba24dfae6516cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:17 +0000
Subject: [PATCH 52/54] fix: studies and outputs of the converter may have % in
 their paths

---
 src/andromede/input_converter/src/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/andromede/input_converter/src/main.py b/src/andromede/input_converter/src/main.py
index c8c9e5d..904699b 100644
--- a/src/andromede/input_converter/src/main.py
+++ b/src/andromede/input_converter/src/main.py
@@ -133,7 +133,8 @@ if __name__ == "__main__":
 
     logger: logging.Logger = Logger(__name__, log_path)
 
-    config_parser = ConfigParser()
+    # Paths are taken as they are, % included
+    config_parser = ConfigParser(interpolation=None)
 
     # Load the default configuration dictionary into the config parser.
     config_parser.read_dict(DEFAULT)
-- 
2.43.0


From a7fc9e237ca3916825b80b53799eda2cc522ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:38 +0000
Subject: [PATCH 53/54] fix: a node and a component of a network, or two models
 of a library, cannot share an identifier

---
 src/andromede/model/library.py | 8 +++++++-
 src/andromede/study/network.py | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/andromede/model/library.py b/src/andromede/model/library.py
index 4baa123..1540c7b 100644
--- a/src/andromede/model/library.py
+++ b/src/andromede/model/library.py
@@ -27,8 +27,14 @@ def library(
     port_types: Iterable[PortType],
     models: Iterable[Model],
 ) -> Library:
-    return Library(
+    port_types, models = list(port_types), list(models)
+    res = Library(
         id=id,
         port_types=dict((p.id, p) for p in port_types),
         models=dict((m.id, m) for m in models),
     )
+    if len(res.port_types) < len(port_types):
+        raise ValueError(f"Port types defined twice in library {id}.")
+    if len(res.models) < len(models):
+        raise ValueError(f"Models defined twice in library {id}.")
+    return res
diff --git a/src/andromede/study/network.py b/src/andromede/study/network.py
index ac7c24a..69cc960 100644
--- a/src/andromede/study/network.py
+++ b/src/andromede/study/network.py
@@ -136,6 +136,8 @@ class Network:
 
     def add_component(self, component: Component) -> None:
         require_not_none(component)
+        if component.id in self._nodes:
+            raise ValueError(f"{component.id} is already a node of network {self.id}.")
         self._components[component.id] = component
 
     def get_component(self, component_id: str) -> Component:
@@ -150,6 +152,8 @@ class Network:
         return self._components.values()
 
     def add_node(self, node: Node) -> None:
+        if node.id in self._components:
+            raise ValueError(f"{node.id} is already a component of network {self.id}.")
         self._nodes[node.id] = node
 
     def get_node(self, node_id: str) -> Node:
-- 
2.43.0


From a6340d6701e323bf397207ed0236a33fc68997a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:20 +0000
Subject: [PATCH 54/54] fix: connections to components which are not in the
 network are refused

---
 src/andromede/simulation/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/andromede/simulation/optimization.py b/src/andromede/simulation/optimization.py
index c704cbc..88d79d0 100644
--- a/src/andromede/simulation/optimization.py
+++ b/src/andromede/simulation/optimization.py
@@ -585,7 +585,13 @@ class OptimizationProblem:
         self._create_objectives()
 
     def _register_connection_fields_definitions(self) -> None:
+        component_ids = {c.id for c in self.context.network.all_components}
         for cnx in self.context.network.connections:
+            for port in (cnx.port1, cnx.port2):
+                if port.component.id not in component_ids:
+                    raise ValueError(
+                        f"{port.component.id} is connected but not in the network."
+                    )
             for field_name in list(cnx.master_port.keys()):
                 master_port = cnx.master_port[field_name]
                 port_definition = (
-- 
2.43.0

