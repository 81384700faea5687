From e95e51812d2ed85b43da5d94e8341cb47231c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:44 +0000
Subject: [PATCH 1/5] fix: NOT rolls follow the documented truth value (only
 values above 0 are true)

---
 python_dice/src/expression/not_expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/not_expression.py b/python_dice/src/expression/not_expression.py
index 1ba395b..86269f8 100644
--- a/python_dice/src/expression/not_expression.py
+++ b/python_dice/src/expression/not_expression.py
@@ -27,7 +27,7 @@ class NotExpression(IDiceExpression):
         self._expression = expression
 
     def roll(self) -> int:
-        return 0 if self._expression.roll() else 1
+        return 0 if self._expression.roll() > 0 else 1
 
     def max(self) -> int:
         return self.get_probability_distribution().max()
-- 
2.43.0


From 94c557968984259afc45aa0f99d1586b4dd693cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:44 +0000
Subject: [PATCH 2/5] fix: OR rolls follow the documented truth value (only
 values above 0 are true)

---
 python_dice/src/expression/binary_operator_expression.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python_dice/src/expression/binary_operator_expression.py b/python_dice/src/expression/binary_operator_expression.py
index c0880ec..eea2c3a 100644
--- a/python_dice/src/expression/binary_operator_expression.py
+++ b/python_dice/src/expression/binary_operator_expression.py
@@ -23,6 +23,12 @@ class BinaryOperatorExpression(IDiceExpression):
             return this.__not_equal__(other)
         return this != other
 
+    @staticmethod
+    def __logical_or__(this: object, other: object):
+        if isinstance(this, IProbabilityDistribution) and isinstance(other, IProbabilityDistribution):
+            return this | other
+        return this > 0 or other > 0
+
     RULE = """expression : expression BINARY_OPERATOR expression"""
     OPERATOR_MAP = {
         "==": lambda x, y: BinaryOperatorExpression.__equal__(x, y),  # pylint: disable=unnecessary-lambda
@@ -32,7 +38,7 @@ class BinaryOperatorExpression(IDiceExpression):
         ">=": operator.ge,
         ">": operator.gt,
         "AND": operator.and_,
-        "OR": operator.or_,
+        "OR": lambda x, y: BinaryOperatorExpression.__logical_or__(x, y),  # pylint: disable=unnecessary-lambda
     }
 
     @staticmethod
-- 
2.43.0


From dcc4962d958b1deeaa084b7706b5d3d204795494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:44 +0000
Subject: [PATCH 3/5] fix: the distribution of zero dice is a constant 0

---
 python_dice/src/expression/dice_expression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python_dice/src/expression/dice_expression.py b/python_dice/src/expression/dice_expression.py
index 840e6c9..4e89452 100644
--- a/python_dice/src/expression/dice_expression.py
+++ b/python_dice/src/expression/dice_expression.py
@@ -59,10 +59,8 @@ class DiceExpression(IDiceExpression):
         single_dice_distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
             self._single_dice_outcome_map
         )
-        distribution: IProbabilityDistribution = self._probability_distribution_factory.create(
-            single_dice_distribution.get_result_map()
-        )
-        for _ in range(0, self._number_of_dice - 1):
+        distribution: IProbabilityDistribution = self._probability_distribution_factory.create({0: 1})
+        for _ in range(0, self._number_of_dice):
             distribution = distribution + single_dice_distribution
         return distribution
 
-- 
2.43.0


From 8cc3254da06441754aa2827c45fa2b255af42d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:44 +0000
Subject: [PATCH 4/5] fix: accept the documented trailing comma in custom dice

---
 python_dice/src/expression/dice_expression_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_dice/src/expression/dice_expression_helper.py b/python_dice/src/expression/dice_expression_helper.py
index fb103bb..1599e95 100644
--- a/python_dice/src/expression/dice_expression_helper.py
+++ b/python_dice/src/expression/dice_expression_helper.py
@@ -34,7 +34,7 @@ def get_single_dice_outcome_map(dice_type_string: str) -> Dict[int, int]:
         value_dictionary = {-1: 1, 0: 1, 1: 1}
     else:
         value_dictionary = {}
-        for value in re.split(r",", re.sub(r"(\[|\]|\s+)", "", dice_type_string)):
+        for value in re.split(r",", re.sub(r"(\[|,?\s*\]|\s+)", "", dice_type_string)):
             multiplier = "1"
             if re.match(r"(-?\d+--?\d+|-?\d+)\*\d+", value) is not None:
                 value, multiplier = re.split(r"\*", value)
-- 
2.43.0


From 3d0452655d33b0b193ab466df5ee58cde0801c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:44 +0000
Subject: [PATCH 5/5] fix: reported results no longer alias the interpreter's
 state

---
 .../probability_distribution_state.py                         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python_dice/src/probability_distribution/probability_distribution_state.py b/python_dice/src/probability_distribution/probability_distribution_state.py
index eb45b73..ce5bdbb 100644
--- a/python_dice/src/probability_distribution/probability_distribution_state.py
+++ b/python_dice/src/probability_distribution/probability_distribution_state.py
@@ -22,10 +22,10 @@ class ProbabilityDistributionState(IProbabilityDistributionState):
         self._constraint_factory = constraint_factory
 
     def get_var_dict(self):
-        return self._var
+        return self._var.copy()
 
     def get_constant_dict(self):
-        return self._constants
+        return self._constants.copy()
 
     def has_constant(self, name) -> bool:
         return name in self._constants
-- 
2.43.0

