From 48a09b3b375cf4bd1210510872002910d0f0805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 01/73] fix: setValue stored a float given with an incoherent
 unit (operator precedence)

---
 src/sloth/core/constant.py  | 4 ++--
 src/sloth/core/parameter.py | 4 ++--
 src/sloth/core/quantity.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index a9bcc31..132fa53 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -84,14 +84,14 @@ class Constant(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 7a1e53c..39d0274 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -70,14 +70,14 @@ class Parameter(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 8152cc8..3454266 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -88,13 +88,13 @@ class Quantity:  # New-style class syntax
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
-- 
2.43.0


From bd9ce1058328b0c54dbf6547a7a595a031dd2c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 02/73] fix: arithmetic between quantities always raised
 TypeError (nameless result, no true division)

---
 src/sloth/core/quantity.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 3454266..6dda645 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -157,7 +157,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value+other_obj.value)
+            new_obj = self.__class__(name="", units = self.units, value = self.value+other_obj.value)
 
             return new_obj
 
@@ -184,7 +184,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value-other_obj.value)
+            new_obj = self.__class__(name="", units = self.units, value = self.value-other_obj.value)
 
             return new_obj
 
@@ -206,7 +206,7 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units*other_obj.units, value = self.value*other_obj.value)
+        new_obj = self.__class__(name="", units = self.units*other_obj.units, value = self.value*other_obj.value)
 
         return new_obj
 
@@ -224,10 +224,19 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units/other_obj.units, value = self.value/other_obj.value)
+        new_obj = self.__class__(name="", units = self.units/other_obj.units, value = self.value/other_obj.value)
 
         return(new_obj)
 
+    def __truediv__(self, other_obj):
+        """
+        Overloaded function for true division of two unit-containing-objects.
+
+        :rtype Variable new_obj:
+        """
+
+        return self.__div__(other_obj)
+
     def __pow__(self, power):
 
         """
@@ -243,6 +252,6 @@ class Quantity:  # New-style class syntax
 
         """
 
-        new_obj = self.__class__( units = self.units**power.value, value = self.value**power.value )
+        new_obj = self.__class__(name="", units = self.units**power.value, value = self.value**power.value )
 
         return(new_obj)
-- 
2.43.0


From 212af66a25d5ee7a87f560b791446605ef1edce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 03/73] fix: product or quotient of two unknowns lost the
 differential classification

---
 src/sloth/core/expression_evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9ff9bed..5dbddce 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -330,7 +330,7 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
@@ -431,7 +431,7 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
-- 
2.43.0


From d1da583d45f9f48e40bc8084a340064722ba86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 04/73] fix: known quantity divided by an unknown was
 classified as linear

---
 src/sloth/core/expression_evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 5dbddce..e219127 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -425,9 +425,9 @@ class EquationNode:
 
             elif self.variable_map == {} and other_obj.variable_map != {}:
 
-                # current object is a specified Quantity
+                # current object is a specified Quantity divided by an unknown
 
-                enode_.equation_type = {**other_obj.equation_type}
+                enode_.equation_type = self._checkEquationTypePrecedence(other_obj.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             else:
 
-- 
2.43.0


From 3967c753dbb9c5caabffc201dd57f0c1a6d8304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 05/73] fix: power with a specified exponent kept the base's
 dimensions (and exponents of quantities were not checked)

---
 src/sloth/core/error_definitions.py     | 4 ++--
 src/sloth/core/expression_evaluation.py | 8 +++++++-
 src/sloth/core/quantity.py              | 4 ++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index e11dc20..f30dbd5 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -159,9 +159,9 @@ class DimensionalCoherenceError(Exception):
     def __str__(self):
 
         msg = "Dimensions are incoherent \n(" + \
-               str(self.unit_1.dimension)   + \
+               str(getattr(self.unit_1, 'dimension', self.unit_1))   + \
                "\n != \n"                       + \
-               str(self.unit_2.dimension)   + \
+               str(getattr(self.unit_2, 'dimension', self.unit_2))   + \
                ")."
 
         return(msg)
diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index e219127..d75060e 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -541,12 +541,18 @@ class EquationNode:
 
                 #other_obj is dimensionless
 
+                # A specified exponent scales the dimensions as the plain number does
+
+                is_number = isinstance(other_obj.symbolic_object, int) or isinstance(other_obj.symbolic_object, float)
+
+                exponent = other_obj.symbolic_object if is_number else other_obj.unit_object
+
                 enode_ = self.__class__(
                                     name="**".join([self.name, other_obj.name]),
                                     symbolic_object=self.symbolic_object**other_obj.symbolic_object,
                                     symbolic_map={**self.symbolic_map, **other_obj.symbolic_map},
                                     variable_map={**self.variable_map, **other_obj.variable_map},
-                                    unit_object=self.unit_object**other_obj.unit_object,
+                                    unit_object=self.unit_object**exponent,
                                     latex_text=self.latex_text+"^"+other_obj.latex_text,             
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 6dda645..95f2f3e 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -252,6 +252,10 @@ class Quantity:  # New-style class syntax
 
         """
 
+        if power.units._is_dimensionless() != True:
+
+            raise DimensionalCoherenceError(power.units, None)
+
         new_obj = self.__class__(name="", units = self.units**power.value, value = self.value**power.value )
 
         return(new_obj)
-- 
2.43.0


From 02431c54a02aac15365af78dd940cac0c43e615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 06/73] fix: Log10 built a two-argument logarithm that
 numpy-compiled functions cannot evaluate

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 582e8c3..cd714e1 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -15,7 +15,7 @@ Transcedental functions for utilization in the equation definition
 
 def _Log10(sp_obj, evaluate=True):
 
-    return(sp.log(sp_obj,10,evaluate=evaluate))
+    return(sp.log(sp_obj,evaluate=evaluate)/sp.log(10))
 
 def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None, dim_check=True, ind_var=None):
 
-- 
2.43.0


From 9ac028aecb1575021ac658ca6452effedddf3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 07/73] fix: functions of plain numbers raised NameError

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index cd714e1..85737ca 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -46,7 +46,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                   variable_map={},
                                   unit_object=dimless,
                                   latex_text=f_name(latex_func_name, str(obj)),
-                                  repr_symbolic=base_func(obj, *args,evaluate=False)
+                                  repr_symbolic=base_func(obj, evaluate=False)
                                 )
 
             return enode_
-- 
2.43.0


From 158b9212c9f4f2d171cbe864075cebf07c925768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 08/73] fix: function of a derivative lost the differential
 classification

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 85737ca..cb12c86 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -66,7 +66,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                 repr_symbolic=base_func(obj.repr_symbolic, evaluate=False)
                                 )
 
-                enode_.equation_type = equation_type_
+                enode_.equation_type = obj._checkEquationTypePrecedence(obj.equation_type, equation_type_)
 
                 return enode_
 
-- 
2.43.0


From 7430cb3a7b7f9afb9d6208e3b7dd1800117f044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 09/73] fix: Min and Max rejected every set of expressions and
 did not check mixed sets

---
 src/sloth/core/equation_operators.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index cb12c86..62eff48 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -6,6 +6,7 @@ import sympy as sp
 import numpy as np
 from .expression_evaluation import EquationNode
 from .template_units import dimless
+from .error_definitions import UnexpectedValueError
 # import error_definitions as errors
 
 
@@ -184,7 +185,7 @@ def Min(*obj):
 
     elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        if all(obj_i.unit_object._check_dimensional_coherence(obj[0].unit_object) for obj_i in obj):
 
             obj_dims = obj[0].unit_object
 
@@ -194,11 +195,15 @@ def Min(*obj):
 
     else:
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
+        units_ = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')]
 
-        if obj_dims is []:
+        if len(units_) > 0 and all(unit_i._check_dimensional_coherence(units_[0]) for unit_i in units_):
 
-            obj_dims = dimless
+            obj_dims = units_[0]
+
+        else:
+
+            raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
@@ -282,7 +287,7 @@ def Max(*obj):
 
     elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        if all(obj_i.unit_object._check_dimensional_coherence(obj[0].unit_object) for obj_i in obj):
 
             obj_dims = obj[0].unit_object
 
@@ -292,11 +297,15 @@ def Max(*obj):
 
     else:
 
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
+        units_ = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')]
 
-        if obj_dims is []:
+        if len(units_) > 0 and all(unit_i._check_dimensional_coherence(units_[0]) for unit_i in units_):
 
-            obj_dims = dimless
+            obj_dims = units_[0]
+
+        else:
+
+            raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
-- 
2.43.0


From 01ba7b3fcf62a201825523227f7838882d0625e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 10/73] fix: Min and Max were classified as linear and printed
 values instead of symbols

---
 src/sloth/core/equation_operators.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 62eff48..e11d314 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -127,6 +127,8 @@ def Min(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = []
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -159,10 +161,14 @@ def Min(*obj):
 
             obj_symb_objcts.append(obj_i.symbolic_object)
 
+            obj_repr_objcts.append(obj_i.repr_symbolic)
+
         else:
 
             obj_symb_objcts.append(obj_i)
 
+            obj_repr_objcts.append(obj_i)
+
         #Gather all the symbolic and variable map from the obj
 
         try:
@@ -211,9 +217,13 @@ def Min(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Min(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Min(*obj_repr_objcts, evaluate=False)
                         )
 
+    is_differential = any(obj_i.equation_type['is_differential'] for obj_i in obj if isinstance(obj_i, EquationNode))
+
+    enode_.equation_type = {'is_linear':False, 'is_nonlinear':not is_differential, 'is_differential':is_differential}
+
     return enode_
 
 def Max(*obj):
@@ -230,6 +240,8 @@ def Max(*obj):
 
     obj_symb_objcts = []
 
+    obj_repr_objcts = []
+
     for obj_i in obj:
 
         if hasattr(obj_i,'obj_latex_name'):
@@ -262,10 +274,14 @@ def Max(*obj):
 
             obj_symb_objcts.append(obj_i.symbolic_object)
 
+            obj_repr_objcts.append(obj_i.repr_symbolic)
+
         else:
 
             obj_symb_objcts.append(obj_i)
 
+            obj_repr_objcts.append(obj_i)
+
         #Gather all the symbolic and variable map from the obj
 
         try:
@@ -313,9 +329,13 @@ def Max(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Max(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Max(*obj_repr_objcts, evaluate=False)
                         )
 
+    is_differential = any(obj_i.equation_type['is_differential'] for obj_i in obj if isinstance(obj_i, EquationNode))
+
+    enode_.equation_type = {'is_linear':False, 'is_nonlinear':not is_differential, 'is_differential':is_differential}
+
     return enode_
 
 def _Diff(obj, ind_var_):
-- 
2.43.0


From f9046a86f631500a3ceaedf2165e0230bb857178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 11/73] fix: Equation.setResidual discarded the declared
 objects

---
 src/sloth/core/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 698ed93..04027b9 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -375,7 +375,7 @@ class Equation:
 
             self.equation_form = 'elementary'
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
@@ -385,7 +385,7 @@ class Equation:
 
             self.equation_expression = equation_expression
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
-- 
2.43.0


From 2c48cd69c8209c67569c3395dfd7b3f7be46f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 12/73] fix: evaluating an equation on its own objects passed
 the objects instead of their values

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 04027b9..3141df6 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -437,7 +437,7 @@ class Equation:
 
         eq_values=symbolic_map_.values()
 
-        eval_map = dict( ( (i,j) for i, j in zip(eq_keys,eq_values) ) )
+        eval_map = dict( ( (i,getattr(j, 'value', j)) for i, j in zip(eq_keys,eq_values) ) )
 
         if isinstance(equation_expression_.symbolic_object, float) or isinstance(equation_expression_.symbolic_object, int):
 
-- 
2.43.0


From f4456548b7127ce432976d14f58f5d336c3e77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 13/73] fix: a model with an equation against a plain number
 could not be incorporated

---
 src/sloth/core/equation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 3141df6..3db5c5a 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -292,17 +292,17 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
+        self.equation_expression.repr_symbolic = sp.sympify(self.equation_expression.repr_symbolic).subs(names_map)
 
-        self.equation_expression.symbolic_object = self.equation_expression.symbolic_object.subs(names_map)
+        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = elem_expr[0].repr_symbolic.subs(names_map)
+            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).subs(names_map)
 
-            elem_expr[1].repr_symbolic = elem_expr[1].repr_symbolic.subs(names_map)
+            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).subs(names_map)
 
             try:
 
-- 
2.43.0


From fa2cfc75028e475d13fab82b6b81936b300496fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 14/73] fix: incorporating an exposed variable raised KeyError
 (builtin type used as the key)

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5f8b047..c5ee15e 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -424,7 +424,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[type].append(var_)
+            self.exposed_vars[var_.type].append(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-- 
2.43.0


From 4cc454be1a4b26fab41decddfb9fd447ac40a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 15/73] fix: models and unit operations shared one default
 ports dictionary

---
 src/sloth/model.py   | 4 ++--
 src/sloth/unit_op.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index c5ee15e..9193e70 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -132,7 +132,7 @@ class Model:
 
     """
 
-    def __init__(self, name, description = "", property_package=None, ports={'inlets':{},'outlets':{}}, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
+    def __init__(self, name, description = "", property_package=None, ports=None, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
 
         """
         Instantiate Model.
@@ -194,7 +194,7 @@ class Model:
 
         self._outputs = []
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.objects_info = {}
 
diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 972ea82..34ebce6 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -17,7 +17,7 @@ class UnitOp:
     Defines the UnitOp class, that holds the capabilities for: acessing ports (inputs, outputs) from the UnitOp objects; Predefine streams for input and output, allowing to the port to be passed directly to other UnitOps
     """
 
-    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports={'inlets':{},'outlets':{}}):
+    def __init__(self, n_inputs=0, n_outputs=0, model=None, ports=None):
 
         self.n_inputs = n_inputs
 
@@ -25,7 +25,7 @@ class UnitOp:
 
         self.model = model
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.property_package = model.property_package
 
-- 
2.43.0


From c85349a99c1cb612e6cd954d581087c072d13192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:21 +0000
Subject: [PATCH 16/73] fix: setting inlets twice listed the earlier streams
 again

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 9193e70..0f6cf3c 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -585,7 +585,7 @@ class Model:
 
         self.ports['inlets'].update({inlet_name: _inlets})
 
-        _ = [self._inlets.extend(self.ports['inlets'][in_]) for in_ in list(self.ports['inlets'].keys())]
+        self._inlets = [stream for in_ in list(self.ports['inlets'].keys()) for stream in self.ports['inlets'][in_]]
 
     def _setOutlets(self, outlets):
 
-- 
2.43.0


From 2c5a5c66af5f0ec7b3b21d6a40f7fa2926d41087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 17/73] fix: connections recorded their output variable as the
 input one and vice versa

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 0f6cf3c..1dca95d 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -630,7 +630,7 @@ class Model:
 
             description = "["+out_vars_names+"--->"+in_vars_names+"]"
 
-            conn = connection.Connection(name, description, in_vars_names, out_vars_names, expr)
+            conn = connection.Connection(name, description, out_vars_names, in_vars_names, expr)
 
             conn.setResidual(expr) # I DON'T UNDERSTAND WHY THIS NEED TO BE HERE! x)
 
-- 
2.43.0


From 77f63356ff20d61028b64bcf03b814c9cec37358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 18/73] fix: incorporating equations without renaming raised
 KeyError

---
 src/sloth/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 1dca95d..200d715 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -379,7 +379,13 @@ class Model:
         var_names_from_old_model.extend(con_names_from_old_model)
         whole_names_from_old_model = var_names_from_old_model
 
-        names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name for k in whole_names_from_old_model}
+        if rewrite_name is True:
+
+            names_map = {k: k[:-(1+len(model_to_incorporate.name))]+'_'+self.name for k in whole_names_from_old_model}
+
+        else:
+
+            names_map = {}
 
         if incorporate_equations is True:
 
-- 
2.43.0


From d18c52d80d60ce62a0a99976e76a8ab6eaea59a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 19/73] fix: rejecting a list of non-exposed variables raised
 AttributeError instead of ExposedVariableError

---
 src/sloth/core/error_definitions.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index f30dbd5..204bab3 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -14,9 +14,19 @@ class ExposedVariableError(Exception):
 
         self.m2_exposed_names = [var_i.name for var_i in model_2_exposed_vars]
 
-        self.input_var_name = input_var.name
+        self.input_var_name = self._getVarNames(input_var)
 
-        self.output_var_name = output_var.name
+        self.output_var_name = self._getVarNames(output_var)
+
+    def _getVarNames(self, var):
+
+        if isinstance(var, list):
+
+            return(",".join([var_i.name for var_i in var]))
+
+        else:
+
+            return(var.name)
 
     def __str__(self):
 
-- 
2.43.0


From e69f48895a954b2a2f1a1d164c727709ce98d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 20/73] fix: a second expression connection between the same
 models replaced the first one

---
 src/sloth/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index e5b231f..95df02a 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -275,11 +275,11 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation("conn_"+model_1+"-->"+model_2.name+":"+input_vars.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name+":"+input_vars.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             else:
 
-- 
2.43.0


From fcd160b85fa735ad64cf661ebbfee83bce975b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 21/73] fix: objects declared or redeclared after addModels
 were missing or stale in the equation block

---
 src/sloth/problem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 95df02a..214bb5c 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -158,6 +158,12 @@ class Problem:
 
         for model_i in list(self.models.values()):
 
+            #The models can have (re)declared objects after their addition to the problem
+
+            self.variable_dict.update(model_i.variables)
+
+            self.parameter_dict.update(model_i.parameters)
+
             for eq_i in list(model_i.equations.values()):
 
                 self._equation_list.append(eq_i)
-- 
2.43.0


From 80580cc722e75427cfc941d6c7aae2f16f3e4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 22/73] fix: derivatives with a coefficient (or alone) were not
 recognised in residual systems

---
 src/sloth/core/equation_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a613930..b8a5f55 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -124,7 +124,7 @@ class EquationBlock:
 
             eq = eqi._getSymbolicObject('residual','rhs')
 
-            _ = [diff_list.append(abs(i).args[0]) for i in eq.args if 'Derivative' in sp.srepr(i)]
+            _ = [diff_list.append(i) for i in sorted(eq.atoms(sp.Derivative), key=str) if i not in diff_list]
 
         return diff_list
 
-- 
2.43.0


From 2f3ce956333f50ef20b123492656ef4bc4cecfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:12 +0000
Subject: [PATCH 23/73] fix: presence of a variable in an equation was decided
 by substring of the printed members

---
 src/sloth/core/equation_block.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index b8a5f55..d9bcd93 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -270,31 +270,19 @@ class EquationBlock:
 
         for eq in where_to_look:
 
-            #print("\n======>Equation: ", eq._getSymbolicObject())
+            expr_ = eq._getSymbolicObject('residual') if hasattr(eq, '_getSymbolicObject') else eq
 
-            try:
+            expr_ = sp.sympify(expr_)
 
-                equation_members_ = eq._getSymbolicObject().args
+            #Will not trigger for 'Derivative' terms
 
-            except:
+            expr_ = expr_.xreplace({diff_i: sp.Dummy() for diff_i in expr_.atoms(sp.Derivative)})
 
-                equation_members_ = []
+            symbol_names_ = [str(symb_i) for symb_i in expr_.free_symbols]
 
-            for eq_i in equation_members_:
+            if any(var_i in symbol_names_ for var_i in var_name):
 
-                #print("\n\t======>Member: ",eq_i)
-
-                #print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(eq_i) for t_i in var_name])
-
-                #Will not trigger for 'Derivative' terms
-
-                if any(var_i in sp.srepr(eq_i) and 'Derivative' not in sp.srepr(eq_i) for var_i in var_name):
-
-                    has_been_declared = True
-
-                    break
-
-            if has_been_declared is True:
+                has_been_declared = True
 
                 break
 
-- 
2.43.0


From 4b852f662543e649e5740528fa9e3c5d282e0ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 24/73] fix: derivatives, initial derivatives and algebraic
 flags of DAE systems were not aligned with the variables

---
 src/sloth/core/equation_block.py |  8 +++++---
 src/sloth/solvers.py             | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index d9bcd93..29812f9 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -96,11 +96,13 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = ["yd[{}]".format(i) for (i,_) in enumerate(diff_list)]
-
         var_list = self._var_list
 
-        y_list = ["y[{}]".format(i) for (i,_) in enumerate(var_list)]
+        #The derivative of the i-th variable is the i-th element of yd
+
+        yd_list = [sp.IndexedBase("yd")[var_list.index(str(diff_i.args[0]))] for diff_i in diff_list]
+
+        y_list = [sp.IndexedBase("y")[i] for (i,_) in enumerate(var_list)]
 
         yd_map = {k:v for (k,v) in zip(diff_list,yd_list)}
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f06de13..814b630 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -920,11 +920,13 @@ class DaeSolver(Solver):
 
         #Adopted nomenclature for search for initial conditions defined in the Problem object for differential expressions is original_name+'_d' (eg: u_d)
 
-        yd_0 = [initial_conditions[str(diff_i.args[0])+'_d'] for diff_i in ydmap.keys()]
+        #Only the variables that appear differentiated have an initial condition for its derivative
 
-        if self.solver == None or self.solver == 'IDA':
+        diff_names = [str(diff_i.args[0]) for diff_i in ydmap.keys()]
+
+        yd_0 = [initial_conditions[var_i+'_d'] if var_i in diff_names else 0. for var_i in ymap.keys()]
 
-            yd_0.append(0.)
+        if self.solver == None or self.solver == 'IDA':
 
             # ========= SET SOLVER INSTANCES ==============
 
@@ -935,7 +937,7 @@ class DaeSolver(Solver):
                                                 name='IDA'
                                         )
 
-            problem_instance.algvar = self.problem.equation_block._getBooleanDiffFlagsForEquations()
+            problem_instance.algvar = [float(var_i in diff_names) for var_i in ymap.keys()]
 
             solver_instance = IDA(problem_instance)
 
-- 
2.43.0


From 851f36436ad7f5928d3f23379e1a1b855c2c5b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 25/73] fix: equations could not be compiled with current sympy
 (array of expressions given to lambdify)

---
 src/sloth/core/equation_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 29812f9..ad31b7d 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -177,7 +177,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   np_array(self._getEquationList(differential_form,side)),
+                                   self._getEquationList(differential_form,side),
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
@@ -197,7 +197,7 @@ class EquationBlock:
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
-                                   np_array(rewritten_eqs),
+                                   rewritten_eqs,
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
 
@@ -210,7 +210,7 @@ class EquationBlock:
         else:
 
             fun_ = sp.lambdify(self._var_list,
-                               np_array(self._equations_list),
+                               self._equations_list,
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
 
-- 
2.43.0


From 8ebae100c60927aa0d58dc998d44740a25a0df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 26/73] fix: unknown solver names were accepted (failing later
 with unrelated errors)

---
 src/sloth/solvers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 814b630..8647738 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -179,6 +179,8 @@ class LASolver(Solver):
 
             return self._symbolicSysSolveMechanism
 
+        raise AbsentRequiredObjectError("element from {}".format(['sympy', 'scipy', 'symbolicsys']), self.solver)
+
     def _sympySolveMechanism(self):
 
         var_names = [str(i) for i in self.problem.equation_block._var_list]
@@ -434,6 +436,8 @@ class DSolver(Solver):
 
             return self._assimuloSolveMechanism
 
+        raise AbsentRequiredObjectError("element from {}".format(['ODEINT', 'RADAU', 'CVODE']), self.solver)
+
     def _compileDiffSystemIntoFunction(self):
 
         """
@@ -963,6 +967,10 @@ class DaeSolver(Solver):
 
             #================================================
 
+        else:
+
+            raise AbsentRequiredObjectError("element from {}".format(['IDA']), self.solver)
+
         to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
 
         if self.additional_configurations['print_output'] == True:
-- 
2.43.0


From 206ee559e0d52c8c9b0dfd6f15841e4a1bc5e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 27/73] fix: dynamic solvers read attributes that were never
 defined (end_time, args_names)

---
 src/sloth/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 8647738..cb23217 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -621,7 +621,7 @@ class DSolver(Solver):
                     Y_.update({t_i:t})
 
             if len(args)>0:
-                args_ = self._createMappingFromValues(self.args_names, args)
+                args_ = self._createMappingFromValues(self.arg_names, args)
             else:
                 args_ = {}
 
@@ -676,7 +676,7 @@ class DSolver(Solver):
                     Y_.update({t_i:t})
 
             if len(args)>0:
-                args_ = self._createMappingFromValues(self.args_names, args)
+                args_ = self._createMappingFromValues(self.arg_names, args)
             else:
                 args_ = {}
 
@@ -719,7 +719,7 @@ class DSolver(Solver):
 
         Y_0 = [initial_conditions[var_i] for var_i in Y_names]
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time!= None:
 
             number_of_time_steps = 100#int(1000*(end_time - initial_time))
 
@@ -912,7 +912,7 @@ class DaeSolver(Solver):
 
         initial_conditions = self.problem.initial_conditions
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time!= None:
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-- 
2.43.0


From 87ad7b792b2f95b70fd1cc228fc91f74f592f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 28/73] fix: solvers modified the equation groups, the variable
 list and the configurations they were given

---
 src/sloth/solvers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index cb23217..5d04876 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -380,7 +380,7 @@ class DSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if isinstance(time_variable_name, list):
 
@@ -633,7 +633,7 @@ class DSolver(Solver):
 
                 #====== Reorder global_dict from _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
+                keys_ = list(self.problem.equation_block._var_list)
                 keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
 
                 global_dict = {k:global_dict[k] for k in keys_}
@@ -688,7 +688,7 @@ class DSolver(Solver):
 
                 #====== Reorder global_dict from _var_list from equation_block ========
 
-                keys_ = self.problem.equation_block._var_list
+                keys_ = list(self.problem.equation_block._var_list)
                 keys_.extend([i for i in list(global_dict.keys()) if i not in keys_])
 
                 global_dict = {k:global_dict[k] for k in keys_}
@@ -822,7 +822,7 @@ class DaeSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if time_variable_name not in problem.initial_conditions:
 
@@ -896,7 +896,7 @@ class DaeSolver(Solver):
 
         nlin_eqs = self.problem.equation_block._equation_groups['nonlinear']
 
-        return diff_eqs, lin_eqs.append(nlin_eqs)
+        return diff_eqs, lin_eqs + nlin_eqs
 
     def solve(self, conf_args={}):
 
-- 
2.43.0


From be65a811fdb94ed079a2f01c7d1be736ce469a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 29/73] fix: DAE solver failed for the time variable names
 taken from the problem

---
 src/sloth/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 5d04876..97cf08c 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -824,7 +824,15 @@ class DaeSolver(Solver):
 
         arg_names = list(additional_configurations['arg_names'])
 
-        if time_variable_name not in problem.initial_conditions:
+        if isinstance(time_variable_name, list):
+
+            has_initial_time_condition_declared = all(t_i in problem.initial_conditions for t_i in time_variable_name)
+
+        else:
+
+            has_initial_time_condition_declared = time_variable_name in problem.initial_conditions
+
+        if has_initial_time_condition_declared is not True:
 
             raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
 
-- 
2.43.0


From 5d5bcbd6009dcd9e4114ab4467e8c40db0ea91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 30/73] fix: results were registered under the names of other
 variables when the domain order differed

---
 src/sloth/solvers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 97cf08c..aa0a535 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -779,6 +779,12 @@ class DSolver(Solver):
 
             to_register_ = np.hstack((time_points.reshape(-1,1), Y))
 
+        # Follow the order of the columns of the domain
+
+        columns_ = [Y_names.index(name_i) for name_i in self.domain.dependent_objs.keys()]
+
+        to_register_ = to_register_[:, [0]+[i+1 for i in columns_]]
+
         if self.additional_configurations['print_output'] == True:
 
             tab = prettytable.PrettyTable()
@@ -979,7 +985,11 @@ class DaeSolver(Solver):
 
             raise AbsentRequiredObjectError("element from {}".format(['IDA']), self.solver)
 
-        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
+        # Follow the order of the columns of the domain
+
+        columns_ = [list(ymap.keys()).index(name_i) for name_i in self.domain.dependent_objs.keys()]
+
+        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), np.array(Y)[:, columns_]))
 
         if self.additional_configurations['print_output'] == True:
 
-- 
2.43.0


From e09c5daaa43d05554b140bea2a6d1dd4c385b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 31/73] fix: DAE solver ignored the times requested for the
 solution

---
 src/sloth/solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index aa0a535..ca09d5d 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -930,7 +930,13 @@ class DaeSolver(Solver):
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-        time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+        if conf_args['times_for_solution'] is None:
+
+            time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+
+        else:
+
+            time_points = list(conf_args['times_for_solution'])
 
         ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual()
 
-- 
2.43.0


From ab2e0b6da5fe075a9747dc9579730af6a051a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 32/73] fix: configurations read from a file lost the defaults
 of the absent ones

---
 src/sloth/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 7cfbd89..ca40d16 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -158,7 +158,7 @@ class Simulation:
 
             with open(configurations_file, "r") as read_file:
 
-                additional_conf = json.load(read_file)
+                additional_conf = {**default_simulation_configurations, **json.load(read_file)}
 
         elif definition_dict is not None and isinstance(definition_dict, dict):
 
-- 
2.43.0


From 9e2fca2713f86e2ee9ec3a5592bf678ed5ffe5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 33/73] fix: simulation status was always successful

---
 src/sloth/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index ca40d16..d54954a 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -292,7 +292,7 @@ class Simulation:
         Get the status of the current simulation (0 for sucess, >=1 for errors)
         """
 
-        if self.getResults() is not []:
+        if self.output is not None and len(self.getResults()) > 0:
 
             self.status = 0
 
-- 
2.43.0


From 35462f23f894fb0eac28fb1f8344a60aad83edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 34/73] fix: registering a second set of values in a domain
 raised an error (index used as columns)

---
 src/sloth/core/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index a686c57..6cb0c57 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -177,7 +177,7 @@ class Domain:
 
         elif self.values[var.name].values.size > 0 and values.shape[1] == len(self.independent_vars.keys())+len(self.dependent_objs.keys()):
 
-            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].index)
+            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].columns)
 
         else:
 
-- 
2.43.0


From 44e5cb80a095453fcec775cbea126d67f926057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 35/73] fix: bounds and kind given to an optimization problem
 were discarded

---
 src/sloth/optimization.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e5dd0d0..ec33f30 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -49,9 +49,9 @@ class OptimizationProblem:
 
         self.description = description
 
-        self.is_maximization = False
+        self.is_maximization = is_maximization
 
-        self.bounds = None
+        self.bounds = bounds
 
         self.simulation_instance = simulation_instance
 
@@ -534,7 +534,9 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            self.optimization_problem.setBounds(self.constraints)
+            if self.constraints is not None:
+
+                self.optimization_problem.setBounds(self.constraints)
 
             self.optimization_mechanism.set_verbosity(report_frequency)
 
-- 
2.43.0


From b17996b7890dbf58631ae36ddd4432acbb738654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 36/73] fix: PSO neighborhood configuration was ignored

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index ec33f30..2f69790 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -440,7 +440,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'gbest', 'Mean Vel.', 'Mean lbest', 'Avg. Dist.']
 
-                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant))
+                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff, variant=pso_variant, neighb_type=neighb_type, neighb_param=neighb_param))
 
                 #isl = pg.island(algo, self.optimization_problem, ind)
 
-- 
2.43.0


From 134c9d0427e0702329e978356f38f840ae73b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 37/73] fix: optimization configurations read from a file lost
 the defaults of the absent ones

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 2f69790..8d109da 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -267,7 +267,7 @@ class Optimization:
 
             with open(optimization_configuration, "r") as read_file:
 
-                self.optimization_configuration = json.load(read_file)
+                self.optimization_configuration = {**default_optimization_configuration, **json.load(read_file)}
 
         elif isinstance(optimization_configuration, dict):
 
-- 
2.43.0


From c457e6f5eead2b184e01eada56ed1d04e210cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 38/73] fix: unknown optimizer names were accepted

---
 src/sloth/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 8d109da..68856d8 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -448,6 +448,8 @@ class Optimization:
 
                 return('pso')
 
+            raise UnexpectedValueError("element from ['ga', 'sade', 'de', 'pso']")
+
         else:
 
             raise UnexpectedValueError("(decorated function, str)")
-- 
2.43.0


From acb6a2d66021e8572b4fe46c6feeba9cf71d9649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 39/73] fix: resolving the mixture of a property package raised
 NameError

---
 src/sloth/core/property_package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6445d64..dda4145 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -39,7 +39,7 @@ class PropertyPackage:
 
     def resolve_mixture(self):
 
-        self.mixture = thermo.mixture.Mixture(phase_names, ws, zs)
+        self.mixture = thermo.mixture.Mixture(self.phase_names, self.ws, self.zs)
 
         self.zs = self.mixture.zs
 
-- 
2.43.0


From e18ae4f22f3aa564c648c435c270c13641185240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 40/73] fix: adding property packages changed the list of
 phases shared by other packages

---
 src/sloth/core/property_package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index dda4145..b5a15a6 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -21,7 +21,7 @@ class PropertyPackage:
 
         self.number_of_phases = phases
 
-        self.phase_names = phase_names
+        self.phase_names = list(phase_names)
 
         self.T = 298.15
 
-- 
2.43.0


From fb38cfcb154ffcf43ad331e4ef9bc8da060ad8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 41/73] fix: time variable of the problem was not used for
 configurations given in a dictionary or file

---
 src/sloth/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index d54954a..4a2ab3c 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -197,6 +197,9 @@ class Simulation:
 
         # print("additional_conf is: %s"%additional_conf)
 
+        if additional_conf['time_variable_name'] is None and additional_conf['is_dynamic'] is True:
+            additional_conf['time_variable_name'] = self.problem.time_variable_name
+
         if number_parameters_to_optimize != 0 and additional_conf[
             'number_parameters_to_optimize'] != number_parameters_to_optimize:
             additional_conf['number_parameters_to_optimize'] = number_parameters_to_optimize
-- 
2.43.0


From 1753df6a2b38fa289619e969a3dfd5a4b3b2a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 42/73] fix: results of a previous run were still returned
 after a failed run

---
 src/sloth/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 4a2ab3c..df9018d 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -242,6 +242,10 @@ class Simulation:
 
             dof_analist._makeSanityChecks()
 
+        #Results from a previous run should not be available if the current one fails
+
+        self.output = None
+
         out = solver_mechanism.solve(self.configurations)
 
         '''
-- 
2.43.0


From 787654fe86f23ea5eef2e8a298622312c1a2b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 43/73] fix: unit operations without inlets raised
 AttributeError when resolved

---
 src/sloth/unit_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/unit_op.py b/src/sloth/unit_op.py
index 34ebce6..5365c6f 100644
--- a/src/sloth/unit_op.py
+++ b/src/sloth/unit_op.py
@@ -29,7 +29,7 @@ class UnitOp:
 
         self.property_package = model.property_package
 
-        self._intlets = []
+        self._inlets = []
 
         self._outlets = []
 
-- 
2.43.0


From 0811e57e1b1262f381e4ff1dc646cb81fdf6dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 44/73] fix: UnitOperationError could not be printed

---
 src/sloth/core/error_definitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index 204bab3..a02152b 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -194,6 +194,8 @@ class UnitOperationError(Exception):
 
         msg = "UnitOp object was defined for port {} with lenght {}, but a element of size {} was supplied.".format(self.port, self.n, len(self.elem))
 
+        return(msg)
+
 def _addUnitContainingOperations(a,b):
 
     return(a._checkDimensionalCoherence(b))
-- 
2.43.0


From 5c3508b497b3f64e18d963b8b6f29e9256055ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 45/73] fix: composition variables of unit operations were
 never exposed (string flag, inlet side as output)

---
 src/sloth/unit_op_library.py | 60 ++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 4722f13..83d8404 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -207,10 +207,10 @@ class Mixer(model.Model):
 
                 for phase_i in self.property_package.phase_names:
 
-                    exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                    exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                    exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                    exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                    exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                    exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.ndot_in  = self.createVariable("ndot_in", mol/s, "molar input flux", latex_text="\\dot{n}_{in}", is_exposed=True, type='input')
         self.ndot_out = self.createVariable("ndot_out", mol/s, "molar output flux", latex_text="\\dot{n}_{out}", is_exposed=True, type='output')
@@ -322,10 +322,10 @@ class Tank(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
 
@@ -437,10 +437,10 @@ class Valve(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
     def DeclareEquations(self):
@@ -547,10 +547,10 @@ class SimplePump(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
     def DeclareEquations(self):
@@ -617,10 +617,10 @@ class Heater(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
         self.ndot_in  = self.createVariable("ndot_in", mol/s, "molar input flux", latex_text="\\dot{n}_{in}", is_exposed=True, type='input')
         self.ndot_out = self.createVariable("ndot_out", mol/s, "molar output flux", latex_text="\\dot{n}_{out}", is_exposed=True, type='output')
@@ -738,10 +738,10 @@ class Flash_Dynamic(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
@@ -841,12 +841,12 @@ class Flash_SteadyState(model.Model):
 
             for phase_i in self.property_package.phase_names:
 
-                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.z_{}_L_out = self.createVariable('z_{}_L_out',dimless,'Molar fraction for {} phase in liquid output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_L_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the liquid output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
-                exec("self.z_{}_V_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i,phase_i, phase_i))
-                exec("self.w_{}_V_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed='True', type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_in = self.createVariable('z_{}_in',dimless,'Molar fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_in = self.createVariable('w_{}_in',dimless,'Mass fraction for {} phase in the input', is_exposed=True, type='input')".format(phase_i,phase_i, phase_i))
+                exec("self.z_{}_L_out = self.createVariable('z_{}_L_out',dimless,'Molar fraction for {} phase in liquid output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_L_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the liquid output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
+                exec("self.z_{}_V_out = self.createVariable('z_{}_out',dimless,'Molar fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i,phase_i, phase_i))
+                exec("self.w_{}_V_out = self.createVariable('w_{}_out',dimless,'Mass fraction for {} phase in the output', is_exposed=True, type='output')".format(phase_i, phase_i, phase_i))
 
 
         self.t = self.createVariable("t",s,"time",latex_text="t")
-- 
2.43.0


From ff8a5ad5da53d07059d58b3d6a46bcc0b4f37924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 46/73] fix: tank balances raised AttributeError and were
 dimensionally incoherent

---
 src/sloth/unit_op_library.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 83d8404..6802de2 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -347,13 +347,17 @@ class Tank(model.Model):
         self.H_out = self.createVariable("H_out", J/mol, "molar enthalpy output", latex_text="H_{out}", is_exposed=True, type='output')
         self.E = self.createVariable("E", J, "Internal energy", latex_text="E")
 
-        self.Q = self.createParameter("Q", J, "Heat rate", latex_text="Q", value=0.)
+        self.Q = self.createParameter("Q", J/s, "Heat rate", latex_text="Q", value=0.)
 
         self.E.distributeOnDomain(self.time_domain)
 
         self.level = self.createVariable("level", m, "liquid level", latex_text="L")
         self.area_sec = self.createParameter("area_sec", m**2, "squared section area", latex_text="{A}_{sec}")
 
+        self.rho = self.createParameter("rho", kg/m**3, "liquid density", latex_text="{\\rho}")
+
+        self.rho.setValue(self.property_package["*"].rho)
+
         self.level.distributeOnDomain(self.time_domain)
 
         self.P_In = self.createVariable("P_In", Pa, "p_in")
@@ -362,19 +366,19 @@ class Tank(model.Model):
 
     def DeclareEquations(self):
 
-        _molar_conservation = self.N.Diff(self.t) == self. self.ndot_in() - self.ndot_out()
+        _molar_conservation = self.N.Diff(self.t) == self.ndot_in() - self.ndot_out()
 
         self.createEquation("molar_conservation", "Molar consevation", _molar_conservation)
 
-        _mass_conservation = self.M.Diff(self.t) ==  self. self.mdot_in() - self.mdot_out()
+        _mass_conservation = self.M.Diff(self.t) == self.mdot_in() - self.mdot_out()
 
         self.createEquation("mass_conservation", "Mass conservation", _mass_conservation)
 
-        _energy_balance = self.E.Diff(self.t) == self.n_dot_in()*self.H_in() - self.n_dot_out()*self.H_out() + self.Q()
+        _energy_balance = self.E.Diff(self.t) == self.ndot_in()*self.H_in() - self.ndot_out()*self.H_out() + self.Q()
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        _level_balance = self.level.Diff(self.t) == (1./(self.property_package["*"].rho*self.area_sec()))*(self.mdot_in()-self.mdot_out())
+        _level_balance = self.level.Diff(self.t) == (1./(self.rho()*self.area_sec()))*(self.mdot_in()-self.mdot_out())
 
         self.createEquation("_level_balance", "Liquid level balance", _level_balance)
 
-- 
2.43.0


From 52bbbb015b18382bf760197caf3b9e8cc692dde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 47/73] fix: power with a derivative in the exponent lost the
 differential classification

---
 src/sloth/core/expression_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index d75060e..0e1520e 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -557,7 +557,7 @@ class EquationNode:
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
 
-                enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
                 return(enode_)
 
-- 
2.43.0


From 33f356edf7ee0b13736b3c1b842efd6344a51f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:30 +0000
Subject: [PATCH 48/73] fix: expressions created without objects shared one
 default table

---
 src/sloth/core/expression_evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 0e1520e..d30b8c2 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -61,9 +61,9 @@ class EquationNode:
 
         self.symbolic_object = symbolic_object
 
-        self.symbolic_map = symbolic_map
+        self.symbolic_map = {**symbolic_map}
 
-        self.variable_map = variable_map
+        self.variable_map = {**variable_map}
 
         self.equation_type = {'is_linear':is_linear,
                               'is_nonlinear':is_nonlinear,
-- 
2.43.0


From b12fb6bda3d8a1e32c984481ac2db4f9ac8fee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 49/73] fix: algebraic systems used only the right side of
 equations declared as left == right

---
 src/sloth/core/equation_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index ad31b7d..e64467d 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -302,6 +302,6 @@ class EquationBlock:
 
         self._var_list = self._getVarList()
 
-        self._equations_list = self._getEquationList()
+        self._equations_list = self._getEquationList('residual')
 
         self._assignEquationGroups()
\ No newline at end of file
-- 
2.43.0


From f73412248d51fc6ee8fab7263c83a5e1a46607e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 50/73] fix: scipy solver of linear systems could not build its
 matrix

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index ca09d5d..ced0e6f 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -239,9 +239,9 @@ class LASolver(Solver):
 
     def _getABfromEquations(self):
 
-        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
+        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, [sp.Symbol(var_i) for var_i in self.problem.equation_block._var_list])
 
-        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64)
+        A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64).flatten()
 
         #print("\n\nA=%s b=%s"%(A,b))
 
-- 
2.43.0


From 3948c580e0ca2fe3ab5560d76303b960c3c6c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:20 +0000
Subject: [PATCH 51/73] fix: unknown solver of nonlinear systems raised
 TypeError instead of AbsentRequiredObjectError (string formatting)

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index ced0e6f..ca9a2a9 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -284,7 +284,7 @@ class NLASolver(Solver):
 
         else:
 
-            raise AbsentRequiredObjectError("element from {}" % self.expected_solver_names, self.solver)
+            raise AbsentRequiredObjectError("element from {}".format(self.expected_solver_names), self.solver)
 
 
     def _sympySolveMechanism(self):
-- 
2.43.0


From 338cbf6ca9156d4a6630f347a7f743b4d1c3c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 52/73] fix: CVODE integrated from time zero instead of the
 initial time requested

---
 src/sloth/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index ca9a2a9..f500399 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -745,6 +745,7 @@ class DSolver(Solver):
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
                                         Y_0,
+                                        t0=initial_time,
                                         name='CVODE')
             exp_sim = CVode(exp_mod)
             exp_sim.discr='BDF'
-- 
2.43.0


From 4997b0cb9fa72b5eccc043ceb08b380f836faa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 53/73] fix: times for the solution of differential problems
 given in a list raised AttributeError

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f500399..5466941 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -729,7 +729,7 @@ class DSolver(Solver):
 
         else:
 
-            time_points = times_for_solution
+            time_points = np.array(times_for_solution)
 
         #print("\n\n\n\t\t---------->", self.solver)
 
-- 
2.43.0


From df0a68469bc187998edea2005b50427ad26a526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 54/73] fix: streams without a property package raised
 AttributeError when resolved with temperature or pressure

---
 src/sloth/unit_op_library.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 6802de2..6744a33 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -49,6 +49,11 @@ class HomogeneousMaterialStream(model.Model):
 
                 self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
 
+        #Nothing to recalculate if no property_package was defined
+        if self.property_package is None:
+
+            return None
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
@@ -103,6 +108,11 @@ class MaterialStream(model.Model):
 
                 self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
 
+        #Nothing to recalculate if no property_package was defined
+        if self.property_package is None:
+
+            return None
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
@@ -162,6 +172,11 @@ class MultiphasicMaterialStream(model.Model):
 
                 self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
 
+        #Nothing to recalculate if no property_package was defined
+        if self.property_package is None:
+
+            return None
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
-- 
2.43.0


From 08e98379cd4f8ca2d3a394f7d2ffaaf518cc94e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 55/73] fix: mixers without a property package raised
 AttributeError

---
 src/sloth/unit_op_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 6744a33..dec9fac 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -241,7 +241,7 @@ class Mixer(model.Model):
 
         self.createEquation("mass_conservation", "Mass consevation", _mass_conservation)
 
-        if self.property_package.number_of_phases >=2:
+        if self.property_package is not None and self.property_package.number_of_phases >=2:
 
             _sum_molar_frac_in = -1.
             _sum_mass_frac_in = -1.
-- 
2.43.0


From 235416d3ecf9ce704e34b65877126692c3285cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 56/73] fix: adding property packages kept the old number of
 phases

---
 src/sloth/core/property_package.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index b5a15a6..3a2fda4 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -61,6 +61,8 @@ class PropertyPackage:
 
                     self.phases.update({phase_i: pp.phases[phase_i]})
 
+            self.number_of_phases = len(self.phase_names)
+
             return self
 
         else:
-- 
2.43.0


From 8ab2d43b9164d80a5353bbded30dfa616d8a3690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 57/73] fix: printed result tables followed another variable
 order than the results of the domain

---
 src/sloth/solvers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 5466941..e6f59b6 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -786,6 +786,8 @@ class DSolver(Solver):
 
         to_register_ = to_register_[:, [0]+[i+1 for i in columns_]]
 
+        Y = to_register_[:, 1:]
+
         if self.additional_configurations['print_output'] == True:
 
             tab = prettytable.PrettyTable()
@@ -996,7 +998,9 @@ class DaeSolver(Solver):
 
         columns_ = [list(ymap.keys()).index(name_i) for name_i in self.domain.dependent_objs.keys()]
 
-        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), np.array(Y)[:, columns_]))
+        Y = np.array(Y)[:, columns_]
+
+        to_register_ = np.hstack((np.array(time_points).reshape(-1,1), Y))
 
         if self.additional_configurations['print_output'] == True:
 
-- 
2.43.0


From 694ed3135d9662d72c8ad10a5d2a3d96d7b2c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 58/73] fix: results of a dynamic simulation could not be
 printed without output headers

---
 src/sloth/simulation.py |  5 ++++-
 src/sloth/solvers.py    | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index df9018d..d1d7961 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -327,7 +327,10 @@ class Simulation:
 
             tab = prettytable.PrettyTable()
 
-            tab.field_names = self.configurations['output_headers']
+            if self.configurations['output_headers'] is None:
+                tab.field_names = list(list(self.configurations['domain'].values.values())[-1].columns)
+            else:
+                tab.field_names = self.configurations['output_headers']
 
             for i in range(len(time_points)):
                 tab.add_row(np.concatenate(([time_points[i]], Y[i, :])))
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index e6f59b6..48aff29 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -792,7 +792,10 @@ class DSolver(Solver):
 
             tab = prettytable.PrettyTable()
 
-            tab.field_names = self.additional_configurations['output_headers']
+            if self.additional_configurations['output_headers'] is None:
+                tab.field_names = list(list(self.domain.values.values())[-1].columns)
+            else:
+                tab.field_names = self.additional_configurations['output_headers']
 
             for i in range(len(time_points)):
 
@@ -1006,7 +1009,10 @@ class DaeSolver(Solver):
 
             tab = prettytable.PrettyTable()
 
-            tab.field_names = self.additional_configurations['output_headers']
+            if self.additional_configurations['output_headers'] is None:
+                tab.field_names = list(list(self.domain.values.values())[-1].columns)
+            else:
+                tab.field_names = self.additional_configurations['output_headers']
 
             for i in range(len(time_points)):
 
-- 
2.43.0


From 5cef8027e9d91ed1305e1e2ea7d6642b1cba7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 59/73] fix: plotting time series without labels raised
 TypeError

---
 src/sloth/plotter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 59e92a8..9c9b352 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -61,6 +61,10 @@ class Plotter:
 
                 raise ValueError("Improper value for x_data or y_data. \n\tThey should be either a direct reference for simulation data or reference for domain values.")
 
+        if labels is None:
+
+            labels = [None]*len(y_data)
+
         if markers is not None:
 
             for i in range(len(x_data)):
-- 
2.43.0


From b094e8209207c24e8aa385e8b6a0ec5cee2d1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 60/73] fix: names rewritten one after another mixed up objects
 when incorporating a model

---
 src/sloth/core/equation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 3db5c5a..121cdbc 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -292,21 +292,24 @@ class Equation:
                 equation_expression object.
         """
 
-        self.equation_expression.repr_symbolic = sp.sympify(self.equation_expression.repr_symbolic).subs(names_map)
+        # Names are replaced all at once, as a new name can be the old name of another object
+        symbols_map = {sp.symbols(k):sp.symbols(v) for k,v in names_map.items()}
 
-        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
+        self.equation_expression.repr_symbolic = sp.sympify(self.equation_expression.repr_symbolic).xreplace(symbols_map)
+
+        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).xreplace(symbols_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).subs(names_map)
+            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).xreplace(symbols_map)
 
-            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).subs(names_map)
+            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).xreplace(symbols_map)
 
             try:
 
-                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.subs(names_map)
+                elem_expr[0].symbolic_object = elem_expr[0].symbolic_object.xreplace(symbols_map)
 
             except:
 
@@ -314,7 +317,7 @@ class Equation:
 
             try:
 
-                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.subs(names_map)
+                elem_expr[1].symbolic_object = elem_expr[1].symbolic_object.xreplace(symbols_map)
 
             except:
 
-- 
2.43.0


From d5c71ec754ce6dcc011525ef7cc33f4c7b089704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:07 +0000
Subject: [PATCH 61/73] fix: differential-algebraic problems with explicit time
 took time as one more unknown

---
 src/sloth/core/equation_block.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index e64467d..48c125b 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -96,7 +96,11 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        var_list = self._var_list
+        #The time variable is no element of y: it is the independent variable of the derivatives
+
+        time_names = [str(t_i) for diff_i in diff_list for t_i in diff_i.variables]
+
+        var_list = [var_i for var_i in self._var_list if var_i not in time_names]
 
         #The derivative of the i-th variable is the i-th element of yd
 
@@ -192,6 +196,10 @@ class EquationBlock:
 
                 yd_map.update(y_map)
 
+                # The time variable is the first argument ('t') of the residual function
+
+                yd_map.update({str(t_i):sp.Symbol("t") for diff_i in self._getDiffList() for t_i in diff_i.variables})
+
                 original_eqs = self._getEquationList(differential_form, side)
 
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
-- 
2.43.0


From 9e065278e6668eb8fc79fef4acb73f6ade92d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 62/73] fix: inlet streams with known conditions made the
 system of their model over-specified

---
 src/sloth/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 200d715..513cf59 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -70,13 +70,13 @@ def _totalizeInletsFunction_genericMaterialStreams(main_model, set_P_by_min=True
 
         P_from_inputs = [stream.P() for stream in main_model._inlets]
 
-        _ = [main_model.createEquation("eq_P_"+stream.P.name, "", stream.P() - stream.P.value) for stream in main_model._inlets]
+        _ = [main_model.createEquation("eq_P_"+stream.P.name, "", stream.P() - stream.P.value) for stream in main_model._inlets if stream.P.is_specified is not True]
 
         try:
 
             T_from_inputs = [stream.T() for stream in main_model._inlets]
 
-            _ = [main_model.createEquation("eq_T_"+stream.T.name, "", stream.T() - stream.T.value) for stream in main_model._inlets]
+            _ = [main_model.createEquation("eq_T_"+stream.T.name, "", stream.T() - stream.T.value) for stream in main_model._inlets if stream.T.is_specified is not True]
 
         except:
 
-- 
2.43.0


From dc018c07f719ffd24a7d7771855c63a709936431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 63/73] fix: differential equations declared in other forms
 than dx/dt == f were integrated wrongly

---
 src/sloth/core/equation.py       | 30 ++++++++++++++++++++++++++++++
 src/sloth/core/equation_block.py |  2 +-
 src/sloth/solvers.py             | 10 ++++++----
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 121cdbc..34e05e5 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -396,6 +396,36 @@ class Equation:
 
             raise UnexpectedValueError("[EquationNode, tuple(EquationNode, EquationNode) ]")
 
+    def _isolateDerivative(self):
+
+        """
+        Rewrite the current differential equation in its explicit form (dx/dt == f), no matter on which side of the equality the derivative was declared
+
+        :return derivative, expression:
+            Derivative that appears in the equation, and the symbolic expression which it is equal to
+        :rtype tuple(sympy.Derivative, sympy.Expr):
+        """
+
+        residual = sp.sympify(self._getSymbolicObject('residual'))
+
+        derivatives = list(residual.atoms(sp.Derivative))
+
+        if len(derivatives) != 1:
+
+            raise UnexpectedValueError("differential equation with a single derivative")
+
+        if self.elementary_equation_expression is not None and self._getSymbolicObject('elementary', 'lhs') == derivatives[0]:
+
+            return derivatives[0], sp.sympify(self._getSymbolicObject('elementary', 'rhs'))
+
+        solutions = sp.solve(residual, derivatives[0])
+
+        if len(solutions) != 1:
+
+            raise UnexpectedValueError("differential equation explicit in its derivative")
+
+        return derivatives[0], solutions[0]
+
     def eval(self, symbolic_map=None, side=None):
 
         """
diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 48c125b..c8b27bd 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -181,7 +181,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   self._getEquationList(differential_form,side),
+                                   [eq_i._isolateDerivative()[1] for eq_i in self.equations],
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 48aff29..071cd04 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -402,6 +402,8 @@ class DSolver(Solver):
 
         self.diffY = self.setUpDiffY()
 
+        self.diffExpressions = [eq_i._isolateDerivative()[1] for eq_i in self.diffSystem]
+
         self.arg_names = arg_names
 
         # Differently from another solvers, solver_mechanism is not initialized because this is done in the solving time (Simulation.runSimulation), where the user can set additional args and configuration args
@@ -505,7 +507,7 @@ class DSolver(Solver):
 
         y_map_ = {**y_dict, **args_dict}
 
-        res = [eq_i.eval(y_map_, side='rhs') for eq_i in self.diffSystem]
+        res = [expression_i.evalf(subs=y_map_) for expression_i in self.diffExpressions]
 
         return res
 
@@ -547,7 +549,7 @@ class DSolver(Solver):
                  eq_i.elementary_equation_expression[1].args)
                 )
             """
-            y_name.append(str(eq_i.elementary_equation_expression[0].symbolic_object.args[0]))
+            y_name.append(str(eq_i._isolateDerivative()[0].args[0]))
 
         return y_name
 
@@ -580,9 +582,9 @@ class DSolver(Solver):
 
         for eq_i in self.diffSystem:
 
-            s_map_dict = eq_i.elementary_equation_expression[0].symbolic_map
+            name_i = str(eq_i._isolateDerivative()[0].args[0])
 
-            Y_.update(s_map_dict)
+            Y_[name_i] = eq_i.equation_expression.symbolic_map[name_i]
 
         #============================================
 
-- 
2.43.0


From 4236ba24c1e10b592906f91e19a01839b82b7f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 64/73] fix: well-posed dynamic systems with several time
 variables, or time in an algebraic equation, were refused

---
 src/sloth/analysis.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index dbdd29b..d49aad8 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -78,11 +78,17 @@ class DOF_Analysis:
 
         """
 
-        has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name, "differential")
+        # Each time variable of a differential problem on which the equations depend is determined by the integration itself
 
-        if has_time_var_declared_in_diff_eq is True:
+        time_names_ = self.problem.time_variable_name
 
-            n_eqs += 1
+        if isinstance(time_names_, list) is not True:
+
+            time_names_ = [time_names_]
+
+        if len(self.problem.equation_block._equation_groups["differential"]) > 0:
+
+            n_eqs += len([t_i for t_i in set(time_names_) if self.problem.equation_block._hasVarBeenDeclared(t_i) is True])
 
         n_dof = n_vars + n_unspec_params - n_eqs
 
-- 
2.43.0


From 71c05ffe5b926ca7404e0c7f9587ed5397614126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:17 +0000
Subject: [PATCH 65/73] fix: plot cut off the curves of all but the last
 abscissae

---
 src/sloth/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 9c9b352..89e852a 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -77,9 +77,6 @@ class Plotter:
                              linewidth=linewidth
                         )
 
-
-                    plt.xlim(min(x_data[i].reshape(-1)),max(x_data[i].reshape(-1)))
-
         else:
 
             for i in range(len(x_data)):
@@ -91,7 +88,11 @@ class Plotter:
                              linewidth=linewidth
                         )
 
-                    plt.xlim(min(x_data[i].reshape(-1)),max(x_data[i].reshape(-1)))
+        if len(x_data) > 0:
+
+            # The horizontal range holds every abscissa given
+            plt.xlim(min(min(x_i.reshape(-1)) for x_i in x_data),max(max(x_i.reshape(-1)) for x_i in x_data))
+
         plt.xlabel(x_label)
 
         plt.ylabel(y_label)
-- 
2.43.0


From e1a0eae856c0182b8262ebe927eacac36509d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 66/73] fix: a variable declared again stayed exposed next to
 its earlier declaration

---
 src/sloth/model.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 513cf59..286dde3 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -428,9 +428,7 @@ class Model:
 
         self.variables[var_.name] = var_
 
-        if var_.is_exposed == True:
-
-            self.exposed_vars[var_.type].append(var_)
+        self._exposeVariable(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
@@ -716,12 +714,27 @@ class Model:
 
         self.variables[var.name] = var
 
-        if is_exposed == True:
-
-            self.exposed_vars[type].append(var)
+        self._exposeVariable(var)
 
         return var
 
+    def _exposeVariable(self, var):
+
+        """
+        Expose a Variable object (if it is to be exposed) in place of the one previously declared under the same name, if any
+
+        :param Variable var:
+            Variable object of the current model
+        """
+
+        for direction_i in self.exposed_vars.keys():
+
+            self.exposed_vars[direction_i] = [var_i for var_i in self.exposed_vars[direction_i] if var_i.name != var.name]
+
+        if var.is_exposed == True:
+
+            self.exposed_vars[var.type].append(var)
+
     def createParameterArray(self, name, size, units, description = "", value = 0, latex_text=""):
 
         """
-- 
2.43.0


From 38cad76154b3056bd70cfae764900cdd8bb71ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 67/73] fix: resolving again duplicated the equations declared
 without a name

---
 src/sloth/core/equation.py |  4 +++-
 src/sloth/model.py         | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 34e05e5..5a3ef77 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -47,7 +47,9 @@ class Equation:
 
         """
 
-        if name is "":
+        self.has_automatic_name = name is ""
+
+        if self.has_automatic_name:
 
             name = gen_rnd_str()
 
diff --git a/src/sloth/model.py b/src/sloth/model.py
index 286dde3..461ed9d 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -190,6 +190,8 @@ class Model:
         except:
             self.connections = {}
 
+        self._unnamed_equations = []
+
         self._inlets = []
 
         self._outputs = []
@@ -553,6 +555,14 @@ class Model:
         Overloaded function used to resolve all the configurations necessary for model definition, such as equation, variable, parameters and constant declarations, etc
         """
 
+        #Equations declared without a name get another one in every declaration, so those of the previous declaration are dropped
+
+        for eq_name in self._unnamed_equations:
+
+            self.equations.pop(eq_name, None)
+
+        previous_equations = list(self.equations.keys())
+
         self.DeclareConstants()
 
         self.DeclareParameters()
@@ -565,6 +575,8 @@ class Model:
 
         self.DeclareEquations()
 
+        self._unnamed_equations = [eq_name for eq_name, eq_i in self.equations.items() if eq_i.has_automatic_name and eq_name not in previous_equations]
+
         if len(self.variables) == 0 and self.ignore_variable_warning is False:
 
             print("Warning: No variables were declared.")
-- 
2.43.0


From 623fd153296437b92ed73a19a26bd47a3ba488e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 68/73] fix: a variable that was given a value is not counted
 and solved as an unknown

---
 src/sloth/core/equation.py | 10 ++++++++++
 src/sloth/problem.py       |  6 ++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 5a3ef77..dbc5c84 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -203,6 +203,16 @@ class Equation:
 
             raise UnresolvedPanicError()
 
+    def _hasSymbol(self, name):
+
+        """
+         Inform if the residual of the equation contains the symbol of the given name, i.e. if the corresponding object entered it without a value.
+        """
+
+        residual = sp.sympify(self.equation_expression.symbolic_object)
+
+        return name in [str(symbol_i) for symbol_i in residual.atoms(sp.Symbol)]
+
     def _sweepObjects(self):
 
         """
diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 214bb5c..ac978dc 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -170,6 +170,12 @@ class Problem:
 
                 for obj_i in list(eq_i.objects_declared.values()):
 
+                    if isinstance(obj_i, Variable) and obj_i.is_specified and not eq_i._hasSymbol(obj_i.name):
+
+                        # Its value stands in the equation: it is not an unknown of it
+
+                        continue
+
                     if obj_i not in _var_list and isinstance(obj_i, Variable):
 
                         _var_dict[obj_i.name] = obj_i
-- 
2.43.0


From c8710d7c8aa5fc8217ced8dcd1eec6413ada0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 69/73] fix: results of a previous run were still returned
 after a run stopped before solving

---
 src/sloth/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index d1d7961..540752d 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -208,6 +208,10 @@ class Simulation:
 
     def runSimulation(self, sanity_check=True, show_output_msg=True, show_final_residuals=True):
 
+        #Results from a previous run should not be available if the current one fails
+
+        self.output = None
+
         print_heading()
 
         problem_type = self.configurations['problem_type']
@@ -242,10 +246,6 @@ class Simulation:
 
             dof_analist._makeSanityChecks()
 
-        #Results from a previous run should not be available if the current one fails
-
-        self.output = None
-
         out = solver_mechanism.solve(self.configurations)
 
         '''
-- 
2.43.0


From c56028ed5a6cd6e656a2bce5dd595c895b4c61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 70/73] fix: a differential equation with its derivative on
 both sides could not be solved for it

---
 src/sloth/core/equation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index dbc5c84..1b8eb4a 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -428,7 +428,11 @@ class Equation:
 
         if self.elementary_equation_expression is not None and self._getSymbolicObject('elementary', 'lhs') == derivatives[0]:
 
-            return derivatives[0], sp.sympify(self._getSymbolicObject('elementary', 'rhs'))
+            rhs = sp.sympify(self._getSymbolicObject('elementary', 'rhs'))
+
+            if not rhs.has(sp.Derivative):
+
+                return derivatives[0], rhs
 
         solutions = sp.solve(residual, derivatives[0])
 
-- 
2.43.0


From 3aceca8efebc15184c92f97591129959545f8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 71/73] fix: a connection replaced an earlier one between the
 same models and inputs that states something else

---
 src/sloth/model.py   | 33 ++++++++++++++++++++++++++++++++-
 src/sloth/problem.py | 20 +++++++++++++++++---
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 461ed9d..33b1ccd 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -607,6 +607,35 @@ class Model:
 
         pass
 
+    def _getConnectionSuffix(self, name, expression, ending=""):
+
+        """
+        Define what is appended to the name of a connection, in order to not replace other connection of the current model with that name. A connection which states the same is the connection itself.
+
+        :param str name:
+            Name for the connection
+
+        :param EquationNode expression:
+            Residual of the connection
+
+        :param str ending:
+            Ending of the name with which the connection is going to be registered
+
+        :return suffix:
+            Empty string if the name is free
+        :rtype str:
+        """
+
+        suffix, i = "", 1
+
+        while name+suffix+ending in self.equations and self.equations[name+suffix+ending].equation_expression.repr_symbolic != expression.repr_symbolic:
+
+            i += 1
+
+            suffix = " ("+str(i)+")"
+
+        return suffix
+
     def _createConnection(self, name, description, out_vars, in_vars, out_model, expr):
 
         """
@@ -652,7 +681,9 @@ class Model:
 
             conn._sweepObjects()
 
-            self.equations[name] = conn
+            conn.name += self._getConnectionSuffix(name, conn.equation_expression)
+
+            self.equations[conn.name] = conn
 
             return(conn)
 
diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index ac978dc..8afa136 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -287,11 +287,23 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name+":"+input_vars.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                expr_ = input_vars - output_vars
+
+                name_ = "conn_"+model_1+"-->"+model_2.name+":"+input_vars.name
+
+                name_ += model_2._getConnectionSuffix(name_, expr_, "_"+model_2.name)
+
+                model_2.createEquation(name_, "Connection from "+model_1+" to "+model_2.name, expr_, check_equation=False)
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name+":"+input_vars.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                expr_ = input_vars - output_vars
+
+                name_ = "conn_"+model_1.name+"-->"+model_2.name+":"+input_vars.name
+
+                name_ += model_2._getConnectionSuffix(name_, expr_, "_"+model_2.name)
+
+                model_2.createEquation(name_, "Connection from "+model_1.name+" to "+model_2.name, expr_, check_equation=False)
 
             else:
 
@@ -312,7 +324,9 @@ class Problem:
 
         #in_model._createConnection(out_var.name+"--->"+in_var.name, description, out_var, in_var, out_model, expr)
 
-        self.connections[out_var_names+"@"+out_model.name+" ---> "+in_var_names+"@"+in_model.name] = conn
+        suffix_ = conn.name[len(out_var_names+"--->"+in_var_names):]
+
+        self.connections[out_var_names+"@"+out_model.name+" ---> "+in_var_names+"@"+in_model.name+suffix_] = conn
 
         #return conn
 
-- 
2.43.0


From 00292bf83bdbaa769663204ba64cc40636295ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 72/73] fix: an equation given anew as one expression kept the
 sides of its earlier form

---
 src/sloth/core/equation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 1b8eb4a..42d336e 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -400,6 +400,10 @@ class Equation:
 
             self.equation_expression = equation_expression
 
+            self.elementary_equation_expression = None
+
+            self.equation_form = 'residual'
+
             self._sweepObjects()
 
             self._getTypeFromExpression()
-- 
2.43.0


From e08a13729042f8fed651c0f31e7f9ac282f1e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 73/73] fix: mass fractions of a property package were taken
 for molar fractions by its mixture

---
 src/sloth/core/property_package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 3a2fda4..ccf86ac 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -39,7 +39,7 @@ class PropertyPackage:
 
     def resolve_mixture(self):
 
-        self.mixture = thermo.mixture.Mixture(self.phase_names, self.ws, self.zs)
+        self.mixture = thermo.mixture.Mixture(self.phase_names, zs=self.zs, ws=self.ws)
 
         self.zs = self.mixture.zs
 
-- 
2.43.0

