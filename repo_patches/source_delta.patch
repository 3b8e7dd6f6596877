From 8d0257f2965a4f550148ca3fd5c9ee4e0bb2b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:14 +0000
Subject: [PATCH 01/64] fix: expression function names are matched in full and
 never past the end of the string

"sqrt" was recognised by its first three characters, so "sqrx(4)" was evaluated as a square root and an
expression ending in "sqr" was read past its terminator; the fixed-size memcmp of the other names also read past it.
---
 src/ExpressionEvaluator.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 983b20b..787d3b4 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -672,32 +672,32 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     }
 
     // Functions
-    else if( 0 == memcmp(expPtr-1, "sin" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "sin" , 3) ) {
       expPtr += 3-1;
       node.ID = SIN;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "cos" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "cos" , 3) ) {
       expPtr += 3-1;
       node.ID = COS;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "tan" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "tan" , 3) ) {
       expPtr += 3-1;
       node.ID = TAN;  node.precedence = 7;  info = LeftAssociative;
     }
 
-    else if( 0 == memcmp(expPtr-1, "exp" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "exp" , 3) ) {
       expPtr += 3-1;
       node.ID = EXPONENTIAL;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "log" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "log" , 3) ) {
       expPtr += 3-1;
       node.ID = LOG;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "sqrt", 3) ) {
+    else if( 0 == strncmp(expPtr-1, "sqrt", 4) ) {
       expPtr += 4-1;
       node.ID = SQRT;  node.precedence = 7;  info = LeftAssociative;
     }
-    else if( 0 == memcmp(expPtr-1, "abs" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "abs" , 3) ) {
       expPtr += 3-1;
       node.ID = ABS;  node.precedence = 7;  info = LeftAssociative;
     }
@@ -705,7 +705,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     // For two argument functions push the function on to the next ID
     // stack. But do not create a node. The node will be created when
     // the corresponding comma is found.
-    else if( 0 == memcmp(expPtr-1, "pow" , 3) ) {
+    else if( 0 == strncmp(expPtr-1, "pow" , 3) ) {
       expPtr += 3-1; twoParamFunctionIDs.push_back( POWER );
       twoParamFunctionLocations.push_back( strlen(expression) - strlen(expPtr) - 1 );
 
@@ -729,7 +729,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
       }
     }
     // Fixed constant
-    else if( 0 == memcmp(expPtr-1, "PI"  , 2) ) {
+    else if( 0 == strncmp(expPtr-1, "PI"  , 2) ) {
       expPtr += 2-1;
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
       node.number = M_PI;
-- 
2.43.0


From e74e92263f1b68f7446e91594bcda62f67475624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:14 +0000
Subject: [PATCH 02/64] fix: the comma of pow(a,b) binds looser than any
 operator in its arguments

pow(1+2,2) was evaluated as 1+2^2 and pow(2,1+1) as 2^1+1.
---
 src/ExpressionEvaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 787d3b4..4f004a7 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -717,7 +717,7 @@ void ExpressionEvaluator::parse_expression( const char* expression )
     else if( c == ',' ) {
       if( twoParamFunctionIDs.size() )
       {
-        node.ID = twoParamFunctionIDs.back();  node.precedence = 5;  info = LeftAssociative;
+        node.ID = twoParamFunctionIDs.back();  node.precedence = 1;  info = LeftAssociative;
         twoParamFunctionIDs.pop_back();
         twoParamFunctionLocations.pop_back();
       }
-- 
2.43.0


From cd095bb0ccb8c3115b3229750deb2988db76a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:14 +0000
Subject: [PATCH 03/64] fix: factorials above 20! no longer overflow a long

---
 src/ExpressionEvaluator.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 4f004a7..49eba33 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -303,12 +303,13 @@ ExpressionEvaluator::validate_expression() const
 // Helper factorial function
 double ExpressionEvaluator::factorial( double n ) const
 {
-  long ans = 1, m = (long) n;
+  double ans = 1;
+  long m = (long) n;
 
-  for( long i=1; i<=m; ++i )
+  for( long i=1; i<=m && std::isfinite(ans); ++i )
     ans *= i;
 
-  return (double) ans;
+  return ans;
 }
 
 // ************************************************************************* //
-- 
2.43.0


From 53786f7270bc28235dc40bf488cb09eb51a0fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:14 +0000
Subject: [PATCH 04/64] fix: malformed number literals such as 1e, 1.2.3 or
 1e5.5 are rejected

They were accepted as their longest valid prefix, or with an uninitialised value.
---
 src/ExpressionEvaluator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 49eba33..6496fe2 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -794,7 +794,16 @@ void ExpressionEvaluator::parse_expression( const char* expression )
 
       // Get the actual number from the string.
       number[i] = '\0';
-      sscanf(number, "%lf", &node.number);
+      char* numberEnd = nullptr;
+      node.number = strtod(number, &numberEnd);
+
+      if( *numberEnd != '\0' && errorMsg.str().empty() )
+      {
+        errorMsg << "Invalid expression: "
+                 << "The number '" << number << "' is malformed.";
+        break;
+      }
+
       node.ID = NUMBER;  node.precedence = 7;  info = LeftAssociative;
     }
 
-- 
2.43.0


From fbe9add927fc78ae556353ce6271a7b58accd2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:14 +0000
Subject: [PATCH 05/64] fix: empty parentheses are rejected

"()sin(2)" was accepted: the empty pair vanished from the tree.
---
 src/ExpressionEvaluator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 6496fe2..618aada 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -562,6 +562,13 @@ void ExpressionEvaluator::parse_expression( const char* expression )
                  << "corresponding open parenthesis '('";
         break;
       }
+      // When closing make sure there is something between the parentheses
+      else if( previous.ID == OPEN_PARENTHESIS )
+      {
+        errorMsg << "Invalid expression: "
+                 << "Found nothing between '(' and ')'.";
+        break;
+      }
       // When closing make sure there is not an open absolute value bar
       else if( numOpenAbsBars.back() > 0 )
       {
-- 
2.43.0


From 5b80e6be1e433b67d8dc49cdc438b9e30062bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:01 +0000
Subject: [PATCH 06/64] fix: parsing stops at an over-long number or variable
 name

The loop went on to the end of the string and then measured the text after its terminator for the error message.
---
 src/ExpressionEvaluator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ExpressionEvaluator.cpp b/src/ExpressionEvaluator.cpp
index 618aada..abb6ef5 100644
--- a/src/ExpressionEvaluator.cpp
+++ b/src/ExpressionEvaluator.cpp
@@ -799,12 +799,15 @@ void ExpressionEvaluator::parse_expression( const char* expression )
           break;
       }
 
+      if( !errorMsg.str().empty() )
+        break;
+
       // Get the actual number from the string.
       number[i] = '\0';
       char* numberEnd = nullptr;
       node.number = strtod(number, &numberEnd);
 
-      if( *numberEnd != '\0' && errorMsg.str().empty() )
+      if( *numberEnd != '\0' )
       {
         errorMsg << "Invalid expression: "
                  << "The number '" << number << "' is malformed.";
@@ -848,6 +851,9 @@ void ExpressionEvaluator::parse_expression( const char* expression )
           break;
       }
 
+      if( !errorMsg.str().empty() )
+        break;
+
       // Save the variable name.
       variable[i] = '\0';
       node.variable = variable;
-- 
2.43.0


From a0c7e22ba5a35dab936aaedc25c153cd815506a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:23 +0000
Subject: [PATCH 07/64] fix: blas1::fill by ordinals visits the ordinals, not
 the output entries

---
 src/BLAS1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BLAS1.hpp b/src/BLAS1.hpp
index b77afa6..327bcdc 100644
--- a/src/BLAS1.hpp
+++ b/src/BLAS1.hpp
@@ -156,7 +156,7 @@ inline void fill(const Plato::Scalar & aMultiplier,
         THROWERR(tMsg.str().c_str())
     }
 
-    const Plato::OrdinalType tNumLocalVals = aOutput.size();
+    const Plato::OrdinalType tNumLocalVals = aOrdinals.size();
     Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumLocalVals), LAMBDA_EXPRESSION(const Plato::OrdinalType & aIndex)
     {
         aOutput(aOrdinals(aIndex)) = aMultiplier * aValues(aIndex);
-- 
2.43.0


From a85e0aab932d4ca143cfd34676869b234c269826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:23 +0000
Subject: [PATCH 08/64] fix: getDataAsNonBlock no longer reads past the end of
 the row map

---
 src/PlatoMathHelpers.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index 58d05f5..f294598 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -210,7 +210,8 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / tNumRowsPerBlock;
             auto tLocalRowIndex = tMatrixRowIndex % tNumRowsPerBlock;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            // the last entry of the row map ends the last row, there is no row after it
+            auto tTo   = (tMatrixRowIndex < tNumMatrixRows) ? tRowMap(tBlockRowIndex+1) : tFrom;
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * tBlockSize + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
@@ -221,7 +222,8 @@ getDataAsNonBlock( const Teuchos::RCP<Plato::CrsMatrixType>       & aMatrix,
             auto tBlockRowIndex = tMatrixRowIndex / aRowStride;
             auto tLocalRowIndex = tMatrixRowIndex % aRowStride;
             auto tFrom = tRowMap(tBlockRowIndex);
-            auto tTo   = tRowMap(tBlockRowIndex+1);
+            // the last entry of the row map ends the last row, there is no row after it
+            auto tTo   = (tMatrixRowIndex < tNumMatrixRows) ? tRowMap(tBlockRowIndex+1) : tFrom;
             auto tBlockRowSize = tTo - tFrom;
             aMatrixRowMap(tMatrixRowIndex) = tFrom * aRowStride * tNumColsPerBlock + tLocalRowIndex * tBlockRowSize * tNumColsPerBlock;
         });
-- 
2.43.0


From 212d37c5484def4cc95525880779b8b0de98c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:14 +0000
Subject: [PATCH 09/64] fix: conditional_expression takes the second consequent
 whenever X > Y

---
 src/PlatoMathHelpers.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/PlatoMathHelpers.hpp b/src/PlatoMathHelpers.hpp
index f294598..28a026f 100644
--- a/src/PlatoMathHelpers.hpp
+++ b/src/PlatoMathHelpers.hpp
@@ -39,11 +39,7 @@ conditional_expression(const Plato::Scalar & aX,
                        const Plato::Scalar & aA,
                        const Plato::Scalar & aB)
 {
-    auto tConditionalExpression = aX - aY - static_cast<Plato::Scalar>(1.0);
-    tConditionalExpression = exp(tConditionalExpression);
-    Plato::OrdinalType tCoeff = fmin(static_cast<Plato::Scalar>(1.0), tConditionalExpression);
-    Plato::Scalar tScalarCoeff = tCoeff;
-    auto tOutput = tScalarCoeff * aB + (static_cast<Plato::Scalar>(1.0) - tScalarCoeff) * aA;
+    auto tOutput = (aX > aY) ? aB : aA;
     return (tOutput);
 }
 // function conditional_expression
-- 
2.43.0


From 5fe7c9342dd7337e93b984b3376d188eb7ede20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:14 +0000
Subject: [PATCH 10/64] fix: Dirichlet values are moved to the rhs with the
 column of the constrained dof

The rhs correction used the row of the constrained dof, which is the right
coefficient for symmetric matrices only.
---
 src/ApplyConstraints.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ApplyConstraints.hpp b/src/ApplyConstraints.hpp
index a33dcfb..ce13d9a 100644
--- a/src/ApplyConstraints.hpp
+++ b/src/ApplyConstraints.hpp
@@ -47,9 +47,6 @@ template<int NumDofPerNode>
                 }
                 else
                 {
-                    // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-                    // to maintain symmetry
-                    Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tEntryOrdinal)*tValue);
                     tMatrixEntries(tEntryOrdinal) = 0.0;
                     OrdinalType tColRowStart = tRowMap(tColumnNodeOrdinal  );
                     OrdinalType tColRowEnd   = tRowMap(tColumnNodeOrdinal+1);
@@ -61,7 +58,9 @@ template<int NumDofPerNode>
                         auto tColRowDofOrdinal = NumDofPerNode*tColRowNodeOrdinal+tLocalRowDofOrdinal;
                         if (tColRowDofOrdinal == tRowDofOrdinal)
                         {
-                            // this is the (col, row) entry -- clear it, too
+                            // this is the (col, row) entry -- clear it, too, to maintain symmetry
+                            // and move its (now known) contribution to the rhs
+                            Kokkos::atomic_add(&aRhs(tColumnDofOrdinal), -tMatrixEntries(tColRowEntryOrdinal)*tValue);
                             tMatrixEntries(tColRowEntryOrdinal) = 0.0;
                         }
                     }
@@ -114,9 +113,6 @@ applyConstraints(
       }
       else
       {
-        // correct the rhs to account for the fact that we'll be zeroing out (col,row) as well
-        // to maintain symmetry
-        Kokkos::atomic_add(&rhs(column), -matrixEntries(entryOrdinal)*value);
         matrixEntries(entryOrdinal) = 0.0;
         OrdinalType colRowStart = rowMap(column  );
         OrdinalType colRowEnd   = rowMap(column+1);
@@ -125,7 +121,9 @@ applyConstraints(
           OrdinalType colRowColumn = columnIndices(colRowEntryOrdinal);
           if (colRowColumn == nodeNumber)
           {
-            // this is the (col, row) entry -- clear it, too
+            // this is the (col, row) entry -- clear it, too, to maintain symmetry
+            // and move its (now known) contribution to the rhs
+            Kokkos::atomic_add(&rhs(column), -matrixEntries(colRowEntryOrdinal)*value);
             matrixEntries(colRowEntryOrdinal) = 0.0;
           }
         }
-- 
2.43.0


From 5fcbf2d5ef976ae020805dd39e1b95b6c6f74d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:16 +0000
Subject: [PATCH 11/64] fix: a Bingo equation index past an unterminated last
 line is an error

---
 src/CustomMaterial.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CustomMaterial.cpp b/src/CustomMaterial.cpp
index f8c3a23..e364bed 100644
--- a/src/CustomMaterial.cpp
+++ b/src/CustomMaterial.cpp
@@ -90,10 +90,15 @@ CustomMaterial::GetCustomExpressionValue(
           line.clear();
 
           // Read the equation requested, default is the first.
-          while( std::getline(infile, line) && equationIndex > 0)
+          bool found_line = bool(std::getline(infile, line));
+
+          while( found_line && equationIndex > 0)
+          {
             --equationIndex;
+            found_line = bool(std::getline(infile, line));
+          }
 
-          if( line.empty() || equationIndex != 0 )
+          if( !found_line || line.empty() || equationIndex != 0 )
           {
             THROWERR( "Cannot find Bingo equation requested." );
           }
-- 
2.43.0


From 503dde16719ba725bb02045b76648b6b1aa96070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:16 +0000
Subject: [PATCH 12/64] fix: 1-D temperature dependent isotropic stiffness
 divides by (1+v)(1-2v) and requires c0

---
 src/IsotropicStiffness.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/IsotropicStiffness.cpp b/src/IsotropicStiffness.cpp
index 6bdad7d..fbd2722 100644
--- a/src/IsotropicStiffness.cpp
+++ b/src/IsotropicStiffness.cpp
@@ -10,13 +10,15 @@ namespace Plato {
       auto tYoungsModParams = aParams.sublist("Youngs Modulus");
       T v = Plato::ParseTools::getParam<T>(aParams, "Poissons Ratio"); /*throw if not found*/
 
-      T E0 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c0", 0.0);
+      T E0 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c0"); /*throw if not found*/
       T E1 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c1", 0.0);
       T E2 = Plato::ParseTools::getParam<T>(tYoungsModParams, "c2", 0.0);
 
-      c0[0][0] = E0*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c1[0][0] = E1*((1.0+v)*(1.0-2.0*v))*(1.0-v);
-      c2[0][0] = E2*((1.0+v)*(1.0-2.0*v))*(1.0-v);
+      T c = 1.0/((1.0+v)*(1.0-2.0*v));
+
+      c0[0][0] = E0*c*(1.0-v);
+      c1[0][0] = E1*c*(1.0-v);
+      c2[0][0] = E2*c*(1.0-v);
   }
 
   template<>
-- 
2.43.0


From 4da5d6e8ed4c4fb2bf76e0a3c6cc35d35b498219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:16 +0000
Subject: [PATCH 13/64] fix: explicit elastic stiffness coefficients are read
 from the 'Elastic Stiffness' list itself

---
 src/ThermoelasticMaterial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index e797a1d..ce259b0 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -54,7 +54,7 @@ namespace Plato {
       }
       else
       {
-          this->parseRank4Voigt("Elastic Stiffness", tParams);
+          this->parseRank4Voigt("Elastic Stiffness", paramList);
       }
   }
 
-- 
2.43.0


From f9a2757b841e9c46d20ec5f493fca5d30dc63327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:16 +0000
Subject: [PATCH 14/64] fix: thermoelastic stiffness is stored as the kind its
 model type reads

---
 src/ThermoelasticMaterial.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ThermoelasticMaterial.hpp b/src/ThermoelasticMaterial.hpp
index ce259b0..fda8e88 100644
--- a/src/ThermoelasticMaterial.hpp
+++ b/src/ThermoelasticMaterial.hpp
@@ -45,6 +45,19 @@ namespace Plato {
       auto tParams = paramList.sublist("Elastic Stiffness");
       if (tParams.isSublist("Youngs Modulus"))
       {
+          if (this->type() == Plato::MaterialModelType::Linear)
+          {
+              THROWERR("Found a temperature dependent 'Youngs Modulus' in a linear model. Set Parameter 'Temperature Dependent' to 'true'.");
+          }
+          this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
+      }
+      else
+      if (tParams.isType<Plato::Scalar>("Youngs Modulus") && this->type() == Plato::MaterialModelType::Nonlinear)
+      {
+          // a constant modulus in a temperature dependent model
+          auto tYoungsModulus = tParams.get<Plato::Scalar>("Youngs Modulus");
+          tParams.remove("Youngs Modulus");
+          tParams.sublist("Youngs Modulus").set<Plato::Scalar>("c0", tYoungsModulus);
           this->setRank4VoigtFunctor("Elastic Stiffness", Plato::IsotropicStiffnessFunctor<SpatialDim>(tParams));
       }
       else
-- 
2.43.0


From 68a97dfac061b0c72922949e532189defabbb3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:02 +0000
Subject: [PATCH 15/64] fix: penalty setParameters no longer reads past the end
 of the map for omitted parameters

---
 src/Heaviside.hpp | 20 ++++++++++++++++----
 src/Ramp.hpp      | 15 ++++++++++++---
 src/Simp.hpp      | 15 ++++++++++++---
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 4aad7d5..82e4a15 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -78,28 +78,40 @@ public:
         {
             mPenaltyParam = 1.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1.0; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Ramp.hpp b/src/Ramp.hpp
index 6d593b6..1ef9078 100644
--- a/src/Ramp.hpp
+++ b/src/Ramp.hpp
@@ -69,21 +69,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
diff --git a/src/Simp.hpp b/src/Simp.hpp
index afdd661..23d46c9 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -77,21 +77,30 @@ public:
         {
             mPenaltyParam = 3.0; // default value
         }
-        mPenaltyParam = tParamMapIterator->second;
+        else
+        {
+            mPenaltyParam = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Minimum Value");
         if(tParamMapIterator == aInputs.end())
         {
             mMinValue = 1e-9; // default value
         }
-        mMinValue = tParamMapIterator->second;
+        else
+        {
+            mMinValue = tParamMapIterator->second;
+        }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
         if(tParamMapIterator == aInputs.end())
         {
             mAdditiveContinuationValue = 0.1; // default value
         }
-        mAdditiveContinuationValue = tParamMapIterator->second;
+        else
+        {
+            mAdditiveContinuationValue = tParamMapIterator->second;
+        }
     }
 
     /******************************************************************************//**
-- 
2.43.0


From 54df093cd6dd64f9b7f4cce96c04958e70f3090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:02 +0000
Subject: [PATCH 16/64] fix: Heaviside::setParameters stores the regularization
 length, not the minimum value

---
 src/Heaviside.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Heaviside.hpp b/src/Heaviside.hpp
index 82e4a15..8f69853 100644
--- a/src/Heaviside.hpp
+++ b/src/Heaviside.hpp
@@ -96,11 +96,11 @@ public:
         tParamMapIterator = aInputs.find("Regularization Length");
         if(tParamMapIterator == aInputs.end())
         {
-            mMinValue = 1.0; // default value
+            mRegLength = 1.0; // default value
         }
         else
         {
-            mMinValue = tParamMapIterator->second;
+            mRegLength = tParamMapIterator->second;
         }
 
         tParamMapIterator = aInputs.find("Additive Continuation");
-- 
2.43.0


From 8e7bd6a7c22011d11e86c45c42a9d7e9530622b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:05 +0000
Subject: [PATCH 17/64] fix: SIMP returns a value, not an expression over
 destroyed temporaries

---
 src/Simp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simp.hpp b/src/Simp.hpp
index 23d46c9..75054ea 100644
--- a/src/Simp.hpp
+++ b/src/Simp.hpp
@@ -138,7 +138,7 @@ public:
     template<typename ScalarType>
     DEVICE_TYPE inline ScalarType operator()( const ScalarType & aInput ) const
     {
-        auto tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
+        ScalarType tOutput = mMinValue + ( (static_cast<ScalarType>(1.0) - mMinValue) * pow(aInput, mPenaltyParam) );
         return tOutput;
     }
 };
-- 
2.43.0


From 43998522f573599ad7f00db3fc136b6d025bf4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:52 +0000
Subject: [PATCH 18/64] fix: cell_mass adds a value, not an expression over
 destroyed temporaries

---
 src/Plato_TopOptFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Plato_TopOptFunctors.hpp b/src/Plato_TopOptFunctors.hpp
index 7c402ca..1ee0773 100644
--- a/src/Plato_TopOptFunctors.hpp
+++ b/src/Plato_TopOptFunctors.hpp
@@ -32,7 +32,7 @@ cell_mass(const Plato::OrdinalType & aCellOrdinal,
         ControlType tNodalMass = 0.0;
         for(Plato::OrdinalType tIndex_J = 0; tIndex_J < CellNumNodes; tIndex_J++)
         {
-            auto tValue = aBasisFunc(tIndex_I) * aBasisFunc(tIndex_J) * aCellControls(aCellOrdinal, tIndex_J);
+            ControlType tValue = aBasisFunc(tIndex_I) * aBasisFunc(tIndex_J) * aCellControls(aCellOrdinal, tIndex_J);
             tNodalMass += tValue;
         }
         tCellMass += tNodalMass;
-- 
2.43.0


From 8a6ba16781196bb71858c24bbaf6371b27903a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:33 +0000
Subject: [PATCH 19/64] fix: 2-D eigenvalues with a negative shear component

---
 src/Eigenvalues.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Eigenvalues.hpp b/src/Eigenvalues.hpp
index 62a23e4..bc591be 100644
--- a/src/Eigenvalues.hpp
+++ b/src/Eigenvalues.hpp
@@ -194,7 +194,7 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
     ResultType tTensor11 = aVoigtTensor(aCellOrdinal, 0);
     ResultType tTensor22 = aVoigtTensor(aCellOrdinal, 1);
     ResultType tTau = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tTau = (tTensor22 - tTensor11) / (tTwo * tTensor12);
 
     ResultType tTangent = tMinusOne / (sqrt(tOne + tTau*tTau) - tTau);
@@ -203,9 +203,9 @@ Eigenvalues<2>::operator()(const Plato::OrdinalType & aCellOrdinal,
 
     ResultType tCosine = tOne;
     ResultType tSine   = tZero;
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tCosine = tOne / sqrt(tOne + tTangent*tTangent);
-    if (tTensor12 > tZero)
+    if (tTensor12 != tZero)
         tSine   = tTangent * tCosine;
 
     aEigenvalues(aCellOrdinal, 0) = tCosine * (tTensor11*tCosine - tTensor12*tSine) -
-- 
2.43.0


From 3c10d5bf91f19a72d31db62ccae7f9d9d408686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:44 +0000
Subject: [PATCH 20/64] fix: tensor p-norms apply a non-integer exponent
 instead of truncating it

The exponent is read as a Scalar and the p-th root is taken with that value, but the
norm functors received it as an ordinal, so 2.5 raised to 2 and took the 2.5-th root.
---
 src/TensorPNorm.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 5b8b7e7..e9c5dad 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -29,7 +29,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -81,7 +81,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
 
@@ -182,7 +182,7 @@ public:
     DEVICE_TYPE inline void operator()(Plato::OrdinalType cellOrdinal,
                                        Plato::ScalarVectorT<ResultScalarType> pnorm,
                                        Plato::ScalarMultiVectorT<TensorScalarType> voigtTensor,
-                                       Plato::OrdinalType p,
+                                       Plato::Scalar p,
                                        Plato::ScalarVectorT<VolumeScalarType> cellVolume) const
     {
         TensorScalarType s[barlatLength] = {0.0};
-- 
2.43.0


From 40d5445167ef608d83661201ad4927059a442e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:44 +0000
Subject: [PATCH 21/64] fix: the Barlat exponent is read with the type it was
 checked for

An integer 'Barlat Exponent' passed the type check and then threw when read as a Scalar.
---
 src/TensorPNorm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index e9c5dad..4f12d27 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -128,7 +128,7 @@ public:
         auto p = params.sublist("Normalize").sublist("Barlat");
         if(p.isType < Plato::OrdinalType > ("Barlat Exponent"))
         {
-            mBarlatExponent = p.get<Plato::Scalar>("Barlat Exponent");
+            mBarlatExponent = p.get<Plato::OrdinalType>("Barlat Exponent");
         }
         if(p.isType<Plato::Scalar>("Reference Weight"))
         {
-- 
2.43.0


From 9d68c6351b88a428f9d4607dae981953dffc8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:44 +0000
Subject: [PATCH 22/64] fix: Barlat norm of stresses with coinciding principal
 deviators is not NaN

For uniaxial stress the ratio passed to acos is 1 up to round-off, and 0/0 for
hydrostatic or zero stress.
---
 src/TensorPNorm.hpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/TensorPNorm.hpp b/src/TensorPNorm.hpp
index 4f12d27..e7adefc 100644
--- a/src/TensorPNorm.hpp
+++ b/src/TensorPNorm.hpp
@@ -118,6 +118,23 @@ class BarlatNormFunctor
     Plato::Scalar mCp[barlatLength][barlatLength];
     Plato::Scalar mCpp[barlatLength][barlatLength];
 
+    // acos(Q / P^(3/2)), with the ratio kept in [-1,1]: it is +-1 up to round-off when two principal
+    // values coincide (e.g. uniaxial stress) and undefined when all three do (P = 0)
+    template<typename ScalarType>
+    DEVICE_TYPE inline ScalarType angle(const ScalarType & Q, const ScalarType & P) const
+    {
+        ScalarType theta = 0.0;
+        if(P > 0.0)
+        {
+            ScalarType ratio = Q / pow(P, 3.0 / 2.0);
+            if(ratio <= -1.0)
+                theta = acos(-1.0);
+            else if(ratio < 1.0)
+                theta = acos(ratio);
+        }
+        return theta;
+    }
+
 public:
 
     BarlatNormFunctor(Teuchos::ParameterList& params) :
@@ -235,22 +252,22 @@ public:
         if(Hp1 * Hp1 + Hp2 > 0.0)
             Pp = Hp1 * Hp1 + Hp2;
         TensorScalarType Qp = (2.0 * Hp1 * Hp1 * Hp1 + 3.0 * Hp1 * Hp2 + 2.0 * Hp3) / 2.0;
-        TensorScalarType Thetap = acos(Qp / pow(Pp, 3.0 / 2.0));
+        TensorScalarType Thetap = angle(Qp, Pp);
 
         TensorScalarType Ppp = 0.0;
         if(Hpp1 * Hpp1 + Hpp2 > 0.0)
             Ppp = Hpp1 * Hpp1 + Hpp2;
         TensorScalarType Qpp = (2.0 * Hpp1 * Hpp1 * Hpp1 + 3.0 * Hpp1 * Hpp2 + 2.0 * Hpp3) / 2.0;
-        TensorScalarType Thetapp = acos(Qpp / pow(Ppp, 3.0 / 2.0));
+        TensorScalarType Thetapp = angle(Qpp, Ppp);
 
         //Apply the analytic solutions for the SVD stress deviators
-        TensorScalarType Sp1 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos(Thetap / 3.0));
-        TensorScalarType Sp2 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos((Thetap + 4.0 * acos(-1.0)) / 3.0));
-        TensorScalarType Sp3 = (Hp1 + 2.0 * sqrt(Hp1 * Hp1 + Hp2) * cos((Thetap + 2.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Sp1 = (Hp1 + 2.0 * sqrt(Pp) * cos(Thetap / 3.0));
+        TensorScalarType Sp2 = (Hp1 + 2.0 * sqrt(Pp) * cos((Thetap + 4.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Sp3 = (Hp1 + 2.0 * sqrt(Pp) * cos((Thetap + 2.0 * acos(-1.0)) / 3.0));
 
-        TensorScalarType Spp1 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos(Thetapp / 3.0));
-        TensorScalarType Spp2 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos((Thetapp + 4.0 * acos(-1.0)) / 3.0));
-        TensorScalarType Spp3 = (Hpp1 + 2.0 * sqrt(Hpp1 * Hpp1 + Hpp2) * cos((Thetapp + 2.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Spp1 = (Hpp1 + 2.0 * sqrt(Ppp) * cos(Thetapp / 3.0));
+        TensorScalarType Spp2 = (Hpp1 + 2.0 * sqrt(Ppp) * cos((Thetapp + 4.0 * acos(-1.0)) / 3.0));
+        TensorScalarType Spp3 = (Hpp1 + 2.0 * sqrt(Ppp) * cos((Thetapp + 2.0 * acos(-1.0)) / 3.0));
 
         //Apply the Barlat yield function to get effective response.
         pnorm(cellOrdinal) = pow((pow(Sp1 - Spp1, mBarlatExponent) + pow(Sp1 - Spp2, mBarlatExponent)
-- 
2.43.0


From c73b7384215498764599401e1990843dfbaa753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:44 +0000
Subject: [PATCH 23/64] fix: the 1-D Voigt map refers to component (0,0)

It referred to (1,1), outside the 1x1 tensors it indexes.
---
 src/VoigtMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VoigtMap.hpp b/src/VoigtMap.hpp
index 0fd3aa0..de52cf9 100644
--- a/src/VoigtMap.hpp
+++ b/src/VoigtMap.hpp
@@ -10,7 +10,7 @@ namespace Plato {
   struct VoigtMap<1> {
     Plato::OrdinalType I[1];
     Plato::OrdinalType J[1];
-    VoigtMap() : I{1}, J{1} {}
+    VoigtMap() : I{0}, J{0} {}
   };
   template<>
   struct VoigtMap<2> {
-- 
2.43.0


From 14da716bb3318c56b8c2cca55d07949a62a9fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:25 +0000
Subject: [PATCH 24/64] fix: complex Rayleigh damping acts on every node of the
 cell

Only the degrees of freedom of the first node were computed; the damping forces of the
others kept whatever the output held.
---
 src/AdjointComplexRayleighDamping.hpp | 21 ++++++++++++++-------
 src/ComplexRayleighDamping.hpp        | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/AdjointComplexRayleighDamping.hpp b/src/AdjointComplexRayleighDamping.hpp
index db65578..d25bcaa 100644
--- a/src/AdjointComplexRayleighDamping.hpp
+++ b/src/AdjointComplexRayleighDamping.hpp
@@ -75,15 +75,22 @@ public:
         assert(aElasticForces.extent(1) == aInertialForces.extent(1));
         assert(aDampingForces.extent(1) == aInertialForces.extent(1));
 
-        for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+        const Plato::OrdinalType tNumDofsPerNode = 2 * SpaceDim; // real and imaginary parts
+        const Plato::OrdinalType tNumNodes = aDampingForces.extent(1) / tNumDofsPerNode;
+        for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < tNumNodes; tNodeIndex++)
         {
-            aDampingForces(aCellOrdinal, tDimIndex) = static_cast<Plato::Scalar>(-1) *
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, SpaceDim + tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, SpaceDim + tDimIndex)) );
+            for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+            {
+                const Plato::OrdinalType tRealDof = (tNodeIndex * tNumDofsPerNode) + tDimIndex;
+                const Plato::OrdinalType tImagDof = tRealDof + SpaceDim;
+                aDampingForces(aCellOrdinal, tRealDof) = static_cast<Plato::Scalar>(-1) *
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tImagDof)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tImagDof)) );
 
-            aDampingForces(aCellOrdinal, SpaceDim + tDimIndex) =
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, tDimIndex)) );
+                aDampingForces(aCellOrdinal, tImagDof) =
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tRealDof)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tRealDof)) );
+            }
         }
     }
 };
diff --git a/src/ComplexRayleighDamping.hpp b/src/ComplexRayleighDamping.hpp
index a0bdf29..e313530 100644
--- a/src/ComplexRayleighDamping.hpp
+++ b/src/ComplexRayleighDamping.hpp
@@ -72,15 +72,22 @@ public:
         assert(aElasticForces.extent(1) == aInertialForces.extent(1));
         assert(aDampingForces.extent(1) == aInertialForces.extent(1));
 
-        for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+        const Plato::OrdinalType tNumDofsPerNode = 2 * SpaceDim; // real and imaginary parts
+        const Plato::OrdinalType tNumNodes = aDampingForces.extent(1) / tNumDofsPerNode;
+        for(Plato::OrdinalType tNodeIndex = 0; tNodeIndex < tNumNodes; tNodeIndex++)
         {
-            aDampingForces(aCellOrdinal, tDimIndex) = 
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, SpaceDim + tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, SpaceDim + tDimIndex)) );
+            for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
+            {
+                const Plato::OrdinalType tRealDof = (tNodeIndex * tNumDofsPerNode) + tDimIndex;
+                const Plato::OrdinalType tImagDof = tRealDof + SpaceDim;
+                aDampingForces(aCellOrdinal, tRealDof) = 
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tImagDof)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tImagDof)) );
 
-            aDampingForces(aCellOrdinal, SpaceDim + tDimIndex) = static_cast<Plato::Scalar>(-1) *
-                    ( (mMassConstant * aInertialForces(aCellOrdinal, tDimIndex)) +
-                            (mStiffConstant * aElasticForces(aCellOrdinal, tDimIndex)) );
+                aDampingForces(aCellOrdinal, tImagDof) = static_cast<Plato::Scalar>(-1) *
+                        ( (mMassConstant * aInertialForces(aCellOrdinal, tRealDof)) +
+                                (mStiffConstant * aElasticForces(aCellOrdinal, tRealDof)) );
+            }
         }
     }
 };
-- 
2.43.0


From 48b4de77a8a2fc56b23e73537d685849b1ffab5d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:06:00 +0000
Subject: [PATCH 25/64] fix: chamber pressure diverges to NaN when the start
 lies below the maximum of the balance

---
 src/Plato_AlgebraicRocketModel.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Plato_AlgebraicRocketModel.hpp b/src/Plato_AlgebraicRocketModel.hpp
index 076a4f1..2e3103c 100644
--- a/src/Plato_AlgebraicRocketModel.hpp
+++ b/src/Plato_AlgebraicRocketModel.hpp
@@ -340,7 +340,9 @@ private:
         {
             Plato::Scalar tMyResidualEvaluation = this->residual(aRefMassProductionRate, tNewTotalPressure, aThroatArea);
             Plato::Scalar tMyJacobianEvaluation = this->jacobian(aRefMassProductionRate, tNewTotalPressure, aThroatArea);
-            Plato::Scalar tDeltaPressure = (static_cast<Plato::Scalar>(-1.0) * tMyResidualEvaluation) / tMyJacobianEvaluation;
+            // the equilibrium lies where the residual decreases; while it still increases, the tangent leads away from it
+            Plato::Scalar tDeltaPressure = tMyJacobianEvaluation < static_cast<Plato::Scalar>(0.0) ?
+                (static_cast<Plato::Scalar>(-1.0) * tMyResidualEvaluation) / tMyJacobianEvaluation : tNewTotalPressure;
             tNewTotalPressure += tDeltaPressure;
 
             mNumNewtonItr += static_cast<size_t>(1);
-- 
2.43.0


From 5f815287267f69d415556cb2a679ddf25a7d0ccf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:06:00 +0000
Subject: [PATCH 26/64] fix: rocket model announces fewer time steps than it
 takes

---
 src/Plato_AlgebraicRocketModel.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Plato_AlgebraicRocketModel.hpp b/src/Plato_AlgebraicRocketModel.hpp
index 2e3103c..8c713e2 100644
--- a/src/Plato_AlgebraicRocketModel.hpp
+++ b/src/Plato_AlgebraicRocketModel.hpp
@@ -258,7 +258,8 @@ public:
     **********************************************************************************/
     void initialize(Plato::ProblemParams & aParams)
     {
-        aParams.mNumTimeSteps = mTotalBurnTime / mDeltaTime;
+        // as many steps as solve() takes: it burns until the total burn time is reached
+        aParams.mNumTimeSteps = std::ceil((mTotalBurnTime - mNewtonTolerance) / mDeltaTime);
         mImmersedGeomModel->initialize(aParams);
     }
 
-- 
2.43.0


From fa2f560c8fb0248a80bfccc43e0a0495fd0ef2c5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:06:41 +0000
Subject: [PATCH 27/64] fix: saved output states change when the fields are
 overwritten in place

---
 src/PlatoStaticsTypes.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/PlatoStaticsTypes.hpp b/src/PlatoStaticsTypes.hpp
index 0141965..2f98b26 100644
--- a/src/PlatoStaticsTypes.hpp
+++ b/src/PlatoStaticsTypes.hpp
@@ -85,7 +85,12 @@ struct DataMap
 
   void saveState()
   {
-    stateDataMaps.push_back(getState());
+    // the fields are overwritten in place by later steps: keep copies, not views of them
+    auto tState = getState();
+    for(auto& tEntry : tState.scalarVectors)      { copyView(tEntry.second); }
+    for(auto& tEntry : tState.scalarMultiVectors) { copyView(tEntry.second); }
+    for(auto& tEntry : tState.scalarArray3Ds)     { copyView(tEntry.second); }
+    stateDataMaps.push_back(tState);
   }
 
   DataMap getState() const
@@ -114,6 +119,15 @@ struct DataMap
       }
     }
   }
+
+private:
+  template<typename ViewType>
+  static void copyView(ViewType & aView)
+  {
+    ViewType tCopy(aView.label(), aView.layout());
+    Kokkos::deep_copy(tCopy, aView);
+    aView = tCopy;
+  }
 };
 // struct DataMap
 
-- 
2.43.0


From 8741b624091a5adda0c866cd18eb0f44d2fcf6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:12 +0000
Subject: [PATCH 28/64] fix: electroelastic materials read the value of 'Alpha'
 in 1-D and 2-D

---
 src/LinearElectroelasticMaterial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearElectroelasticMaterial.cpp b/src/LinearElectroelasticMaterial.cpp
index 0a69c58..ccabbd7 100644
--- a/src/LinearElectroelasticMaterial.cpp
+++ b/src/LinearElectroelasticMaterial.cpp
@@ -10,7 +10,7 @@ LinearElectroelasticMaterial<1>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
@@ -30,7 +30,7 @@ LinearElectroelasticMaterial<2>()
 /******************************************************************************/
 {
     if (paramList.isType<Plato::Scalar>("Alpha")){
-      mAlpha = paramList.isType<Plato::Scalar>("Alpha");
+      mAlpha = paramList.get<Plato::Scalar>("Alpha");
     }
 
     Plato::Scalar v = paramList.get<Plato::Scalar>("Poissons Ratio");
-- 
2.43.0


From d9c989d206cd4d602894cda7a07e42066bc7af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:12 +0000
Subject: [PATCH 29/64] fix: surface integral weights no longer hold
 expressions of destroyed temporaries

---
 src/NaturalBCUtilities.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NaturalBCUtilities.hpp b/src/NaturalBCUtilities.hpp
index 3c2cc83..45a37db 100644
--- a/src/NaturalBCUtilities.hpp
+++ b/src/NaturalBCUtilities.hpp
@@ -299,8 +299,8 @@ ComputeSurfaceIntegralWeight<2>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
-    auto tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
+    const ConfigScalarType tJ11 = aJacobian(aFaceOrdinal, 0, 0) * aJacobian(aFaceOrdinal, 0, 0);
+    const ConfigScalarType tJ12 = aJacobian(aFaceOrdinal, 0, 1) * aJacobian(aFaceOrdinal, 0, 1);
     aOutput = aMultiplier * sqrt( tJ11 + tJ12 );
 }
 // class ComputeSurfaceIntegralWeight<2>::operator()
@@ -317,9 +317,9 @@ ComputeSurfaceIntegralWeight<3>::operator()
  const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
  ResultScalarType & aOutput) const
 {
-    auto tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
-    auto tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
-    auto tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
+    const ConfigScalarType tJ23 = aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1);
+    const ConfigScalarType tJ31 = aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2);
+    const ConfigScalarType tJ12 = aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0);
     aOutput = aMultiplier * sqrt(tJ23*tJ23 + tJ31*tJ31 + tJ12*tJ12);
 }
 // class ComputeSurfaceIntegralWeight<3>::operator()
-- 
2.43.0


From 3c5cb7b9b4ae1a21681c0f3ed63dff48430cf1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:12 +0000
Subject: [PATCH 30/64] fix: shape derivative of pressure loads includes the
 change of the surface normal

---
 src/NaturalBCUtilities.hpp      | 45 +++++++++++++++++++++++++++++++++
 src/SurfacePressureIntegral.hpp | 17 ++++++++-----
 2 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/src/NaturalBCUtilities.hpp b/src/NaturalBCUtilities.hpp
index 45a37db..107856c 100644
--- a/src/NaturalBCUtilities.hpp
+++ b/src/NaturalBCUtilities.hpp
@@ -324,5 +324,50 @@ ComputeSurfaceIntegralWeight<3>::operator()
 }
 // class ComputeSurfaceIntegralWeight<3>::operator()
 
+/***************************************************************************//**
+ * \brief Compute weighted (not oriented) surface normal vector (1-D)
+*******************************************************************************/
+template<typename ConfigScalarType>
+DEVICE_TYPE inline void weighted_surface_normal
+(const Plato::OrdinalType & aFaceOrdinal,
+ const Plato::Scalar & aMultiplier,
+ const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
+ ConfigScalarType (&aOutput)[1])
+{
+    aOutput[0] = aMultiplier;
+}
+// function weighted_surface_normal - 1D
+
+/***************************************************************************//**
+ * \brief Compute weighted (not oriented) surface normal vector (2-D)
+*******************************************************************************/
+template<typename ConfigScalarType>
+DEVICE_TYPE inline void weighted_surface_normal
+(const Plato::OrdinalType & aFaceOrdinal,
+ const Plato::Scalar & aMultiplier,
+ const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
+ ConfigScalarType (&aOutput)[2])
+{
+    aOutput[0] =  aMultiplier * aJacobian(aFaceOrdinal,0,1);
+    aOutput[1] = -aMultiplier * aJacobian(aFaceOrdinal,0,0);
+}
+// function weighted_surface_normal - 2D
+
+/***************************************************************************//**
+ * \brief Compute weighted (not oriented) surface normal vector (3-D)
+*******************************************************************************/
+template<typename ConfigScalarType>
+DEVICE_TYPE inline void weighted_surface_normal
+(const Plato::OrdinalType & aFaceOrdinal,
+ const Plato::Scalar & aMultiplier,
+ const Plato::ScalarArray3DT<ConfigScalarType> & aJacobian,
+ ConfigScalarType (&aOutput)[3])
+{
+    aOutput[0] = aMultiplier * (aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,2) - aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,1));
+    aOutput[1] = aMultiplier * (aJacobian(aFaceOrdinal,0,2) * aJacobian(aFaceOrdinal,1,0) - aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,2));
+    aOutput[2] = aMultiplier * (aJacobian(aFaceOrdinal,0,0) * aJacobian(aFaceOrdinal,1,1) - aJacobian(aFaceOrdinal,0,1) * aJacobian(aFaceOrdinal,1,0));
+}
+// function weighted_surface_normal - 3D
+
 }
 // namespace Plato
diff --git a/src/SurfacePressureIntegral.hpp b/src/SurfacePressureIntegral.hpp
index 604a885..85c7532 100644
--- a/src/SurfacePressureIntegral.hpp
+++ b/src/SurfacePressureIntegral.hpp
@@ -118,7 +118,6 @@ void SurfacePressureIntegral<SpatialDim,NumDofs,DofsPerNode,DofOffset>::operator
 
     Plato::NodeCoordinate<SpatialDim> tCoords(&(aSpatialModel.Mesh));
     Plato::ComputeSurfaceJacobians<SpatialDim> tComputeSurfaceJacobians;
-    Plato::ComputeSurfaceIntegralWeight<SpatialDim> tComputeSurfaceIntegralWeight;
     Plato::CreateFaceLocalNode2ElemLocalNodeIndexMap<SpatialDim> tCreateFaceLocalNode2ElemLocalNodeIndexMap;
     Plato::ScalarArray3DT<ConfigScalarType> tJacobian("jacobian", tNumFaces, SpatialDim-1, SpatialDim);
 
@@ -130,7 +129,6 @@ void SurfacePressureIntegral<SpatialDim,NumDofs,DofsPerNode,DofOffset>::operator
     {
         THROWERR("Surface Pressure Integral: A non-finite cubature weight was detected.")
     }
-    auto tMultiplier = aScale * tCubatureWeight;
 
     Kokkos::parallel_for(Kokkos::RangePolicy<>(0,tNumFaces), LAMBDA_EXPRESSION(const Plato::OrdinalType & aFaceI)
     {
@@ -145,13 +143,20 @@ void SurfacePressureIntegral<SpatialDim,NumDofs,DofsPerNode,DofOffset>::operator
           auto tCellOrdinal = tFace2Elems_elems[tElem];
           tCreateFaceLocalNode2ElemLocalNodeIndexMap(tCellOrdinal, tFaceOrdinal, tCell2Verts, tFace2Verts, tLocalNodeOrd);
 
-          ConfigScalarType tWeight(0.0);
+          ConfigScalarType tWeightedNormal[SpatialDim];
           tComputeSurfaceJacobians(tCellOrdinal, aFaceI, tLocalNodeOrd, aConfig, tJacobian);
-          tComputeSurfaceIntegralWeight(aFaceI, tMultiplier, tJacobian, tWeight);
+          Plato::weighted_surface_normal(aFaceI, tCubatureWeight, tJacobian, tWeightedNormal);
 
-          // compute unit normal vector
+          // the normal vector depends on the configuration; the mesh only gives its orientation
           auto tElemFaceOrdinal = Plato::get_face_ordinal<SpatialDim>(tCellOrdinal, tFaceOrdinal, tElem2Faces);
           auto tUnitNormalVec = Plato::unit_normal_vector(tCellOrdinal, tElemFaceOrdinal, tCoords);
+          Plato::Scalar tOrientation(0.0);
+          for( Plato::OrdinalType tDim=0; tDim<SpatialDim; tDim++)
+          {
+              const ConfigScalarType tProjection = tWeightedNormal[tDim] * tUnitNormalVec(tDim);
+              tOrientation += Sacado::ScalarValue<ConfigScalarType>::eval(tProjection);
+          }
+          const Plato::Scalar tMultiplier = tOrientation < 0.0 ? -aScale : aScale;
 
           // project into aResult workset
           for( Plato::OrdinalType tNode=0; tNode<tNodesPerFace; tNode++)
@@ -159,7 +164,7 @@ void SurfacePressureIntegral<SpatialDim,NumDofs,DofsPerNode,DofOffset>::operator
               for( Plato::OrdinalType tDof=0; tDof<tNumDofs; tDof++)
               {
                   auto tCellDofOrdinal = tLocalNodeOrd[tNode] * DofsPerNode + tDof + DofOffset;
-                  aResult(tCellOrdinal,tCellDofOrdinal) += tUnitNormalVec(tDof) * tFlux(tDof) * tWeight;
+                  aResult(tCellOrdinal,tCellDofOrdinal) += tMultiplier * tFlux(tDof) * tWeightedNormal[tDof];
               }
           }
       }
-- 
2.43.0


From 0e78f5ec19868785eb11efe4d08e0a69b124b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:12 +0000
Subject: [PATCH 31/64] fix: natural boundary conditions reject components,
 indices and vectors that do not match the degrees of freedom

---
 src/NaturalBC.hpp  | 17 +++++++++++++++++
 src/NaturalBCs.hpp | 11 +++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/NaturalBC.hpp b/src/NaturalBC.hpp
index c7f2a42..0ad90e4 100644
--- a/src/NaturalBC.hpp
+++ b/src/NaturalBC.hpp
@@ -79,6 +79,21 @@ class NaturalBC
     Omega_h::Vector<NumDofs> mFlux;  /*!< force vector values */
     std::shared_ptr<Plato::MathExpr> mFluxExpr[NumDofs];
 
+    /***************************************************************************//**
+     * \brief Check that there is a value for each degree of freedom
+     * \param [in] aSize number of values
+    *******************************************************************************/
+    void checkSize(Plato::OrdinalType aSize) const
+    {
+        if(aSize < NumDofs)
+        {
+            std::stringstream tMsg;
+            tMsg << "Natural Boundary Condition: Parameter Sublist: '" << mName.c_str() << "' has " << aSize
+                 << " values, but there are " << NumDofs << " degrees of freedom.";
+            THROWERR(tMsg.str().c_str())
+        }
+    }
+
 public:
     /***************************************************************************//**
      * \brief Constructor
@@ -97,6 +112,7 @@ public:
         if (tIsValue)
         {
             auto tFlux = aSubList.get<Teuchos::Array<Plato::Scalar>>("Vector");
+            this->checkSize(tFlux.size());
             for(Plato::OrdinalType tDof=0; tDof<NumDofs; tDof++)
             {
                 mFlux(tDof) = tFlux[tDof];
@@ -106,6 +122,7 @@ public:
         if (tIsExpr)
         {
             auto tExpr = aSubList.get<Teuchos::Array<std::string>>("Vector");
+            this->checkSize(tExpr.size());
             for(Plato::OrdinalType tDof=0; tDof<NumDofs; tDof++)
             {
                 mFluxExpr[tDof] = std::make_shared<Plato::MathExpr>(tExpr[tDof]);
diff --git a/src/NaturalBCs.hpp b/src/NaturalBCs.hpp
index 43a3665..e76e303 100644
--- a/src/NaturalBCs.hpp
+++ b/src/NaturalBCs.hpp
@@ -189,6 +189,13 @@ NaturalBCs<SpatialDim, NumDofs, DofsPerNode, DofOffset>::setUniformNaturalBC
     {
 
         auto tDof = aSubList.get<Plato::OrdinalType>("Index", 0);
+        if(tDof < 0 || tDof >= NumDofs)
+        {
+            std::stringstream tMsg;
+            tMsg << "Natural Boundary Condition: 'Index' Parameter Keyword in Parameter Sublist: '"
+                 << aName.c_str() << "' is out of range. Number of degrees of freedom is " << NumDofs << ".";
+            THROWERR(tMsg.str().c_str())
+        }
 
         if(aSubList.isType<Plato::Scalar>("Value"))
         {
@@ -279,12 +286,12 @@ NaturalBCs<SpatialDim, NumDofs, DofsPerNode, DofOffset>::setUniformComponentNatu
         tFluxVector[0] = tValue;
     }
     else
-    if( (tFluxComponent == "y" || tFluxComponent == "Y") && DofsPerNode > 1 )
+    if( (tFluxComponent == "y" || tFluxComponent == "Y") && NumDofs > 1 )
     {
         tFluxVector[1] = tValue;
     }
     else
-    if( (tFluxComponent == "z" || tFluxComponent == "Z") && DofsPerNode > 2 )
+    if( (tFluxComponent == "z" || tFluxComponent == "Z") && NumDofs > 2 )
     {
         tFluxVector[2] = tValue;
     }
-- 
2.43.0


From 7dcce40c4948a2732aa86e3f5b2447b0c4f9eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:12 +0000
Subject: [PATCH 32/64] fix: body loads reject an index that is not a degree of
 freedom

---
 src/BodyLoads.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BodyLoads.hpp b/src/BodyLoads.hpp
index 2596f9b..36a511d 100644
--- a/src/BodyLoads.hpp
+++ b/src/BodyLoads.hpp
@@ -126,6 +126,10 @@ public:
             mDof(aParam.get<Plato::OrdinalType>("Index", 0)),
             mFuncString(aParam.get<std::string>("Function"))
     {
+        if(mDof < 0 || mDof >= mNumDofsPerNode)
+        {
+            THROWERR(std::string("Body load '") + aName + "': parameter 'Index' is out of range.");
+        }
     }
     /**************************************************************************/
 
-- 
2.43.0


From 02dcd803b8850d9a86bb1912aa2c5d8311ec5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:38 +0000
Subject: [PATCH 33/64] fix: the static least squares criterion reads its
 parameters from the Criteria list

---
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index ceb9b70..3744797 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -62,7 +62,7 @@ private:
         mFunctionGoldValues.clear();
         mFunctionNormalization.clear();
 
-        auto tFunctionParams = aProblemParams.sublist("Criterial").sublist(mFunctionName);
+        auto tFunctionParams = aProblemParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tFunctionNamesArray = tFunctionParams.get<Teuchos::Array<std::string>>("Functions");
         auto tFunctionWeightsArray = tFunctionParams.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From a5b9327f54eaf83bc3e9d39f252f96a75f5c5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:38 +0000
Subject: [PATCH 34/64] fix: composite static criteria pass the step index and
 time step on to their functions

---
 src/elliptic/DivisionFunction.hpp     | 4 ++--
 src/elliptic/LeastSquaresFunction.hpp | 2 +-
 src/elliptic/WeightedSumFunction.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/DivisionFunction.hpp b/src/elliptic/DivisionFunction.hpp
index b374667..7b2d76d 100644
--- a/src/elliptic/DivisionFunction.hpp
+++ b/src/elliptic/DivisionFunction.hpp
@@ -199,8 +199,8 @@ public:
         Plato::Scalar tNumeratorValue = mScalarFunctionBaseNumerator->value(aSolution, aControl, aTimeStep);
         Plato::Scalar tDenominatorValue = mScalarFunctionBaseDenominator->value(aSolution, aControl, aTimeStep);
 
-        Plato::ScalarVector tNumeratorGradU = mScalarFunctionBaseNumerator->gradient_u(aSolution, aControl, aTimeStep);
-        Plato::ScalarVector tDenominatorGradU = mScalarFunctionBaseDenominator->gradient_u(aSolution, aControl, aTimeStep);
+        Plato::ScalarVector tNumeratorGradU = mScalarFunctionBaseNumerator->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
+        Plato::ScalarVector tDenominatorGradU = mScalarFunctionBaseDenominator->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
         Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
         {
             tGradientU(tDof) = (tNumeratorGradU(tDof) * tDenominatorValue - 
diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index 3744797..a5e2c60 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -295,7 +295,7 @@ public:
                 const Plato::Scalar tFunctionGoldValue = mFunctionGoldValues[tFunctionIndex];
                 const Plato::Scalar tFunctionScale = mFunctionNormalization[tFunctionIndex];
                 Plato::Scalar tFunctionValue = mScalarFunctionBaseContainer[tFunctionIndex]->value(aSolution, aControl, aTimeStep);
-                Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aTimeStep);
+                Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
                 Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
                 {
                     tGradientU(tDof) += 2.0 * tFunctionWeight * (tFunctionValue - tFunctionGoldValue) 
diff --git a/src/elliptic/WeightedSumFunction.hpp b/src/elliptic/WeightedSumFunction.hpp
index bde46ce..afb1cdf 100644
--- a/src/elliptic/WeightedSumFunction.hpp
+++ b/src/elliptic/WeightedSumFunction.hpp
@@ -222,7 +222,7 @@ public:
         for (Plato::OrdinalType tFunctionIndex = 0; tFunctionIndex < mScalarFunctionBaseContainer.size(); ++tFunctionIndex)
         {
             const Plato::Scalar tFunctionWeight = mFunctionWeights[tFunctionIndex];
-            Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aTimeStep);
+            Plato::ScalarVector tFunctionGradU = mScalarFunctionBaseContainer[tFunctionIndex]->gradient_u(aSolution, aControl, aStepIndex, aTimeStep);
             Kokkos::parallel_for(Kokkos::RangePolicy<>(0, tNumDofs), LAMBDA_EXPRESSION(const Plato::OrdinalType & tDof)
             {
                 tGradientU(tDof) += tFunctionWeight * tFunctionGradU(tDof);
-- 
2.43.0


From 0350fcccdc15af3ac1c2bdc7bdaec1a44b1c3967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:38 +0000
Subject: [PATCH 35/64] fix: the density penalty criterion reads its parameters
 from the Criteria list

---
 src/IntermediateDensityPenalty.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IntermediateDensityPenalty.hpp b/src/IntermediateDensityPenalty.hpp
index 063db80..56fa2b6 100644
--- a/src/IntermediateDensityPenalty.hpp
+++ b/src/IntermediateDensityPenalty.hpp
@@ -48,7 +48,7 @@ class IntermediateDensityPenalty : public Plato::SimplexMechanics<EvaluationType
         mPenaltyAmplitude(1.0)
     /**************************************************************************/
     {
-        auto tInputs = aInputParams.get<Teuchos::ParameterList>(aFunctionName);
+        auto tInputs = aInputParams.sublist("Criteria").get<Teuchos::ParameterList>(aFunctionName);
         mPenaltyAmplitude = tInputs.get<Plato::Scalar>("Penalty Amplitude", 1.0);
     }
 
-- 
2.43.0


From d5061301ebe806da14c2623df052654653b00d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:38 +0000
Subject: [PATCH 36/64] fix: stress constraints normalize the mass of each
 block by the cells of that block

---
 src/Plato_AugLagStressCriterion.hpp        | 2 +-
 src/Plato_AugLagStressCriterionGeneral.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Plato_AugLagStressCriterion.hpp b/src/Plato_AugLagStressCriterion.hpp
index dbfadf6..5f5b407 100644
--- a/src/Plato_AugLagStressCriterion.hpp
+++ b/src/Plato_AugLagStressCriterion.hpp
@@ -499,7 +499,7 @@ public:
 
         Plato::NodeCoordinate<mSpaceDim> tCoordinates(&mSpatialDomain.Mesh);
         Plato::ScalarArray3D tConfig("configuration", tNumCells, mNumNodesPerCell, mSpaceDim);
-        Plato::workset_config_scalar<mSpaceDim, mNumNodesPerCell>(tNumCells, tCoordinates, tConfig);
+        Plato::workset_config_scalar<mSpaceDim, mNumNodesPerCell>(mSpatialDomain, tCoordinates, tConfig);
         Plato::ComputeCellVolume<mSpaceDim> tComputeCellVolume;
 
         Plato::ScalarVector tTotalMass("total mass", tNumCells);
diff --git a/src/Plato_AugLagStressCriterionGeneral.hpp b/src/Plato_AugLagStressCriterionGeneral.hpp
index a6e1199..a51e396 100644
--- a/src/Plato_AugLagStressCriterionGeneral.hpp
+++ b/src/Plato_AugLagStressCriterionGeneral.hpp
@@ -443,7 +443,7 @@ public:
 
         Plato::NodeCoordinate<mSpaceDim> tCoordinates(&(mSpatialDomain.Mesh));
         Plato::ScalarArray3D tConfig("configuration", tNumCells, mNumNodesPerCell, mSpaceDim);
-        Plato::workset_config_scalar<mSpaceDim, mNumNodesPerCell>(tNumCells, tCoordinates, tConfig);
+        Plato::workset_config_scalar<mSpaceDim, mNumNodesPerCell>(mSpatialDomain, tCoordinates, tConfig);
         Plato::ComputeCellVolume<mSpaceDim> tComputeCellVolume;
 
         Plato::ScalarVector tTotalMass("total mass", tNumCells);
-- 
2.43.0


From e073ff1b9e70eca416e58236b19252d3010aa72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:38 +0000
Subject: [PATCH 37/64] fix: the stress constraint outputs the von Mises stress
 of every block

---
 src/Plato_AugLagStressCriterion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Plato_AugLagStressCriterion.hpp b/src/Plato_AugLagStressCriterion.hpp
index 5f5b407..ce263cd 100644
--- a/src/Plato_AugLagStressCriterion.hpp
+++ b/src/Plato_AugLagStressCriterion.hpp
@@ -402,7 +402,7 @@ public:
             aResultWS(aCellOrdinal) = tMassContribution + ( static_cast<Plato::Scalar>(1.0 / tNumCells) * tStressContribution );
         },"Compute Augmented Lagrangian Function");
 
-        Plato::toMap(mDataMap, tOutputCellVonMises, "Vonmises");
+        Plato::toMap(mDataMap, tOutputCellVonMises, "Vonmises", mSpatialDomain);
     }
 
     /******************************************************************************//**
-- 
2.43.0


From 025e784f6aed52dfcdbc24cec02e8c22fb58eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:38 +0000
Subject: [PATCH 38/64] fix: mechanics reports an unknown scalar function type

---
 src/Mechanics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mechanics.hpp b/src/Mechanics.hpp
index 3dcfab2..9fd0e9b 100644
--- a/src/Mechanics.hpp
+++ b/src/Mechanics.hpp
@@ -443,7 +443,7 @@ struct FunctionFactory
         }
         else
         {
-            return nullptr;
+            THROWERR("Unknown 'Scalar Function Type' specified in 'Criteria' ParameterList");
         }
     }
 
-- 
2.43.0


From 1b106c248d6c68d78cf09c41d44d2db0a0c55fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:28 +0000
Subject: [PATCH 39/64] fix: mechanics reports an unknown penalty function type

---
 src/Mechanics.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Mechanics.hpp b/src/Mechanics.hpp
index 9fd0e9b..1cfc8b2 100644
--- a/src/Mechanics.hpp
+++ b/src/Mechanics.hpp
@@ -107,6 +107,10 @@ elastostatics_residual(
         tOutput = std::make_shared<Plato::Elliptic::ElastostaticResidual<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aProblemParams, tPenaltyParams);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList");
+    }
     return (tOutput);
 }
 // function elastostatics_residual
@@ -225,6 +229,10 @@ internal_elastic_energy(
         tOutput = std::make_shared<Plato::Elliptic::InternalElasticEnergy<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aProblemParams, tPenaltyParams, aFuncName);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList");
+    }
     return (tOutput);
 }
 // function internal_elastic_energy
@@ -271,6 +279,10 @@ stress_p_norm(
         tOutput = std::make_shared<Plato::Elliptic::StressPNorm<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aProblemParams, tPenaltyParams, aFuncName);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList");
+    }
     return (tOutput);
 }
 // function stress_p_norm
@@ -317,6 +329,10 @@ effective_energy(
         tOutput = std::make_shared<Plato::Elliptic::EffectiveEnergy<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aProblemParams, tPenaltyParams, aFuncName);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList");
+    }
     return (tOutput);
 }
 // function effective_energy
-- 
2.43.0


From 5f2b1cfaceef077bbbc91f21be1ed3f5ec56b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 40/64] fix: essential boundary conditions reject an index that
 is not a degree of freedom

---
 src/EssentialBCs.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/EssentialBCs.hpp b/src/EssentialBCs.hpp
index 809068e..79db814 100644
--- a/src/EssentialBCs.hpp
+++ b/src/EssentialBCs.hpp
@@ -34,6 +34,12 @@ public:
         mMathExpr(nullptr),
         mScaleFactor(aScaleFactor)
     {
+        if (dof < 0 || dof >= SimplexPhysicsType::mNumDofsPerNode)
+        {
+            std::ostringstream tMsg;
+            tMsg << "Essential boundary condition '" << aName << "': 'Index' (" << dof << ") is not a degree of freedom.";
+            THROWERR(tMsg.str())
+        }
         if (aParam.isType<Plato::Scalar>("Value") && aParam.isType<std::string>("Function") )
         {
             THROWERR("Specify either 'Value' or 'Function' in Boundary Condition definition");
-- 
2.43.0


From 32c21af1236727fd454ae7b0ececf5eb654d0f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:36 +0000
Subject: [PATCH 41/64] fix: shape gradients of static criteria use the
 transposed Jacobian and homogeneous adjoint constraints

---
 src/elliptic/Problem.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/Problem.hpp b/src/elliptic/Problem.hpp
index 8787000..fa31104 100644
--- a/src/elliptic/Problem.hpp
+++ b/src/elliptic/Problem.hpp
@@ -537,11 +537,10 @@ public:
             Plato::blas1::scale(static_cast<Plato::Scalar>(-1), tPartialCriterionWRT_State);
 
             // compute dgdu: partial of PDE wrt state
-            mJacobian = mPDE->gradient_u(tStatesSubView, aControl);
-            this->applyStateConstraints(mJacobian, tPartialCriterionWRT_State, 1.0);
+            mJacobian = mPDE->gradient_u_T(tStatesSubView, aControl);
+            this->applyAdjointConstraints(mJacobian, tPartialCriterionWRT_State);
 
-            // adjoint problem uses transpose of global stiffness, but we're assuming the constrained
-            // system is symmetric.
+            // adjoint problem uses transpose of global stiffness.
 
             Plato::ScalarVector
               tAdjointSubView = Kokkos::subview(mAdjoint, tTIME_STEP_INDEX, Kokkos::ALL());
-- 
2.43.0


From f139c3c6ecb6b2433653d7a853e0a888dba91ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:50 +0000
Subject: [PATCH 42/64] fix: composite criteria reject functions that are not
 defined

---
 src/elliptic/DivisionFunction.hpp      | 6 ++++++
 src/elliptic/LeastSquaresFunction.hpp  | 5 +++++
 src/elliptic/WeightedSumFunction.hpp   | 5 +++++
 src/geometric/DivisionFunction.hpp     | 6 ++++++
 src/geometric/LeastSquaresFunction.hpp | 5 +++++
 src/geometric/WeightedSumFunction.hpp  | 5 +++++
 6 files changed, 32 insertions(+)

diff --git a/src/elliptic/DivisionFunction.hpp b/src/elliptic/DivisionFunction.hpp
index 7b2d76d..fd9c744 100644
--- a/src/elliptic/DivisionFunction.hpp
+++ b/src/elliptic/DivisionFunction.hpp
@@ -58,6 +58,12 @@ private:
 
         mScalarFunctionBaseDenominator = 
              tFactory.create(mSpatialModel, mDataMap, aProblemParams, tDenominatorFunctionName);
+
+        if (mScalarFunctionBaseNumerator == nullptr || mScalarFunctionBaseDenominator == nullptr)
+        {
+            THROWERR(std::string("'Numerator' or 'Denominator' function requested in '")
+                     + mFunctionName + "' parameter list isn't defined")
+        }
     }
 
 public:
diff --git a/src/elliptic/LeastSquaresFunction.hpp b/src/elliptic/LeastSquaresFunction.hpp
index a5e2c60..fd63baf 100644
--- a/src/elliptic/LeastSquaresFunction.hpp
+++ b/src/elliptic/LeastSquaresFunction.hpp
@@ -91,6 +91,11 @@ private:
             mScalarFunctionBaseContainer.push_back(
                 tFactory.create(
                     mSpatialModel, mDataMap, aProblemParams, tFunctionNames[tFunctionIndex]));
+            if (mScalarFunctionBaseContainer.back() == nullptr)
+            {
+                THROWERR(std::string("Function '") + tFunctionNames[tFunctionIndex] + "' requested in '"
+                         + mFunctionName + "' parameter list isn't defined")
+            }
             mFunctionWeights.push_back(tFunctionWeights[tFunctionIndex]);
 
             appendGoldFunctionValue(tFunctionGoldValues[tFunctionIndex]);
diff --git a/src/elliptic/WeightedSumFunction.hpp b/src/elliptic/WeightedSumFunction.hpp
index afb1cdf..9982546 100644
--- a/src/elliptic/WeightedSumFunction.hpp
+++ b/src/elliptic/WeightedSumFunction.hpp
@@ -83,6 +83,11 @@ private:
             mScalarFunctionBaseContainer.push_back(
                 tFactory.create(
                     mSpatialModel, mDataMap, aProblemParams, tFunctionNames[tFunctionIndex]));
+            if (mScalarFunctionBaseContainer.back() == nullptr)
+            {
+                THROWERR(std::string("Function '") + tFunctionNames[tFunctionIndex] + "' requested in '"
+                         + mFunctionName + "' parameter list isn't defined")
+            }
             mFunctionWeights.push_back(tFunctionWeights[tFunctionIndex]);
         }
 
diff --git a/src/geometric/DivisionFunction.hpp b/src/geometric/DivisionFunction.hpp
index d7ebc01..7e43c11 100644
--- a/src/geometric/DivisionFunction.hpp
+++ b/src/geometric/DivisionFunction.hpp
@@ -58,6 +58,12 @@ private:
 
         mScalarFunctionBaseDenominator = 
              tFactory.create(mSpatialModel, mDataMap, aProblemParams, tDenominatorFunctionName);
+
+        if (mScalarFunctionBaseNumerator == nullptr || mScalarFunctionBaseDenominator == nullptr)
+        {
+            THROWERR(std::string("'Numerator' or 'Denominator' function requested in '")
+                     + mFunctionName + "' parameter list isn't defined")
+        }
     }
 
 public:
diff --git a/src/geometric/LeastSquaresFunction.hpp b/src/geometric/LeastSquaresFunction.hpp
index 46bb73e..7fa6a99 100644
--- a/src/geometric/LeastSquaresFunction.hpp
+++ b/src/geometric/LeastSquaresFunction.hpp
@@ -90,6 +90,11 @@ private:
             mScalarFunctionBaseContainer.push_back(
                 tFactory.create(
                     mSpatialModel, mDataMap, aProblemParams, tFunctionNames[tFunctionIndex]));
+            if (mScalarFunctionBaseContainer.back() == nullptr)
+            {
+                THROWERR(std::string("Function '") + tFunctionNames[tFunctionIndex] + "' requested in '"
+                         + mFunctionName + "' parameter list isn't defined")
+            }
             mFunctionWeights.push_back(tFunctionWeights[tFunctionIndex]);
 
             appendGoldFunctionValue(tFunctionGoldValues[tFunctionIndex]);
diff --git a/src/geometric/WeightedSumFunction.hpp b/src/geometric/WeightedSumFunction.hpp
index 0b3c963..a26a239 100644
--- a/src/geometric/WeightedSumFunction.hpp
+++ b/src/geometric/WeightedSumFunction.hpp
@@ -78,6 +78,11 @@ private:
             mScalarFunctionBaseContainer.push_back(
                 tFactory.create(
                     mSpatialModel, mDataMap, aProblemParams, tFunctionNames[tFunctionIndex]));
+            if (mScalarFunctionBaseContainer.back() == nullptr)
+            {
+                THROWERR(std::string("Function '") + tFunctionNames[tFunctionIndex] + "' requested in '"
+                         + mFunctionName + "' parameter list isn't defined")
+            }
             mFunctionWeights.push_back(tFunctionWeights[tFunctionIndex]);
         }
 
-- 
2.43.0


From b504db1e4e3436d886d7e16d9e882117c44ac444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:50 +0000
Subject: [PATCH 43/64] fix: mass properties of static problems read their
 parameters and the material densities

---
 src/elliptic/MassPropertiesFunction.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/MassPropertiesFunction.hpp b/src/elliptic/MassPropertiesFunction.hpp
index 13f5f30..8b6255c 100644
--- a/src/elliptic/MassPropertiesFunction.hpp
+++ b/src/elliptic/MassPropertiesFunction.hpp
@@ -75,7 +75,7 @@ private:
             auto tMaterialModelsInputs = aInputParams.get<Teuchos::ParameterList>("Material Models");
             if( tMaterialModelsInputs.isSublist(tDomain.getMaterialName()) )
             {
-                auto tMaterialModelInputs = aInputParams.sublist(tDomain.getMaterialName());
+                auto tMaterialModelInputs = tMaterialModelsInputs.sublist(tDomain.getMaterialName());
                 mMaterialDensities[tName] = tMaterialModelInputs.get<Plato::Scalar>("Density", 1.0);
             }
         }
@@ -93,7 +93,7 @@ private:
               Teuchos::ParameterList & aInputParams
     )
     {
-        auto tProblemFunctionName = aInputParams.sublist(mFunctionName);
+        auto tProblemFunctionName = aInputParams.sublist("Criteria").sublist(mFunctionName);
 
         auto tPropertyNamesTeuchos      = tProblemFunctionName.get<Teuchos::Array<std::string>>("Properties");
         auto tPropertyWeightsTeuchos    = tProblemFunctionName.get<Teuchos::Array<Plato::Scalar>>("Weights");
-- 
2.43.0


From 3f76831a606d0cde41c847a8c132286fc731c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:27 +0000
Subject: [PATCH 44/64] fix: temperature dependent conductivity enters the heat
 equation and the thermal criteria

---
 src/elliptic/FluxPNorm.hpp              |  9 ++++++++-
 src/elliptic/InternalThermalEnergy.hpp  | 11 ++++++++++-
 src/parabolic/HeatEquationResidual.hpp  |  4 ++--
 src/parabolic/InternalThermalEnergy.hpp |  9 ++++++++-
 4 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/elliptic/FluxPNorm.hpp b/src/elliptic/FluxPNorm.hpp
index 7ad4c0a..ca967a4 100644
--- a/src/elliptic/FluxPNorm.hpp
+++ b/src/elliptic/FluxPNorm.hpp
@@ -8,6 +8,7 @@
 #include "VectorPNorm.hpp"
 #include "SimplexThermal.hpp"
 #include "ApplyWeighting.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "SimplexFadTypes.hpp"
 #include "ThermalConductivityMaterial.hpp"
 #include "ImplicitFunctors.hpp"
@@ -93,6 +94,7 @@ class FluxPNorm :
       Plato::ScalarGrad<SpaceDim>             scalarGrad;
       Plato::ThermalFlux<SpaceDim>            thermalFlux(mMaterialModel);
       Plato::VectorPNorm<SpaceDim>            vectorPNorm;
+      Plato::InterpolateFromNodal<SpaceDim, Plato::SimplexThermal<SpaceDim>::mNumDofsPerNode> interpolateFromNodal;
 
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>,StateScalarType, ConfigScalarType>;
@@ -109,6 +111,10 @@ class FluxPNorm :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux",numCells,SpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature",numCells);
+
+      auto basisFunctions    = mCubatureRule->getBasisFunctions();
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
       auto& applyWeighting  = mApplyWeighting;
       auto exponent         = mExponent;
@@ -123,7 +129,8 @@ class FluxPNorm :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
diff --git a/src/elliptic/InternalThermalEnergy.hpp b/src/elliptic/InternalThermalEnergy.hpp
index 66990cc..a6a3291 100644
--- a/src/elliptic/InternalThermalEnergy.hpp
+++ b/src/elliptic/InternalThermalEnergy.hpp
@@ -7,6 +7,8 @@
 #include "ThermalFlux.hpp"
 #include "ScalarProduct.hpp"
 #include "ApplyWeighting.hpp"
+#include "InterpolateFromNodal.hpp"
+#include "LinearTetCubRuleDegreeOne.hpp"
 #include "SimplexThermal.hpp"
 #include "SimplexFadTypes.hpp"
 #include "ImplicitFunctors.hpp"
@@ -107,6 +109,8 @@ class InternalThermalEnergy :
       Plato::ScalarGrad<mSpaceDim>             tComputeScalarGrad;
       Plato::ScalarProduct<mSpaceDim>          tComputeScalarProduct;
       Plato::ThermalFlux<mSpaceDim>            tComputeThermalFlux(mMaterialModel);
+      Plato::InterpolateFromNodal<mSpaceDim, Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode> tInterpolateFromNodal;
+      Plato::LinearTetCubRuleDegreeOne<mSpaceDim> tCubatureRule;
 
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>, StateScalarType, ConfigScalarType>;
@@ -123,6 +127,10 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tThermalFlux("thermal flux", tNumCells, mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        tTemperature("Gauss point temperature", tNumCells);
+
+      auto tBasisFunctions = tCubatureRule.getBasisFunctions();
       auto tQuadratureWeight = mQuadratureWeight;
       auto tApplyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const Plato::OrdinalType & aCellOrdinal)
@@ -136,7 +144,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad);
+        tInterpolateFromNodal(aCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tComputeThermalFlux(aCellOrdinal, tThermalFlux, tThermalGrad, tTemperature);
 
         // apply weighting
         //
diff --git a/src/parabolic/HeatEquationResidual.hpp b/src/parabolic/HeatEquationResidual.hpp
index bf3e0bc..c4672d9 100644
--- a/src/parabolic/HeatEquationResidual.hpp
+++ b/src/parabolic/HeatEquationResidual.hpp
@@ -157,7 +157,8 @@ class HeatEquationResidual :
     
         // compute flux
         //
-        tThermalFlux(tCellOrdinal, tFlux, tGrad);
+        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState, tTemperature);
+        tThermalFlux(tCellOrdinal, tFlux, tGrad, tTemperature);
     
         // apply weighting
         //
@@ -172,7 +173,6 @@ class HeatEquationResidual :
         // compute temperature at gausspoints
         //
         tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aStateDot, tTemperatureRate);
-        tInterpolateFromNodal(tCellOrdinal, tBasisFunctions, aState,    tTemperature    );
 
         // compute the time rate of internal thermal energy
         //
diff --git a/src/parabolic/InternalThermalEnergy.hpp b/src/parabolic/InternalThermalEnergy.hpp
index e38d4eb..cc2f462 100644
--- a/src/parabolic/InternalThermalEnergy.hpp
+++ b/src/parabolic/InternalThermalEnergy.hpp
@@ -5,6 +5,7 @@
 #include "ThermalFlux.hpp"
 #include "ScalarProduct.hpp"
 #include "ApplyWeighting.hpp"
+#include "InterpolateFromNodal.hpp"
 #include "SimplexThermal.hpp"
 #include "ImplicitFunctors.hpp"
 #include "ThermalConductivityMaterial.hpp"
@@ -97,6 +98,7 @@ class InternalThermalEnergy :
       Plato::ScalarGrad<mSpaceDim>             scalarGrad;
       Plato::ThermalFlux<mSpaceDim>            thermalFlux(mThermalConductivityMaterialModel);
       Plato::ScalarProduct<mSpaceDim>          scalarProduct;
+      Plato::InterpolateFromNodal<mSpaceDim, Plato::SimplexThermal<mSpaceDim>::mNumDofsPerNode> interpolateFromNodal;
 
       using GradScalarType =
         typename Plato::fad_type_t<Plato::SimplexThermal<EvaluationType::SpatialDim>, StateScalarType, ConfigScalarType>;
@@ -113,6 +115,10 @@ class InternalThermalEnergy :
       Kokkos::View<ResultScalarType**, Plato::Layout, Plato::MemSpace>
         tflux("thermal flux", tNumCells,mSpaceDim);
 
+      Plato::ScalarVectorT<StateScalarType>
+        temperature("Gauss point temperature", tNumCells);
+
+      auto basisFunctions = mCubatureRule->getBasisFunctions();
       auto tQuadratureWeight = mCubatureRule->getCubWeight();
       auto applyWeighting  = mApplyWeighting;
       Kokkos::parallel_for(Kokkos::RangePolicy<int>(0, tNumCells), LAMBDA_EXPRESSION(const int & aCellOrdinal)
@@ -126,7 +132,8 @@ class InternalThermalEnergy :
 
         // compute flux
         //
-        thermalFlux(aCellOrdinal, tflux, tgrad);
+        interpolateFromNodal(aCellOrdinal, basisFunctions, aState, temperature);
+        thermalFlux(aCellOrdinal, tflux, tgrad, temperature);
 
         // apply weighting
         //
-- 
2.43.0


From 71c2d58b11ad6d86e362baf43bcb402e8bcc1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:59 +0000
Subject: [PATCH 45/64] fix: parabolic temperature average integrates with the
 quadrature weight

---
 src/parabolic/TemperatureAverage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parabolic/TemperatureAverage.hpp b/src/parabolic/TemperatureAverage.hpp
index 8b72789..681ae97 100644
--- a/src/parabolic/TemperatureAverage.hpp
+++ b/src/parabolic/TemperatureAverage.hpp
@@ -107,7 +107,7 @@ class TemperatureAverage :
         //
         applyWeighting(aCellOrdinal, tStateValues, tWeightedStateValues, aControl);
     
-        aResult(aCellOrdinal) = tWeightedStateValues(aCellOrdinal,0)*tCellVolume;
+        aResult(aCellOrdinal) = tWeightedStateValues(aCellOrdinal,0)*tCellVolume*quadratureWeight;
 
       },"temperature");
     }
-- 
2.43.0


From e663c632add3925d58cd02250d5819617c93ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:53 +0000
Subject: [PATCH 46/64] fix: parabolic adjoint problem has homogeneous
 essential boundary conditions

---
 src/parabolic/Problem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index f7d7027..ccd6bd8 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -560,7 +560,7 @@ namespace Parabolic
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -717,7 +717,7 @@ namespace Parabolic
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
 
-                this->applyStateConstraints(mJacobianU, t_dFdu, 1.0);
+                this->applyStateConstraints(mJacobianU, t_dFdu, 0.0);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
-- 
2.43.0


From 10ca7cbae2531a974b51beb28dc2a3f10029d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:53 +0000
Subject: [PATCH 47/64] fix: parabolic adjoint problem uses the transposed
 Jacobians

---
 src/parabolic/Problem.hpp        |  8 ++---
 src/parabolic/VectorFunction.hpp | 54 ++++++++++++++++++++++++++------
 2 files changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index ccd6bd8..5c29fb3 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -552,10 +552,10 @@ namespace Parabolic
                 Plato::blas1::axpy(tR_vu, t_dFdv, t_dFdu);
 
                 // R_{u,u^k}
-                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep);
+                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep, /*transpose=*/true);
 
                 // R_{u,v^k}
-                mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep);
+                mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep, /*transpose=*/true);
 
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
@@ -709,10 +709,10 @@ namespace Parabolic
 
 
                 // R_{u,u^k}
-                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep);
+                mJacobianU = mPDEConstraint.gradient_u(tU, tV, aControl, mTimeStep, /*transpose=*/true);
 
                 // R_{u,v^k}
-                mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep);
+                mJacobianV = mPDEConstraint.gradient_v(tU, tV, aControl, mTimeStep, /*transpose=*/true);
 
                 // R_{u,u^k} -= R_{v,u^k} R_{u,v^k}
                 Plato::blas1::axpy(-tR_vu, mJacobianV->entries(), mJacobianU->entries());
diff --git a/src/parabolic/VectorFunction.hpp b/src/parabolic/VectorFunction.hpp
index 036df97..f38f854 100644
--- a/src/parabolic/VectorFunction.hpp
+++ b/src/parabolic/VectorFunction.hpp
@@ -352,7 +352,8 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
         const Plato::ScalarVector & aState,
         const Plato::ScalarVector & aStateDot,
         const Plato::ScalarVector & aControl,
-              Plato::Scalar         aTimeStep = 0.0
+              Plato::Scalar         aTimeStep = 0.0,
+              bool                  aTranspose = false
     ) const
     /**************************************************************************/
     {
@@ -406,8 +407,16 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
                 tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
-            Plato::WorksetBase<PhysicsT>::assembleJacobianFad
-                (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries, tDomain);
+            if(aTranspose)
+            {
+                Plato::WorksetBase<PhysicsT>::assembleTransposeJacobian
+                    (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries, tDomain);
+            }
+            else
+            {
+                Plato::WorksetBase<PhysicsT>::assembleJacobianFad
+                    (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries, tDomain);
+            }
         }
 
         {
@@ -444,8 +453,16 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
                 tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
-            Plato::WorksetBase<PhysicsT>::assembleJacobianFad
-                (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries);
+            if(aTranspose)
+            {
+                Plato::WorksetBase<PhysicsT>::assembleTransposeJacobian
+                    (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries);
+            }
+            else
+            {
+                Plato::WorksetBase<PhysicsT>::assembleJacobianFad
+                    (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries);
+            }
         }
 
         return tGradientMat;
@@ -457,7 +474,8 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
         const Plato::ScalarVector & aState,
         const Plato::ScalarVector & aStateDot,
         const Plato::ScalarVector & aControl,
-              Plato::Scalar         aTimeStep = 0.0
+              Plato::Scalar         aTimeStep = 0.0,
+              bool                  aTranspose = false
     ) const
     /**************************************************************************/
     {
@@ -511,8 +529,16 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
                 tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
-            Plato::WorksetBase<PhysicsT>::assembleJacobianFad
-                (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries, tDomain);
+            if(aTranspose)
+            {
+                Plato::WorksetBase<PhysicsT>::assembleTransposeJacobian
+                    (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries, tDomain);
+            }
+            else
+            {
+                Plato::WorksetBase<PhysicsT>::assembleJacobianFad
+                    (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries, tDomain);
+            }
         }
 
         {
@@ -549,8 +575,16 @@ class VectorFunction : public Plato::WorksetBase<PhysicsT>
                 tGradientMatEntryOrdinal( tGradientMat, &tMesh );
 
             auto tGradientMatEntries = tGradientMat->entries();
-            Plato::WorksetBase<PhysicsT>::assembleJacobianFad
-                (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries);
+            if(aTranspose)
+            {
+                Plato::WorksetBase<PhysicsT>::assembleTransposeJacobian
+                    (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries);
+            }
+            else
+            {
+                Plato::WorksetBase<PhysicsT>::assembleJacobianFad
+                    (mNumDofsPerCell, mNumDofsPerCell, tGradientMatEntryOrdinal, tGradient, tGradientMatEntries);
+            }
         }
 
         return tGradientMat;
-- 
2.43.0


From 83cdda5e13cff2aea663e3be3e7f127a5a2322f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:53 +0000
Subject: [PATCH 48/64] fix: parabolic problem solved again starts each step
 from zero

---
 src/parabolic/Problem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 5c29fb3..a00b386 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -292,6 +292,10 @@ namespace Parabolic
               Plato::ScalarVector tState        = Kokkos::subview(mState,    tStepIndex,   Kokkos::ALL());
               Plato::ScalarVector tStateDot     = Kokkos::subview(mStateDot, tStepIndex,   Kokkos::ALL());
 
+              // the increments below start from zero, whatever an earlier solve left behind
+              Plato::blas1::fill(0.0, tState);
+              Plato::blas1::fill(0.0, tStateDot);
+
               // inner loop for non-linear models
               for(Plato::OrdinalType tNewtonIndex = 0; tNewtonIndex < mNumNewtonSteps; tNewtonIndex++)
               {
-- 
2.43.0


From 605a616d2f7dad037b154ed423b48ad1c82f104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:55 +0000
Subject: [PATCH 49/64] fix: names of the unknowns of transient thermomechanics
 follow the space dimension

---
 src/parabolic/TransientThermomechResidual.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index 0ce015c..bdf19ce 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -101,6 +101,10 @@ class TransientThermomechResidual :
          mBoundaryFluxes       (nullptr)
     /**************************************************************************/
     {
+        // names of the displacement components that don't exist in this space dimension
+        auto & tDofNames = FunctionBaseType::mDofNames;
+        tDofNames.erase(tDofNames.begin() + NMechDims, tDofNames.end() - NThrmDims);
+
         {
             Plato::ThermoelasticModelFactory<SpaceDim> mmfactory(aProblemParams);
             mMaterialModel = mmfactory.create(aSpatialDomain.getMaterialName());
-- 
2.43.0


From 549bc90fd9b9e6248052133dfa685ed4a346e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:55 +0000
Subject: [PATCH 50/64] fix: initial values of an unknown state variable are an
 error in parabolic problems

---
 src/parabolic/Problem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index a00b386..27fa537 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -182,6 +182,10 @@ namespace Parabolic
                                tDofIndex = j;
                             }
                         }
+                        if (tDofIndex == -1)
+                        {
+                            THROWERR("Attempted to initialize state variable that doesn't exist.");
+                        }
                         mComputedFields->get(tFieldName, tDofIndex, tDofNames.size(), tInitialState);
                     }
                 }
-- 
2.43.0


From afb5856b10dc2664e824b8c2a0a0a59a7b175b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:55 +0000
Subject: [PATCH 51/64] fix: Newton iterations impose prescribed values also
 when the initial residual vanishes

---
 src/elliptic/Problem.hpp  | 2 +-
 src/parabolic/Problem.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elliptic/Problem.hpp b/src/elliptic/Problem.hpp
index fa31104..087c4b6 100644
--- a/src/elliptic/Problem.hpp
+++ b/src/elliptic/Problem.hpp
@@ -273,7 +273,7 @@ public:
             if (mNumNewtonSteps > 1) {
                 auto tResidualNorm = Plato::blas1::norm(mResidual);
                 std::cout << " Residual norm: " << tResidualNorm << std::endl;
-                if (tResidualNorm < mNewtonResTol) {
+                if (tNewtonIndex > 0 && tResidualNorm < mNewtonResTol) { // the first iteration imposes the prescribed values
                     std::cout << " Residual norm tolerance satisfied." << std::endl;
                     break;
                 }
diff --git a/src/parabolic/Problem.hpp b/src/parabolic/Problem.hpp
index 27fa537..ef98c5b 100644
--- a/src/parabolic/Problem.hpp
+++ b/src/parabolic/Problem.hpp
@@ -329,7 +329,7 @@ namespace Parabolic
                   if (mNumNewtonSteps > 1) {
                       auto tResidualNorm = Plato::blas1::norm(mResidual);
                       std::cout << " Residual norm: " << tResidualNorm << std::endl;
-                      if (tResidualNorm < mNewtonResTol) {
+                      if (tNewtonIndex > 0 && tResidualNorm < mNewtonResTol) { // the first iteration imposes the prescribed values
                           std::cout << " Residual norm tolerance satisfied." << std::endl;
                           break;
                       }
-- 
2.43.0


From 9fce40321aa96001ad31fb759feb451c1af06aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:30 +0000
Subject: [PATCH 52/64] fix: names of the unknowns of transient mechanics
 follow the space dimension

---
 src/hyperbolic/ElastomechanicsResidual.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index c08b870..c8cb7b6 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -87,6 +87,10 @@ class TransientMechanicsResidual :
         mBoundaryLoads        (nullptr)
     /**************************************************************************/
     {
+        // only the components that exist in this space dimension
+        FunctionBaseType::mDofNames.resize(SpaceDim);
+        FunctionBaseType::mDofDotNames.resize(SpaceDim);
+
 
         // create material model and get stiffness
         //
-- 
2.43.0


From 3e1d1cc5241e0cdf058a1b2bb5a394e386ce8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:40 +0000
Subject: [PATCH 53/64] fix: state gradients of transient p-norm criteria use
 the value over all time steps

---
 .../HyperbolicPhysicsScalarFunction.hpp       | 34 ++++++++++++++-----
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
index 9004f02..084e95e 100644
--- a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
+++ b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
@@ -160,6 +160,26 @@ public:
         const Plato::ScalarVector & aControl,
               Plato::Scalar         aTimeStep = 0.0
     ) const override
+    {
+        auto tReturnVal = this->sumOverTimeSteps(aSolution, aControl, aTimeStep);
+        auto tName = mSpatialModel.Domains.front().getDomainName();
+        mValueFunctions.at(tName)->postEvaluate( tReturnVal );
+
+        return tReturnVal;
+    }
+
+    /******************************************************************************//**
+     * @brief Sum of the cell values of all time steps, i.e. the function before its post evaluation
+     * @param [in] aSolution Plato::Solution composed of state variables
+     * @param [in] aControl 1D view of control variables
+     * @param [in] aTimeStep time step
+    **********************************************************************************/
+    Plato::Scalar
+    sumOverTimeSteps(
+        const Plato::Solution     & aSolution,
+        const Plato::ScalarVector & aControl,
+              Plato::Scalar         aTimeStep
+    ) const
     {
         using ConfigScalar      = typename Residual::ConfigScalarType;
         using StateScalar       = typename Residual::StateScalarType;
@@ -226,8 +246,6 @@ public:
                 tReturnVal += Plato::local_result_sum<Plato::Scalar>( tNumCells, tResult);
             }
         }
-        auto tName = mSpatialModel.Domains.front().getDomainName();
-        mValueFunctions.at(tName)->postEvaluate( tReturnVal );
 
         return tReturnVal;
     }
@@ -352,7 +370,8 @@ public:
         //
         Plato::ScalarVector tObjGradientU("objective gradient state", mNumDofsPerNode * mNumNodes);
 
-        Plato::Scalar tValue(0.0);
+        // the post evaluation depends on the value of the function, i.e. on all time steps
+        auto tValue = this->sumOverTimeSteps(aSolution, aControl, aTimeStep);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -397,7 +416,6 @@ public:
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientU);
 
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientUFunctions.at(tName)->postEvaluate( tObjGradientU, tValue );
@@ -436,7 +454,8 @@ public:
         //
         Plato::ScalarVector tObjGradientV("objective gradient state", mNumDofsPerNode*mNumNodes);
 
-        Plato::Scalar tValue(0.0);
+        // the post evaluation depends on the value of the function, i.e. on all time steps
+        auto tValue = this->sumOverTimeSteps(aSolution, aControl, aTimeStep);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -481,7 +500,6 @@ public:
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientV);
 
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientVFunctions.at(tName)->postEvaluate( tObjGradientV, tValue );
@@ -520,7 +538,8 @@ public:
         //
         Plato::ScalarVector tObjGradientA("objective gradient state", mNumDofsPerNode * mNumNodes);
 
-        Plato::Scalar tValue(0.0);
+        // the post evaluation depends on the value of the function, i.e. on all time steps
+        auto tValue = this->sumOverTimeSteps(aSolution, aControl, aTimeStep);
         for(const auto& tDomain : mSpatialModel.Domains)
         {
             auto tNumCells = tDomain.numCells();
@@ -565,7 +584,6 @@ public:
             Plato::assemble_vector_gradient_fad<mNumNodesPerCell, mNumDofsPerNode>
                 (tDomain, mGlobalStateEntryOrdinal, tResult, tObjGradientA);
 
-            tValue += Plato::assemble_scalar_func_value<Plato::Scalar>(tNumCells, tResult);
         }
         auto tName = mSpatialModel.Domains.front().getDomainName();
         mGradientAFunctions.at(tName)->postEvaluate( tObjGradientA, tValue );
-- 
2.43.0


From 7336d32c97aa4a14f0f57bc7f4c2d1ffb1c58806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:16 +0000
Subject: [PATCH 54/64] fix: adjoint problem of transient mechanics has
 homogeneous essential boundary conditions

---
 src/hyperbolic/HyperbolicProblem.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index 4e640f5..e13c1fc 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -255,6 +255,24 @@ namespace Plato
                 Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues);
             }
         }
+
+        /******************************************************************************//**
+         * \brief Apply homogeneous constraints of the adjoint problem
+        **********************************************************************************/
+        void applyAdjointConstraints(
+          const Teuchos::RCP<Plato::CrsMatrixType> & aMatrix,
+          const Plato::ScalarVector & aVector
+        )
+        {
+            if(mJacobianU->isBlockMatrix())
+            {
+                Plato::applyBlockConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, /*scale=*/0.0);
+            }
+            else
+            {
+                Plato::applyConstraints<mNumDofsPerNode>(aMatrix, aVector, mStateBcDofs, mStateBcValues, /*scale=*/0.0);
+            }
+        }
         void applyBoundaryLoads(const Plato::ScalarVector & aForce){}
         /******************************************************************************//**
          * @brief Update physics-based parameters within optimization iterations
@@ -585,7 +603,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyAdjointConstraints(mJacobianU, t_dFdu);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
@@ -781,7 +799,7 @@ namespace Plato
                 // R_{u,u^k} -= R_{a,u^k} R_{u,a^k}
                 Plato::blas1::axpy(-tR_au, mJacobianA->entries(), mJacobianU->entries());
 
-                this->applyConstraints(mJacobianU, t_dFdu);
+                this->applyAdjointConstraints(mJacobianU, t_dFdu);
 
                 // L_u^k
                 mSolver->solve(*mJacobianU, tAdjoint_U, t_dFdu);
-- 
2.43.0


From d4844ebfb6a675e222ebdd214bab7e8859eb773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:08 +0000
Subject: [PATCH 55/64] fix: adjoint of transient mechanics evaluates loads at
 the time of the step

---
 src/hyperbolic/HyperbolicProblem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperbolic/HyperbolicProblem.hpp b/src/hyperbolic/HyperbolicProblem.hpp
index e13c1fc..9a8dd7e 100644
--- a/src/hyperbolic/HyperbolicProblem.hpp
+++ b/src/hyperbolic/HyperbolicProblem.hpp
@@ -508,7 +508,7 @@ namespace Plato
             auto t_dFdz = aCriterion->gradient_z(tSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*(mNumSteps-1));
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--)
             {
                 auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
@@ -704,7 +704,7 @@ namespace Plato
             auto t_dFdx = aCriterion->gradient_x(tSolution, aControl, mTimeStep);
 
             auto tLastStepIndex = mNumSteps - 1;
-            Plato::Scalar tCurrentTime(mTimeStep*mNumSteps);
+            Plato::Scalar tCurrentTime(mTimeStep*(mNumSteps-1));
             for(Plato::OrdinalType tStepIndex = tLastStepIndex; tStepIndex > 0; tStepIndex--) {
 
                 auto tU = Kokkos::subview(mDisplacement, tStepIndex, Kokkos::ALL());
-- 
2.43.0


From e0bd06bdf471e4e7d89464b737c465f472b380fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 56/64] fix: strain and velocity gradient output of transient
 mechanics showed the stress

---
 src/hyperbolic/ElastomechanicsResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hyperbolic/ElastomechanicsResidual.hpp b/src/hyperbolic/ElastomechanicsResidual.hpp
index c8cb7b6..1ec4fb6 100644
--- a/src/hyperbolic/ElastomechanicsResidual.hpp
+++ b/src/hyperbolic/ElastomechanicsResidual.hpp
@@ -231,7 +231,7 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
@@ -337,8 +337,8 @@ class TransientMechanicsResidual :
       }, "Compute Residual");
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStress, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tStress, "velgrad", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"velgrad") ) toMap(mDataMap, tVelGrad, "velgrad", mSpatialDomain);
 
       if( mBodyLoads != nullptr )
       {
-- 
2.43.0


From 39dc357b75b1c34b20af62f52574af5ce71047d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:47 +0000
Subject: [PATCH 57/64] fix: output of electroelastostatics showed strain and
 stress as electric field and displacement

The fields are read from the Elliptic list, where the problem and every other residual read them.
---
 src/elliptic/ElectroelastostaticResidual.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elliptic/ElectroelastostaticResidual.hpp b/src/elliptic/ElectroelastostaticResidual.hpp
index e4fcf39..c945f73 100644
--- a/src/elliptic/ElectroelastostaticResidual.hpp
+++ b/src/elliptic/ElectroelastostaticResidual.hpp
@@ -118,7 +118,7 @@ public:
                 (aProblemParams.sublist("Electrical Natural Boundary Conditions"));
         }
   
-        auto tResidualParams = aProblemParams.sublist("Electroelastostatics");
+        auto tResidualParams = aProblemParams.sublist("Elliptic");
         if( tResidualParams.isType<Teuchos::Array<std::string>>("Plottable") )
         {
             mPlottable = tResidualParams.get<Teuchos::Array<std::string>>("Plottable").toVector();
@@ -194,9 +194,9 @@ public:
       }
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, strain, "strain", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, strain, "efield", mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"efield") ) toMap(mDataMap, efield, "efield", mSpatialDomain);
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, stress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, stress, "edisp" , mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, edisp, "edisp" , mSpatialDomain);
 
     }
     /**************************************************************************/
-- 
2.43.0


From 69063d1acbdaf4e49ecfb53dfeba8274531f45a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:02 +0000
Subject: [PATCH 58/64] fix: electric displacement output of the electroelastic
 energy showed the stress

---
 src/elliptic/InternalElectroelasticEnergy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic/InternalElectroelasticEnergy.hpp b/src/elliptic/InternalElectroelasticEnergy.hpp
index 2806db0..b41b912 100644
--- a/src/elliptic/InternalElectroelasticEnergy.hpp
+++ b/src/elliptic/InternalElectroelasticEnergy.hpp
@@ -161,7 +161,7 @@ class InternalElectroelasticEnergy :
 
      if( std::count(mPlottable.begin(),mPlottable.end(),"strain") ) toMap(mDataMap, tStrain, "strain", mSpatialDomain);
      if( std::count(mPlottable.begin(),mPlottable.end(),"stress") ) toMap(mDataMap, tStress, "stress", mSpatialDomain);
-     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, tStress, "edisp" , mSpatialDomain);
+     if( std::count(mPlottable.begin(),mPlottable.end(),"edisp" ) ) toMap(mDataMap, tEdisp, "edisp" , mSpatialDomain);
 
     }
 };
-- 
2.43.0


From dc48cf8c461b222975c88ce55b6a75b987c0b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:02 +0000
Subject: [PATCH 59/64] fix: output of transient thermomechanics covers the
 cells of every element block

---
 src/parabolic/TransientThermomechResidual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parabolic/TransientThermomechResidual.hpp b/src/parabolic/TransientThermomechResidual.hpp
index bdf19ce..1fff5dd 100644
--- a/src/parabolic/TransientThermomechResidual.hpp
+++ b/src/parabolic/TransientThermomechResidual.hpp
@@ -233,8 +233,8 @@ class TransientThermomechResidual :
 
       },"stress and flux divergence");
 
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain"); }
-      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress"); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "strain")) { Plato::toMap(mDataMap, tStrain, "strain", mSpatialDomain); }
+      if(std::count(mPlotTable.begin(), mPlotTable.end(), "stress")) { Plato::toMap(mDataMap, tStress, "stress", mSpatialDomain); }
     }
 
     /**************************************************************************/
-- 
2.43.0


From 417fb365b23128d11d5295e7c89808cbc3ff8ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 60/64] fix: criterion values per cell are stored for the cells
 of every element block

---
 src/elliptic/PhysicsScalarFunction.hpp             | 3 ++-
 src/geometric/GeometryScalarFunction.hpp           | 3 ++-
 src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp | 3 ++-
 src/parabolic/PhysicsScalarFunction.hpp            | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/elliptic/PhysicsScalarFunction.hpp b/src/elliptic/PhysicsScalarFunction.hpp
index 83270f6..6046c07 100644
--- a/src/elliptic/PhysicsScalarFunction.hpp
+++ b/src/elliptic/PhysicsScalarFunction.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "ToMap.hpp"
 #include "PlatoUtilities.hpp"
 
 
@@ -252,7 +253,6 @@ public:
             // create result view
             //
             Plato::ScalarVectorT<ResultScalar> tResult("result workset", tNumCells);
-            mDataMap.scalarVectors[mValueFunctions.at(tName)->getName()] = tResult;
 
             Plato::ScalarMultiVectorT<StateScalar> tStateWS("state workset", tNumCells, mNumDofsPerCell);
 
@@ -275,6 +275,7 @@ public:
                 //
                 tReturnVal += Plato::local_result_sum<Plato::Scalar>(tNumCells, tResult);
             }
+            Plato::toMap(mDataMap, tResult, mValueFunctions.at(tName)->getName(), tDomain);
         }
         auto tName = mSpatialModel.Domains[0].getDomainName();
         mValueFunctions.at(tName)->postEvaluate(tReturnVal);
diff --git a/src/geometric/GeometryScalarFunction.hpp b/src/geometric/GeometryScalarFunction.hpp
index 2e106a7..7945b5e 100644
--- a/src/geometric/GeometryScalarFunction.hpp
+++ b/src/geometric/GeometryScalarFunction.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "ToMap.hpp"
 #include "PlatoUtilities.hpp"
 
 
@@ -224,7 +225,6 @@ public:
             // create result view
             //
             Plato::ScalarVectorT<ResultScalar> tResult("result workset", tNumCells);
-            mDataMap.scalarVectors[mValueFunctions.at(tName)->getName()] = tResult;
 
             // evaluate function
             //
@@ -233,6 +233,7 @@ public:
             // sum across elements
             //
             tReturnVal += Plato::local_result_sum<Plato::Scalar>(tNumCells, tResult);
+            Plato::toMap(mDataMap, tResult, mValueFunctions.at(tName)->getName(), tDomain);
         }
         auto tName = mSpatialModel.Domains[0].getDomainName();
         mValueFunctions.at(tName)->postEvaluate(tReturnVal);
diff --git a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
index 084e95e..a0949da 100644
--- a/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
+++ b/src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp
@@ -6,6 +6,7 @@
 
 #include <Omega_h_mesh.hpp>
 
+#include "ToMap.hpp"
 #include "WorksetBase.hpp"
 #include "PlatoStaticsTypes.hpp"
 #include "hyperbolic/HyperbolicSimplexFadTypes.hpp"
@@ -211,7 +212,6 @@ public:
             // create result view
             //
             Plato::ScalarVectorT<ResultScalar> tResult("result", tNumCells);
-            mDataMap.scalarVectors[mValueFunctions.at(tName)->getName()] = tResult;
 
             Plato::ScalarMultiVectorT<StateScalar>       tStateWS       ("state workset",         tNumCells, mNumDofsPerCell);
             Plato::ScalarMultiVectorT<StateDotScalar>    tStateDotWS    ("state dot workset",     tNumCells, mNumDofsPerCell);
@@ -245,6 +245,7 @@ public:
                 //
                 tReturnVal += Plato::local_result_sum<Plato::Scalar>( tNumCells, tResult);
             }
+            Plato::toMap(mDataMap, tResult, mValueFunctions.at(tName)->getName(), tDomain);
         }
 
         return tReturnVal;
diff --git a/src/parabolic/PhysicsScalarFunction.hpp b/src/parabolic/PhysicsScalarFunction.hpp
index 66ef6f7..c78aaaf 100644
--- a/src/parabolic/PhysicsScalarFunction.hpp
+++ b/src/parabolic/PhysicsScalarFunction.hpp
@@ -6,6 +6,7 @@
 
 #include <Omega_h_mesh.hpp>
 
+#include "ToMap.hpp"
 #include "WorksetBase.hpp"
 #include "PlatoStaticsTypes.hpp"
 
@@ -176,7 +177,6 @@ public:
             // create result view
             //
             Plato::ScalarVectorT<ResultScalar> tResult("result", tNumCells);
-            mDataMap.scalarVectors[mValueFunctions.at(tName)->getName()] = tResult;
 
             Plato::ScalarMultiVectorT<StateScalar>    tStateWS("state workset", tNumCells, mNumDofsPerCell);
             Plato::ScalarMultiVectorT<StateDotScalar> tStateDotWS("state dot workset", tNumCells, mNumDofsPerCell);
@@ -204,6 +204,7 @@ public:
                 //
                 tReturnVal += Plato::local_result_sum<Plato::Scalar>(tNumCells, tResult);
             }
+            Plato::toMap(mDataMap, tResult, mValueFunctions.at(tName)->getName(), tDomain);
         }
         auto tName = mSpatialModel.Domains[0].getDomainName();
         mValueFunctions.at(tName)->postEvaluate( tReturnVal );
-- 
2.43.0


From d5376061483776a3a53be89afe521779add39b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:40 +0000
Subject: [PATCH 61/64] fix: stabilized mechanics in 2-D removes from the
 stress what its pressure carries

The volume equation makes the pressure the bulk modulus of the space
dimension times the volume strain; the trace was divided by 3 in every
dimension, so that in 2-D stress plus pressure was not the elastic stress.
---
 src/Kinetics.hpp   | 2 +-
 src/TMKinetics.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Kinetics.hpp b/src/Kinetics.hpp
index 8169266..69efc89 100644
--- a/src/Kinetics.hpp
+++ b/src/Kinetics.hpp
@@ -97,7 +97,7 @@ public:
         }
         for(Plato::OrdinalType tDimIndex = 0; tDimIndex < SpaceDim; tDimIndex++)
         {
-            aDevStress(aCellOrdinal, tDimIndex) -= tTraceStress / static_cast<Plato::Scalar>(3.0);
+            aDevStress(aCellOrdinal, tDimIndex) -= tTraceStress / static_cast<Plato::Scalar>(SpaceDim);
         }
         //printf("DevStress(%d,1) = %.10f\n", aCellOrdinal, aDevStress(aCellOrdinal,0));
         //printf("DevStress(%d,2) = %.10f\n", aCellOrdinal, aDevStress(aCellOrdinal,1));
diff --git a/src/TMKinetics.hpp b/src/TMKinetics.hpp
index dc7192d..15ed6d3 100644
--- a/src/TMKinetics.hpp
+++ b/src/TMKinetics.hpp
@@ -257,7 +257,7 @@ class StabilizedTMKinetics : public Plato::SimplexStabilizedThermomechanics<Spac
         trace += aDevStress(cellOrdinal,iDim);
       }
       for( int iDim=0; iDim<SpaceDim; iDim++ ){
-        aDevStress(cellOrdinal,iDim) -= trace/3.0;
+        aDevStress(cellOrdinal,iDim) -= trace/SpaceDim;
       }
 
       // compute flux
-- 
2.43.0


From 107ac2c871c5e4c4dcb4abd3817fd5cb27234510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:40 +0000
Subject: [PATCH 62/64] fix: internal elastic energy of stabilized mechanics
 includes the shear stresses

---
 src/StabilizedElastostaticEnergy.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StabilizedElastostaticEnergy.hpp b/src/StabilizedElastostaticEnergy.hpp
index 2fca5cc..41e6137 100644
--- a/src/StabilizedElastostaticEnergy.hpp
+++ b/src/StabilizedElastostaticEnergy.hpp
@@ -164,6 +164,10 @@ class StabilizedElastostaticEnergy :
         {
             tTotStress(cellOrdinal,i) = tDevStress(cellOrdinal,i) + tPressure(cellOrdinal);
         }
+        for( int i=mSpaceDim; i<mNumVoigtTerms; i++)
+        {
+            tTotStress(cellOrdinal,i) = tDevStress(cellOrdinal,i);
+        }
 
         // apply weighting
         //
-- 
2.43.0


From 18b81485faa545e4380c1a0361ef182c092fbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:34 +0000
Subject: [PATCH 63/64] fix: criteria of stabilized mechanics use the penalty
 function of their own definition

---
 src/StabilizedMechanics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StabilizedMechanics.hpp b/src/StabilizedMechanics.hpp
index 1e43d07..4875a8d 100644
--- a/src/StabilizedMechanics.hpp
+++ b/src/StabilizedMechanics.hpp
@@ -116,7 +116,7 @@ struct FunctionFactory
     /******************************************************************************/
     {
         std::shared_ptr<Plato::Elliptic::AbstractScalarFunction<EvaluationType>> tOutput;
-        auto tPenaltyParams = aParamList.sublist(aFuncName).sublist("Penalty Function");
+        auto tPenaltyParams = aParamList.sublist("Criteria").sublist(aFuncName).sublist("Penalty Function");
         if( aFuncType == "Internal Elastic Energy" )
         {
             std::string tPenaltyType = tPenaltyParams.get<std::string>("Type", "SIMP");
-- 
2.43.0


From a0662c9f26da7831cdd32fc7ff4ccf1c4440469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:47 +0000
Subject: [PATCH 64/64] fix: an unknown penalty type is an error in stabilized
 mechanics

---
 src/StabilizedMechanics.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/StabilizedMechanics.hpp b/src/StabilizedMechanics.hpp
index 4875a8d..3d5fc7a 100644
--- a/src/StabilizedMechanics.hpp
+++ b/src/StabilizedMechanics.hpp
@@ -66,6 +66,10 @@ stabilized_elastostatics_residual(
         tOutput = std::make_shared<Plato::StabilizedElastostaticResidual<EvaluationType, Plato::NoPenalty>>
                     (aSpatialDomain, aDataMap, aInputParams, tPenaltyParams);
     }
+    else
+    {
+        THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList");
+    }
     return (tOutput);
 }
 // function stabilized_elastostatics_residual
@@ -143,6 +147,10 @@ struct FunctionFactory
                 tOutput = std::make_shared<Plato::StabilizedElastostaticEnergy<EvaluationType, Plato::NoPenalty>>
                             (aSpatialDomain, aDataMap, aParamList, tPenaltyParams, aFuncName);
             }
+            else
+            {
+                THROWERR("Unknown 'Type' specified in 'Penalty Function' ParameterList");
+            }
         }
         else
         {
-- 
2.43.0

