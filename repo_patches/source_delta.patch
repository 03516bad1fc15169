From 5a3eca7b26038a656fa892f9a08ec14dc9285770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:29 +0000
Subject: [PATCH 01/71] fix: give % the precedence of * and / and ^ a level
 between & and |

The operator table put % with + and -, and ^ with &, so 2 + 7 % 4 was (2+7)%4
and 1 & 3 ^ 2 grouped left to right; the documentation promises C's precedence.
---
 discrete_src/cc/cc.h | 4 ++--
 src/wrench.cpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index e391ab1..d6e5ebd 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -90,11 +90,11 @@ const WROperation c_operations[] =
 	{ "-",    6, O_BinarySubtraction,   true,  WR_OPER_BINARY, O_LAST },
 	{ "*",    5, O_BinaryMultiplication,true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "/",    5, O_BinaryDivision,      true,  WR_OPER_BINARY, O_LAST },
-	{ "%",    6, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
+	{ "%",    5, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
 
 	{ "|",   13, O_BinaryOr,            true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "&",   11, O_BinaryAnd,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
-	{ "^",   11, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
+	{ "^",   12, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 
 	{ ">>",   7, O_BinaryRightShift,    true,  WR_OPER_BINARY, O_LAST },
 	{ "<<",   7, O_BinaryLeftShift,     true,  WR_OPER_BINARY, O_LAST },
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d39d438..0ed68d1 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1855,11 +1855,11 @@ const WROperation c_operations[] =
 	{ "-",    6, O_BinarySubtraction,   true,  WR_OPER_BINARY, O_LAST },
 	{ "*",    5, O_BinaryMultiplication,true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "/",    5, O_BinaryDivision,      true,  WR_OPER_BINARY, O_LAST },
-	{ "%",    6, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
+	{ "%",    5, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
 
 	{ "|",   13, O_BinaryOr,            true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "&",   11, O_BinaryAnd,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
-	{ "^",   11, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
+	{ "^",   12, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 
 	{ ">>",   7, O_BinaryRightShift,    true,  WR_OPER_BINARY, O_LAST },
 	{ "<<",   7, O_BinaryLeftShift,     true,  WR_OPER_BINARY, O_LAST },
-- 
2.43.0


From 6dffa8598c9e76a36cfe8b96363ada8a50dbc1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:08 +0000
Subject: [PATCH 02/71] fix: && and || on floats in compact builds

The compact interpreter compared floats with a callback that always answered
false (or, for the value form, with whatever callback a previous opcode left).
---
 discrete_src/vm/vm.cpp | 15 ++++++++-------
 src/wrench.cpp         | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 7a44535..0e7cbfa 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -271,7 +271,8 @@ static bool CompareGTF( float a, float b ) { return a > b; }
 bool CompareEQI( int a, int b ) { return a == b; }
 bool CompareEQF( float a, float b ) { return WR_FLOATS_EQUAL( a, b ); }
 
-static bool CompareBlankF( float a, float b ) { return false; }
+static bool CompareANDF( float a, float b ) { return a && b; }
+static bool CompareORF( float a, float b ) { return a || b; }
 static float blankF( float a, float b ) { return 0; }
 
 int32_t READ_32_FROM_PC_func( const unsigned char* P )
@@ -1989,7 +1990,7 @@ compactPreDecrement:
 			CASE(BLA):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLAPreLoad:
 				register0 = --stackTop;
 				register1 = --stackTop;
@@ -2002,7 +2003,7 @@ compactBLA:
 			CASE(BLA8):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLA8PreLoad:
 				register0 = --stackTop;
 compactBLA8PreReg1:
@@ -2016,7 +2017,7 @@ compactBLA8:
 			CASE(BLO):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA;
@@ -2025,7 +2026,7 @@ compactBLA8:
 			CASE(BLO8):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA8;
@@ -2141,8 +2142,8 @@ CompactFGFunc:
 				goto CompactFFFunc;
 			}
 
-			CASE(LogicalAnd): { boolIntCall = CompareANDI; goto compactReturnFuncNormal; }
-			CASE(LogicalOr): { boolIntCall = CompareORI; goto compactReturnFuncNormal; }
+			CASE(LogicalAnd): { boolIntCall = CompareANDI; boolFloatCall = CompareANDF; goto compactReturnFuncNormal; }
+			CASE(LogicalOr): { boolIntCall = CompareORI; boolFloatCall = CompareORF; goto compactReturnFuncNormal; }
 			CASE(CompareLE): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncInverted; }
 			CASE(CompareGE): { boolIntCall = CompareLTI; boolFloatCall = CompareLTF; goto compactReturnFuncInverted; }
 			CASE(CompareGT): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncNormal; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0ed68d1..b5cbed7 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10437,7 +10437,8 @@ static bool CompareGTF( float a, float b ) { return a > b; }
 bool CompareEQI( int a, int b ) { return a == b; }
 bool CompareEQF( float a, float b ) { return WR_FLOATS_EQUAL( a, b ); }
 
-static bool CompareBlankF( float a, float b ) { return false; }
+static bool CompareANDF( float a, float b ) { return a && b; }
+static bool CompareORF( float a, float b ) { return a || b; }
 static float blankF( float a, float b ) { return 0; }
 
 int32_t READ_32_FROM_PC_func( const unsigned char* P )
@@ -12155,7 +12156,7 @@ compactPreDecrement:
 			CASE(BLA):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLAPreLoad:
 				register0 = --stackTop;
 				register1 = --stackTop;
@@ -12168,7 +12169,7 @@ compactBLA:
 			CASE(BLA8):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLA8PreLoad:
 				register0 = --stackTop;
 compactBLA8PreReg1:
@@ -12182,7 +12183,7 @@ compactBLA8:
 			CASE(BLO):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA;
@@ -12191,7 +12192,7 @@ compactBLA8:
 			CASE(BLO8):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA8;
@@ -12307,8 +12308,8 @@ CompactFGFunc:
 				goto CompactFFFunc;
 			}
 
-			CASE(LogicalAnd): { boolIntCall = CompareANDI; goto compactReturnFuncNormal; }
-			CASE(LogicalOr): { boolIntCall = CompareORI; goto compactReturnFuncNormal; }
+			CASE(LogicalAnd): { boolIntCall = CompareANDI; boolFloatCall = CompareANDF; goto compactReturnFuncNormal; }
+			CASE(LogicalOr): { boolIntCall = CompareORI; boolFloatCall = CompareORF; goto compactReturnFuncNormal; }
 			CASE(CompareLE): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncInverted; }
 			CASE(CompareGE): { boolIntCall = CompareLTI; boolFloatCall = CompareLTF; goto compactReturnFuncInverted; }
 			CASE(CompareGT): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncNormal; }
-- 
2.43.0


From 91c6fe1f153bf418735e96be483be2ded37f0e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:31 +0000
Subject: [PATCH 03/71] fix: operators no longer corrupt their operands

- op= into an element or member with a variable or element on the right wrote
  the result over that right-hand variable (or read a clobbered temporary)
- float op= int retyped the right-hand int variable as float
- comparing an int with a float retyped the int variable as float
- element op variable for % << >> & | ^ dispatched to the wrong handler
- string + float (either order) did not concatenate in default builds
- compact builds concatenated strings for every op=, not only +=
---
 discrete_src/vm/operations_compact.cpp     | 12 ++--
 discrete_src/vm/operations_non_compact.cpp | 57 +++++++++++-------
 src/wrench.cpp                             | 69 +++++++++++++---------
 3 files changed, 84 insertions(+), 54 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index 0464466..da58fa9 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -54,19 +54,19 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
 	}
-	else if ( wr_concatStringCheck(to, from, to) )
+	else if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
 	}
 }
 void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( wr_concatStringCheck(to, from, to) )
+	if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
 	}
@@ -80,7 +80,7 @@ void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( !wr_concatStringCheck(to, from, to) )
+	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, to) )
 	{
 		WRValue& V = from->singleValue();
 		wr_FuncAssign[(to->type<<2)|V.type](to, &V, intCall, floatCall);
@@ -90,7 +90,9 @@ void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(WR_EX<<2)|from->r->type](to, from->r, intCall, floatCall);
+	WRValue temp = *from->r;
+	wr_FuncAssign[(WR_EX<<2)|temp.type](to, &temp, intCall, floatCall);
+	*from = temp;
 }
 
 void FuncAssign_R_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index fae3ea9..ca1164a 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -45,7 +45,7 @@ void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 }\
 void NAME##Assign_E_E( WRValue* to, WRValue* from ) \
 {\
-	WRValue& V = from->singleValue();\
+	WRValue V = from->singleValue();\
 	\
 	NAME##Assign[(WR_EX<<2)+V.type]( to, &V );\
 	*from = to->deref();\
@@ -56,7 +56,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	NAME##Assign[(WR_INT<<2)+V.type](to, &V);\
 	*from = *to;\
 }\
-void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
+void NAME##Assign_E_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_EX<<2)|temp.type]( to, &temp ); *from = temp; }\
 void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
@@ -99,7 +99,7 @@ void wr_SubtractAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_SubtractAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -118,7 +118,9 @@ void wr_SubtractAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_SubtractAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_SubtractAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -129,7 +131,7 @@ void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
-void wr_SubtractAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f -= (float)from->i; }
+void wr_SubtractAssign_F_I( WRValue* to, WRValue* from ) { to->f -= (float)from->i; }
 WRVoidFunc wr_SubtractAssign[16] = 
 {
 	wr_SubtractAssign_I_I,  wr_SubtractAssign_I_F,  wr_SubtractAssign_I_R,  wr_SubtractAssign_I_E,
@@ -159,7 +161,7 @@ void wr_MultiplyAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_MultiplyAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -178,7 +180,9 @@ void wr_MultiplyAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_MultiplyAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_MultiplyAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -187,9 +191,9 @@ void wr_MultiplyAssign_R_F( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to
 void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
 void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
-void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i *= from->i; }
+void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_imul_wrap( to->i, from->i ); }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
-void wr_MultiplyAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f *= (float)from->i; }
+void wr_MultiplyAssign_F_I( WRValue* to, WRValue* from ) { to->f *= (float)from->i; }
 WRVoidFunc wr_MultiplyAssign[16] = 
 {
 	wr_MultiplyAssign_I_I,  wr_MultiplyAssign_I_F,  wr_MultiplyAssign_I_R,  wr_MultiplyAssign_I_E,
@@ -219,7 +223,7 @@ void wr_DivideAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_DivideAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -238,7 +242,9 @@ void wr_DivideAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_DivideAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_DivideAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -296,7 +302,6 @@ void wr_DivideAssign_I_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_F_I( WRValue* to, WRValue* from )
 {
-	from->p2 = INIT_AS_FLOAT;
 	if ( from->i )
 	{
 		to->f = to->f / (float)from->i;
@@ -349,7 +354,7 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
@@ -379,7 +384,9 @@ void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_AddAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_AddAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_AddAssign_R_E( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }
 void wr_AddAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -403,7 +410,7 @@ void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
-void wr_AddAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f += (float)from->i; }
+void wr_AddAssign_F_I( WRValue* to, WRValue* from ) { to->f += (float)from->i; }
 WRVoidFunc wr_AddAssign[16] = 
 {
 	wr_AddAssign_I_I,  wr_AddAssign_I_F,  wr_AddAssign_I_R,  wr_AddAssign_I_E,
@@ -592,8 +599,11 @@ void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 
 void wr_AdditionBinary_E_F( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = to->singleValue();
-	wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = to->singleValue();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
 }
 void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 {
@@ -610,8 +620,11 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = from->singleValue();
-	wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = from->singleValue();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
 }
 void wr_AdditionBinary_R_E( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(to->r->type<<2)|WR_EX]( to->r, from, target); }
 void wr_AdditionBinary_E_R( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(WR_EX<<2)+from->r->type](to, from->r, target); }
@@ -653,7 +666,7 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 	WRValue& V = from->singleValue();\
 	NAME##Binary[(WR_INT<<2)+V.type](to, &V, target);\
 }\
-void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
+void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
 void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
@@ -711,7 +724,7 @@ bool NAME##_R_F( WRValue* to, WRValue* from ) { return NAME[(to->r->type<<2)|WR_
 bool NAME##_I_R( WRValue* to, WRValue* from ) { return NAME[(WR_INT<<2)+from->r->type](to, from->r); }\
 bool NAME##_F_R( WRValue* to, WRValue* from ) { return NAME[(WR_FLOAT<<2)+from->r->type](to, from->r); }\
 bool NAME##_I_I( WRValue* to, WRValue* from ) { return to->i OPERATION from->i; }\
-bool NAME##_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i OPERATION from->f; }\
+bool NAME##_I_F( WRValue* to, WRValue* from ) { return (float)to->i OPERATION from->f; }\
 bool NAME##_F_I( WRValue* to, WRValue* from ) { return to->f OPERATION (float)from->i; }\
 bool NAME##_F_F( WRValue* to, WRValue* from ) { return to->f OPERATION from->f; }\
 WRReturnFunc NAME[16] = \
@@ -772,7 +785,7 @@ bool wr_CompareLT_R_F( WRValue* to, WRValue* from ) { return wr_CompareLT[(to->r
 bool wr_CompareLT_I_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_INT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_F_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_FLOAT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_I_I( WRValue* to, WRValue* from ) { return to->i < from->i; }
-bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i < from->f; }
+bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { return (float)to->i < from->f; }
 bool wr_CompareLT_F_I( WRValue* to, WRValue* from ) { return to->f < (float)from->i; }
 bool wr_CompareLT_F_F( WRValue* to, WRValue* from ) { return to->f < from->f; }
 WRReturnFunc wr_CompareLT[16] = 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b5cbed7..83dcdd0 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18406,19 +18406,19 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
 	}
-	else if ( wr_concatStringCheck(to, from, to) )
+	else if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
 	}
 }
 void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( wr_concatStringCheck(to, from, to) )
+	if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
 	{
 		*from = *to;
 	}
@@ -18432,7 +18432,7 @@ void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( !wr_concatStringCheck(to, from, to) )
+	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, to) )
 	{
 		WRValue& V = from->singleValue();
 		wr_FuncAssign[(to->type<<2)|V.type](to, &V, intCall, floatCall);
@@ -18442,7 +18442,9 @@ void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(WR_EX<<2)|from->r->type](to, from->r, intCall, floatCall);
+	WRValue temp = *from->r;
+	wr_FuncAssign[(WR_EX<<2)|temp.type](to, &temp, intCall, floatCall);
+	*from = temp;
 }
 
 void FuncAssign_R_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
@@ -18658,7 +18660,7 @@ void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 }\
 void NAME##Assign_E_E( WRValue* to, WRValue* from ) \
 {\
-	WRValue& V = from->singleValue();\
+	WRValue V = from->singleValue();\
 	\
 	NAME##Assign[(WR_EX<<2)+V.type]( to, &V );\
 	*from = to->deref();\
@@ -18669,7 +18671,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	NAME##Assign[(WR_INT<<2)+V.type](to, &V);\
 	*from = *to;\
 }\
-void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
+void NAME##Assign_E_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_EX<<2)|temp.type]( to, &temp ); *from = temp; }\
 void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
@@ -18712,7 +18714,7 @@ void wr_SubtractAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_SubtractAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -18731,7 +18733,9 @@ void wr_SubtractAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_SubtractAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_SubtractAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -18742,7 +18746,7 @@ void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
-void wr_SubtractAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f -= (float)from->i; }
+void wr_SubtractAssign_F_I( WRValue* to, WRValue* from ) { to->f -= (float)from->i; }
 WRVoidFunc wr_SubtractAssign[16] = 
 {
 	wr_SubtractAssign_I_I,  wr_SubtractAssign_I_F,  wr_SubtractAssign_I_R,  wr_SubtractAssign_I_E,
@@ -18772,7 +18776,7 @@ void wr_MultiplyAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_MultiplyAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -18791,7 +18795,9 @@ void wr_MultiplyAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_MultiplyAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_MultiplyAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -18800,9 +18806,9 @@ void wr_MultiplyAssign_R_F( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to
 void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
 void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
-void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i *= from->i; }
+void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_imul_wrap( to->i, from->i ); }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
-void wr_MultiplyAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f *= (float)from->i; }
+void wr_MultiplyAssign_F_I( WRValue* to, WRValue* from ) { to->f *= (float)from->i; }
 WRVoidFunc wr_MultiplyAssign[16] = 
 {
 	wr_MultiplyAssign_I_I,  wr_MultiplyAssign_I_F,  wr_MultiplyAssign_I_R,  wr_MultiplyAssign_I_E,
@@ -18832,7 +18838,7 @@ void wr_DivideAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_DivideAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -18851,7 +18857,9 @@ void wr_DivideAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_DivideAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_DivideAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -18909,7 +18917,6 @@ void wr_DivideAssign_I_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_F_I( WRValue* to, WRValue* from )
 {
-	from->p2 = INIT_AS_FLOAT;
 	if ( from->i )
 	{
 		to->f = to->f / (float)from->i;
@@ -18962,7 +18969,7 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
@@ -18992,7 +18999,9 @@ void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_AddAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_AddAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_AddAssign_R_E( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }
 void wr_AddAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -19016,7 +19025,7 @@ void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
-void wr_AddAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f += (float)from->i; }
+void wr_AddAssign_F_I( WRValue* to, WRValue* from ) { to->f += (float)from->i; }
 WRVoidFunc wr_AddAssign[16] = 
 {
 	wr_AddAssign_I_I,  wr_AddAssign_I_F,  wr_AddAssign_I_R,  wr_AddAssign_I_E,
@@ -19205,8 +19214,11 @@ void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 
 void wr_AdditionBinary_E_F( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = to->singleValue();
-	wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = to->singleValue();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
 }
 void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 {
@@ -19223,8 +19235,11 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = from->singleValue();
-	wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = from->singleValue();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
 }
 void wr_AdditionBinary_R_E( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(to->r->type<<2)|WR_EX]( to->r, from, target); }
 void wr_AdditionBinary_E_R( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(WR_EX<<2)+from->r->type](to, from->r, target); }
@@ -19266,7 +19281,7 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 	WRValue& V = from->singleValue();\
 	NAME##Binary[(WR_INT<<2)+V.type](to, &V, target);\
 }\
-void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
+void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
 void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
@@ -19324,7 +19339,7 @@ bool NAME##_R_F( WRValue* to, WRValue* from ) { return NAME[(to->r->type<<2)|WR_
 bool NAME##_I_R( WRValue* to, WRValue* from ) { return NAME[(WR_INT<<2)+from->r->type](to, from->r); }\
 bool NAME##_F_R( WRValue* to, WRValue* from ) { return NAME[(WR_FLOAT<<2)+from->r->type](to, from->r); }\
 bool NAME##_I_I( WRValue* to, WRValue* from ) { return to->i OPERATION from->i; }\
-bool NAME##_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i OPERATION from->f; }\
+bool NAME##_I_F( WRValue* to, WRValue* from ) { return (float)to->i OPERATION from->f; }\
 bool NAME##_F_I( WRValue* to, WRValue* from ) { return to->f OPERATION (float)from->i; }\
 bool NAME##_F_F( WRValue* to, WRValue* from ) { return to->f OPERATION from->f; }\
 WRReturnFunc NAME[16] = \
@@ -19385,7 +19400,7 @@ bool wr_CompareLT_R_F( WRValue* to, WRValue* from ) { return wr_CompareLT[(to->r
 bool wr_CompareLT_I_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_INT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_F_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_FLOAT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_I_I( WRValue* to, WRValue* from ) { return to->i < from->i; }
-bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i < from->f; }
+bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { return (float)to->i < from->f; }
 bool wr_CompareLT_F_I( WRValue* to, WRValue* from ) { return to->f < (float)from->i; }
 bool wr_CompareLT_F_F( WRValue* to, WRValue* from ) { return to->f < from->f; }
 WRReturnFunc wr_CompareLT[16] = 
-- 
2.43.0


From d0dc7c837e4112892e166f6935dba86cc48859cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:44 +0000
Subject: [PATCH 04/71] fix: integer division and modulus no longer fault the
 host

INT_MIN / -1, INT_MIN % -1 and x % 0 raised SIGFPE. They now wrap, and % 0
gives 0 (or WR_ERR_division_by_zero when trapping) like division does.
With WRENCH_TRAP_DIVISION_BY_ZERO, x /= 0 and x %= 0 were not trapped, and a
compact build trapped nothing.
---
 discrete_src/vm/operations_non_compact.cpp |  57 +++++++----
 discrete_src/vm/vm.cpp                     |  50 +++++++++-
 src/wrench.cpp                             | 107 ++++++++++++++++-----
 3 files changed, 168 insertions(+), 46 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index ca1164a..e68534c 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -30,6 +30,9 @@ SOFTWARE.
 inline int32_t wr_iadd_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a + (uint32_t)b); }
 inline int32_t wr_isub_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a - (uint32_t)b); }
 inline int32_t wr_imul_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a * (uint32_t)b); }
+// b must not be zero; INT_MIN / -1 wraps instead of faulting
+inline int32_t wr_idiv_wrap( const int32_t a, const int32_t b ) { return b == -1 ? (int32_t)(0 - (uint32_t)a) : a / b; }
+inline int32_t wr_imod_wrap( const int32_t a, const int32_t b ) { return b == -1 ? 0 : a % b; }
 
 void doVoidFuncBlank( WRValue* to, WRValue* from ) {}
 
@@ -61,7 +64,7 @@ void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
-void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i OPERATION##= from->i; }\
+void NAME##Assign_I_I( WRValue* to, WRValue* from ) { OPERATION; }\
 WRVoidFunc NAME##Assign[16] = \
 {\
 	NAME##Assign_I_I,   doVoidFuncBlank,   NAME##Assign_I_R,  NAME##Assign_I_E,\
@@ -71,12 +74,30 @@ WRVoidFunc NAME##Assign[16] = \
 };\
 
 
-X_LOGIC_ASSIGN( wr_Mod, % );
-X_LOGIC_ASSIGN( wr_OR, | );
-X_LOGIC_ASSIGN( wr_AND, & );
-X_LOGIC_ASSIGN( wr_XOR, ^ );
-X_LOGIC_ASSIGN( wr_RightShift, >> );
-X_LOGIC_ASSIGN( wr_LeftShift, << );
+static void wr_modInts( const int32_t a, const int32_t b, WRValue* target )
+{
+	if ( b )
+	{
+		target->p2 = INIT_AS_INT;
+		target->i = wr_imod_wrap( a, b );
+	}
+	else
+	{
+#ifdef WRENCH_TRAP_DIVISION_BY_ZERO
+		target->p2 = INIT_AS_INVALID;
+#else
+		target->p2 = INIT_AS_INT;
+		target->i = 0;
+#endif
+	}
+}
+
+X_LOGIC_ASSIGN( wr_Mod, wr_modInts(to->i, from->i, to) );
+X_LOGIC_ASSIGN( wr_OR, to->i |= from->i );
+X_LOGIC_ASSIGN( wr_AND, to->i &= from->i );
+X_LOGIC_ASSIGN( wr_XOR, to->i ^= from->i );
+X_LOGIC_ASSIGN( wr_RightShift, to->i >>= from->i );
+X_LOGIC_ASSIGN( wr_LeftShift, to->i <<= from->i );
 
 
 void wr_SubtractAssign_E_I( WRValue* to, WRValue* from )
@@ -273,7 +294,7 @@ void wr_DivideAssign_I_I( WRValue* to, WRValue* from )
 {
 	if ( from->i )
 	{
-		to->i = to->i / from->i;
+		to->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -510,7 +531,7 @@ void wr_DivideBinary_I_I( WRValue* to, WRValue* from, WRValue* target )
 	target->p2 = INIT_AS_INT;
 	if ( from->i )
 	{
-		target->i = to->i / from->i;
+		target->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -650,6 +671,7 @@ void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
 
 //------------------------------------------------------------------------------
 #define X_INT_BINARY( NAME, OPERATION ) \
+void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { OPERATION; }\
 void NAME##Binary_E_I( WRValue* to, WRValue* from, WRValue* target )\
 {\
 	WRValue& V = to->singleValue();\
@@ -668,10 +690,9 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 }\
 void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
-void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
+void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { NAME##Binary_I_I(to, rhs, target); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = lhs->i OPERATION from->i; } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
-void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION from->i; }\
+void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { NAME##Binary_I_I(lhs, from, target); } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
 WRTargetFunc NAME##Binary[16] = \
 {\
 	NAME##Binary_I_I, doTargetFuncBlank,   NAME##Binary_I_R,  NAME##Binary_I_E,\
@@ -680,12 +701,12 @@ WRTargetFunc NAME##Binary[16] = \
 	NAME##Binary_E_I, doTargetFuncBlank,   NAME##Binary_E_R,  NAME##Binary_E_E,\
 };\
 
-X_INT_BINARY( wr_LeftShift, << );
-X_INT_BINARY( wr_RightShift, >> );
-X_INT_BINARY( wr_Mod, % );
-X_INT_BINARY( wr_AND, & );
-X_INT_BINARY( wr_OR, | );
-X_INT_BINARY( wr_XOR, ^ );
+X_INT_BINARY( wr_LeftShift, target->i = to->i << from->i; target->p2 = INIT_AS_INT );
+X_INT_BINARY( wr_RightShift, target->i = to->i >> from->i; target->p2 = INIT_AS_INT );
+X_INT_BINARY( wr_Mod, wr_modInts(to->i, from->i, target) );
+X_INT_BINARY( wr_AND, target->i = to->i & from->i; target->p2 = INIT_AS_INT );
+X_INT_BINARY( wr_OR, target->i = to->i | from->i; target->p2 = INIT_AS_INT );
+X_INT_BINARY( wr_XOR, target->i = to->i ^ from->i; target->p2 = INIT_AS_INT );
 
 
 
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 0e7cbfa..5cc255b 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -237,9 +237,23 @@ int wr_slicesUsedLastCall( WRState* w )
 
 #ifdef WRENCH_COMPACT
 
+#ifdef WRENCH_TRAP_DIVISION_BY_ZERO
+static bool s_dividedByZero = false;
+ #define FLAG_DIVISION_BY_ZERO s_dividedByZero = true
+ #define CHECK_DIVISION_BY_ZERO { if ( s_dividedByZero ) { s_dividedByZero = false; w->err = WR_ERR_division_by_zero; return 0; } }
+#else
+ #define FLAG_DIVISION_BY_ZERO
+ #define CHECK_DIVISION_BY_ZERO
+#endif
+
 static float divisionF( float a, float b )
 {
-	return b ? a / b : 0.0f;
+	if ( !b )
+	{
+		FLAG_DIVISION_BY_ZERO;
+		return 0.0f;
+	}
+	return a / b;
 }
 static float addF( float a, float b ) { return a + b; }
 static float subtractionF( float a, float b ) { return a - b; }
@@ -247,7 +261,12 @@ static float multiplicationF( float a, float b ) { return a * b; }
 
 static int divisionI( int a, int b )
 {
-	return b ? a / b : 0;
+	if ( !b )
+	{
+		FLAG_DIVISION_BY_ZERO;
+		return 0;
+	}
+	return b == -1 ? (int)(0 - (unsigned int)a) : a / b; // INT_MIN / -1 wraps instead of faulting
 }
 int wr_addI( int a, int b ) { return a + b; }
 static int subtractionI( int a, int b ) { return a - b; }
@@ -255,7 +274,15 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return a % b; }
+static int modI( int a, int b )
+{
+	if ( !b )
+	{
+		FLAG_DIVISION_BY_ZERO;
+		return 0;
+	}
+	return b == -1 ? 0 : a % b;
+}
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
@@ -1814,6 +1841,7 @@ targetFuncOpSkipLoadAndReg2:
 																	 register2,
 																	 intCall,
 																	 floatCall );
+				CHECK_DIVISION_BY_ZERO;
 				CHECK_STACK;
 				CONTINUE;
 			}
@@ -1888,6 +1916,7 @@ binaryTableOpAndPop:
 
 binaryTableOpAndPopCall:
 				wr_FuncAssign[(register0->type<<2)|register1->type]( register0, register1, intCall, floatCall );
+				CHECK_DIVISION_BY_ZERO;
 				CONTINUE;
 			}
 			
@@ -1912,6 +1941,7 @@ targetFuncStoreGlobalOp:
 				register0 = --stackTop;
 				register1 = --stackTop;
 				wr_funcBinary[(register0->type<<2)|register1->type]( register0, register1, globalSpace + READ_8_FROM_PC(pc++), intCall, floatCall );
+				CHECK_DIVISION_BY_ZERO;
 				CONTINUE;
 			}
 			
@@ -1927,6 +1957,7 @@ targetFuncStoreLocalOp:
 				register0 = --stackTop;
 				register1 = --stackTop;
 				wr_funcBinary[(register0->type<<2)|register1->type]( register0, register1, frameBase + READ_8_FROM_PC(pc++), intCall, floatCall );
+				CHECK_DIVISION_BY_ZERO;
 				CONTINUE;
 			}
 			
@@ -3117,7 +3148,16 @@ CompareGG8:
 			{
 				targetFunc = wr_ModBinary;
 targetFuncOpSkipLoad:
+#ifdef WRENCH_TRAP_DIVISION_BY_ZERO
+				targetFunc[(register1->type<<2)|register0->type]( register1, register0, stackTop );
+				if ( IS_INVALID(stackTop++->p2) )
+				{
+					w->err = WR_ERR_division_by_zero;
+					return 0;
+				}
+#else
 				targetFunc[(register1->type<<2)|register0->type]( register1, register0, stackTop++ );
+#endif
 				CHECK_STACK;
 				CONTINUE;
 			}
@@ -3166,7 +3206,7 @@ binaryTableOp:
 				register1 = stackTop - 1;
 				voidFunc[(register0->type<<2)|register1->type]( register0, register1 );
 #ifdef WRENCH_TRAP_DIVISION_BY_ZERO
-				if ( IS_INVALID(register0->p2) )
+				if ( IS_INVALID(register1->p2) )
 				{
 					w->err = WR_ERR_division_by_zero;
 					return 0;
@@ -3194,7 +3234,7 @@ binaryTableOpAndPop:
 				register1 = --stackTop;
 				voidFunc[(register0->type<<2)|register1->type]( register0, register1 );
 #ifdef WRENCH_TRAP_DIVISION_BY_ZERO
-				if ( IS_INVALID(register0->p2) )
+				if ( IS_INVALID(register1->p2) )
 				{
 					w->err = WR_ERR_division_by_zero;
 					return 0;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 83dcdd0..23446d2 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10403,9 +10403,23 @@ int wr_slicesUsedLastCall( WRState* w )
 
 #ifdef WRENCH_COMPACT
 
+#ifdef WRENCH_TRAP_DIVISION_BY_ZERO
+static bool s_dividedByZero = false;
+ #define FLAG_DIVISION_BY_ZERO s_dividedByZero = true
+ #define CHECK_DIVISION_BY_ZERO { if ( s_dividedByZero ) { s_dividedByZero = false; w->err = WR_ERR_division_by_zero; return 0; } }
+#else
+ #define FLAG_DIVISION_BY_ZERO
+ #define CHECK_DIVISION_BY_ZERO
+#endif
+
 static float divisionF( float a, float b )
 {
-	return b ? a / b : 0.0f;
+	if ( !b )
+	{
+		FLAG_DIVISION_BY_ZERO;
+		return 0.0f;
+	}
+	return a / b;
 }
 static float addF( float a, float b ) { return a + b; }
 static float subtractionF( float a, float b ) { return a - b; }
@@ -10413,7 +10427,12 @@ static float multiplicationF( float a, float b ) { return a * b; }
 
 static int divisionI( int a, int b )
 {
-	return b ? a / b : 0;
+	if ( !b )
+	{
+		FLAG_DIVISION_BY_ZERO;
+		return 0;
+	}
+	return b == -1 ? (int)(0 - (unsigned int)a) : a / b; // INT_MIN / -1 wraps instead of faulting
 }
 int wr_addI( int a, int b ) { return a + b; }
 static int subtractionI( int a, int b ) { return a - b; }
@@ -10421,7 +10440,15 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return a % b; }
+static int modI( int a, int b )
+{
+	if ( !b )
+	{
+		FLAG_DIVISION_BY_ZERO;
+		return 0;
+	}
+	return b == -1 ? 0 : a % b;
+}
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
@@ -11980,6 +12007,7 @@ targetFuncOpSkipLoadAndReg2:
 																	 register2,
 																	 intCall,
 																	 floatCall );
+				CHECK_DIVISION_BY_ZERO;
 				CHECK_STACK;
 				CONTINUE;
 			}
@@ -12054,6 +12082,7 @@ binaryTableOpAndPop:
 
 binaryTableOpAndPopCall:
 				wr_FuncAssign[(register0->type<<2)|register1->type]( register0, register1, intCall, floatCall );
+				CHECK_DIVISION_BY_ZERO;
 				CONTINUE;
 			}
 			
@@ -12078,6 +12107,7 @@ targetFuncStoreGlobalOp:
 				register0 = --stackTop;
 				register1 = --stackTop;
 				wr_funcBinary[(register0->type<<2)|register1->type]( register0, register1, globalSpace + READ_8_FROM_PC(pc++), intCall, floatCall );
+				CHECK_DIVISION_BY_ZERO;
 				CONTINUE;
 			}
 			
@@ -12093,6 +12123,7 @@ targetFuncStoreLocalOp:
 				register0 = --stackTop;
 				register1 = --stackTop;
 				wr_funcBinary[(register0->type<<2)|register1->type]( register0, register1, frameBase + READ_8_FROM_PC(pc++), intCall, floatCall );
+				CHECK_DIVISION_BY_ZERO;
 				CONTINUE;
 			}
 			
@@ -13283,7 +13314,16 @@ CompareGG8:
 			{
 				targetFunc = wr_ModBinary;
 targetFuncOpSkipLoad:
+#ifdef WRENCH_TRAP_DIVISION_BY_ZERO
+				targetFunc[(register1->type<<2)|register0->type]( register1, register0, stackTop );
+				if ( IS_INVALID(stackTop++->p2) )
+				{
+					w->err = WR_ERR_division_by_zero;
+					return 0;
+				}
+#else
 				targetFunc[(register1->type<<2)|register0->type]( register1, register0, stackTop++ );
+#endif
 				CHECK_STACK;
 				CONTINUE;
 			}
@@ -13332,7 +13372,7 @@ binaryTableOp:
 				register1 = stackTop - 1;
 				voidFunc[(register0->type<<2)|register1->type]( register0, register1 );
 #ifdef WRENCH_TRAP_DIVISION_BY_ZERO
-				if ( IS_INVALID(register0->p2) )
+				if ( IS_INVALID(register1->p2) )
 				{
 					w->err = WR_ERR_division_by_zero;
 					return 0;
@@ -13360,7 +13400,7 @@ binaryTableOpAndPop:
 				register1 = --stackTop;
 				voidFunc[(register0->type<<2)|register1->type]( register0, register1 );
 #ifdef WRENCH_TRAP_DIVISION_BY_ZERO
-				if ( IS_INVALID(register0->p2) )
+				if ( IS_INVALID(register1->p2) )
 				{
 					w->err = WR_ERR_division_by_zero;
 					return 0;
@@ -18645,6 +18685,9 @@ SOFTWARE.
 inline int32_t wr_iadd_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a + (uint32_t)b); }
 inline int32_t wr_isub_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a - (uint32_t)b); }
 inline int32_t wr_imul_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a * (uint32_t)b); }
+// b must not be zero; INT_MIN / -1 wraps instead of faulting
+inline int32_t wr_idiv_wrap( const int32_t a, const int32_t b ) { return b == -1 ? (int32_t)(0 - (uint32_t)a) : a / b; }
+inline int32_t wr_imod_wrap( const int32_t a, const int32_t b ) { return b == -1 ? 0 : a % b; }
 
 void doVoidFuncBlank( WRValue* to, WRValue* from ) {}
 
@@ -18676,7 +18719,7 @@ void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
-void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i OPERATION##= from->i; }\
+void NAME##Assign_I_I( WRValue* to, WRValue* from ) { OPERATION; }\
 WRVoidFunc NAME##Assign[16] = \
 {\
 	NAME##Assign_I_I,   doVoidFuncBlank,   NAME##Assign_I_R,  NAME##Assign_I_E,\
@@ -18686,12 +18729,30 @@ WRVoidFunc NAME##Assign[16] = \
 };\
 
 
-X_LOGIC_ASSIGN( wr_Mod, % );
-X_LOGIC_ASSIGN( wr_OR, | );
-X_LOGIC_ASSIGN( wr_AND, & );
-X_LOGIC_ASSIGN( wr_XOR, ^ );
-X_LOGIC_ASSIGN( wr_RightShift, >> );
-X_LOGIC_ASSIGN( wr_LeftShift, << );
+static void wr_modInts( const int32_t a, const int32_t b, WRValue* target )
+{
+	if ( b )
+	{
+		target->p2 = INIT_AS_INT;
+		target->i = wr_imod_wrap( a, b );
+	}
+	else
+	{
+#ifdef WRENCH_TRAP_DIVISION_BY_ZERO
+		target->p2 = INIT_AS_INVALID;
+#else
+		target->p2 = INIT_AS_INT;
+		target->i = 0;
+#endif
+	}
+}
+
+X_LOGIC_ASSIGN( wr_Mod, wr_modInts(to->i, from->i, to) );
+X_LOGIC_ASSIGN( wr_OR, to->i |= from->i );
+X_LOGIC_ASSIGN( wr_AND, to->i &= from->i );
+X_LOGIC_ASSIGN( wr_XOR, to->i ^= from->i );
+X_LOGIC_ASSIGN( wr_RightShift, to->i >>= from->i );
+X_LOGIC_ASSIGN( wr_LeftShift, to->i <<= from->i );
 
 
 void wr_SubtractAssign_E_I( WRValue* to, WRValue* from )
@@ -18888,7 +18949,7 @@ void wr_DivideAssign_I_I( WRValue* to, WRValue* from )
 {
 	if ( from->i )
 	{
-		to->i = to->i / from->i;
+		to->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -19125,7 +19186,7 @@ void wr_DivideBinary_I_I( WRValue* to, WRValue* from, WRValue* target )
 	target->p2 = INIT_AS_INT;
 	if ( from->i )
 	{
-		target->i = to->i / from->i;
+		target->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -19265,6 +19326,7 @@ void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
 
 //------------------------------------------------------------------------------
 #define X_INT_BINARY( NAME, OPERATION ) \
+void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { OPERATION; }\
 void NAME##Binary_E_I( WRValue* to, WRValue* from, WRValue* target )\
 {\
 	WRValue& V = to->singleValue();\
@@ -19283,10 +19345,9 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 }\
 void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
-void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
+void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { NAME##Binary_I_I(to, rhs, target); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = lhs->i OPERATION from->i; } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
-void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION from->i; }\
+void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { NAME##Binary_I_I(lhs, from, target); } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
 WRTargetFunc NAME##Binary[16] = \
 {\
 	NAME##Binary_I_I, doTargetFuncBlank,   NAME##Binary_I_R,  NAME##Binary_I_E,\
@@ -19295,12 +19356,12 @@ WRTargetFunc NAME##Binary[16] = \
 	NAME##Binary_E_I, doTargetFuncBlank,   NAME##Binary_E_R,  NAME##Binary_E_E,\
 };\
 
-X_INT_BINARY( wr_LeftShift, << );
-X_INT_BINARY( wr_RightShift, >> );
-X_INT_BINARY( wr_Mod, % );
-X_INT_BINARY( wr_AND, & );
-X_INT_BINARY( wr_OR, | );
-X_INT_BINARY( wr_XOR, ^ );
+X_INT_BINARY( wr_LeftShift, target->i = to->i << from->i; target->p2 = INIT_AS_INT );
+X_INT_BINARY( wr_RightShift, target->i = to->i >> from->i; target->p2 = INIT_AS_INT );
+X_INT_BINARY( wr_Mod, wr_modInts(to->i, from->i, target) );
+X_INT_BINARY( wr_AND, target->i = to->i & from->i; target->p2 = INIT_AS_INT );
+X_INT_BINARY( wr_OR, target->i = to->i | from->i; target->p2 = INIT_AS_INT );
+X_INT_BINARY( wr_XOR, target->i = to->i ^ from->i; target->p2 = INIT_AS_INT );
 
 
 
-- 
2.43.0


From 17ad34671f2d0e2d69414f6664f55d897bca83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:19 +0000
Subject: [PATCH 05/71] fix: container edge cases no longer corrupt memory or
 lose entries

- a container that holds itself sent the collector into endless recursion
- _remove of an array element that does not exist still shrank the array
- an index or size beyond the 21 bits that can be encoded was truncated, and
  the byte count of a huge array overflowed
- a hash table entry added after _remove inherited the removed value, the
  entry that made the table grow was not counted, and a few thousand keys
  ran off the end of the table of sizes
---
 discrete_src/utils/utils.h    |  1 +
 discrete_src/vm/gc.cpp        |  5 ++-
 discrete_src/vm/gc_object.cpp | 48 +++++++++++++++++-----
 discrete_src/vm/index.cpp     | 13 +++++-
 discrete_src/vm/vm.cpp        |  9 ++++-
 src/wrench.cpp                | 76 ++++++++++++++++++++++++++++-------
 6 files changed, 124 insertions(+), 28 deletions(-)

diff --git a/discrete_src/utils/utils.h b/discrete_src/utils/utils.h
index 29f258f..bf51e85 100644
--- a/discrete_src/utils/utils.h
+++ b/discrete_src/utils/utils.h
@@ -455,6 +455,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 #define INIT_AS_FLOAT    WR_FLOAT
 
 #define ENCODE_ARRAY_ELEMENT_TO_P2(E) ((E)<<8)
+#define WR_MAX_ARRAY_INDEX 0x1FFFFF // largest index that can be encoded
 #define DECODE_ARRAY_ELEMENT_FROM_P2(E) (((E)&0x1FFFFF00) >> 8)
 
 #define IS_EXARRAY_TYPE(P)   ((P)&0xC0)
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index f7968bb..84b5983 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -27,6 +27,9 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 void WRContext::markBase( WRGCBase* svb )
 {
+	// mark before descending: containers can contain themselves
+	svb->m_flags |= GCFlag_Marked;
+
 	if ( svb->m_type == SV_VALUE )
 	{
 		WRValue* top = ((WRGCObject*)svb)->m_Vdata + ((WRGCObject*)svb)->m_size;
@@ -57,8 +60,6 @@ void WRContext::markBase( WRGCBase* svb )
 		// mark the referenced table so it is not collected
 		((WRGCBase*)svb)->m_referencedTable->m_flags |= GCFlag_Marked;
 	}
-
-	svb->m_flags |= GCFlag_Marked;
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index ad49ef7..974fbd7 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -24,9 +24,15 @@ SOFTWARE.
 
 #include "wrench.h"
 
+// the largest table can't grow to get rid of a collision, so it is probed all the way around
+static const uint16_t c_largestPrime = c_primeTable[ sizeof(c_primeTable)/sizeof(c_primeTable[0]) - 1 ];
+#define HASH_PROBES(MOD) ((MOD) == c_largestPrime ? (int)(MOD) : 3)
+
 //------------------------------------------------------------------------------
-int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool clear )
+int WRGCObject::init( const unsigned int requestedSize, const WRGCObjectType type, bool clear )
 {
+	// more elements than can be indexed (or a negative count) is not a usable array
+	const unsigned int size = (type == SV_VALUE && requestedSize > WR_MAX_ARRAY_INDEX + 1) ? 0 : requestedSize;
 	int ret = (m_size = size);
 
 	if ( (m_type = type) == SV_VALUE )
@@ -65,7 +71,8 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	}
 	else
 	{
-		growHash( WRENCH_NULL_HASH, size, &ret );
+		m_size = 0; // 'size' is how much room to start with, there are no entries yet
+		growHash( WRENCH_NULL_HASH, size > c_largestPrime ? c_largestPrime : size, &ret );
 	}
 
 	return ret;
@@ -104,7 +111,7 @@ WRValue* WRGCObject::exists( const uint32_t hash, bool removeIfPresent )
 
 	if ( m_hashTable[index] != hash )
 	{
-		int tries = 3;
+		int tries = HASH_PROBES(m_mod);
 		do
 		{
 			index = (index + 1) % m_mod;
@@ -163,11 +170,22 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		return index; // immediate hits should be cheap
 	}
 
-	int tries = 3;
+	int tries = HASH_PROBES(m_mod);
 	do
 	{
 		if ( inserting && m_hashTable[index] == WRENCH_NULL_HASH )
 		{
+			// the slot may still hold what a removed entry left behind
+			if ( m_type == SV_HASH_TABLE )
+			{
+				m_Vdata[index<<1].init();
+				m_Vdata[(index<<1) + 1].init();
+			}
+			else
+			{
+				m_Vdata[index].init();
+			}
+
 			++m_size;
 			m_hashTable[index] = hash;
 			return index;
@@ -192,8 +210,13 @@ uint32_t WRGCObject::growHash( const uint32_t hash, const uint16_t sizeHint, int
 	// collision disappears
 
 	uint16_t start = (sizeHint > m_mod) ? sizeHint : m_mod;
+	if ( m_mod == c_largestPrime )
+	{
+		return hash % m_mod; // every entry is in use and it can't get any bigger
+	}
+
 	int t = 0;
-	for( ; c_primeTable[t] <= start ; ++t );
+	for( ; c_primeTable[t] <= start && c_primeTable[t] != c_largestPrime; ++t );
 
 	for(;;)
 	{
@@ -241,7 +264,12 @@ tryAgain:
 
 		for( unsigned int h=0; h<m_mod; ++h )
 		{
-			int tries = 3;
+			if ( m_hashTable[h] == WRENCH_NULL_HASH )
+			{
+				continue;
+			}
+
+			int tries = HASH_PROBES(newMod);
 			int newEntry = m_hashTable[h] % newMod;
 			for(;;)
 			{
@@ -258,9 +286,6 @@ tryAgain:
 				{
 					g_free( base );
 					++t;
-
-					assert( (unsigned int)newMod != 49157 );
-
 					goto tryAgain;
 				}
 			}
@@ -318,6 +343,11 @@ tryAgain:
 
 		m_Vdata = newValues;
 
+		if ( hash != WRENCH_NULL_HASH )
+		{
+			++m_size;
+		}
+
 		return getIndexOfHit( hash, true );
 	}
 }
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 9f9e608..8a29134 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -95,6 +95,12 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
+	if ( index->ui > WR_MAX_ARRAY_INDEX )
+	{
+		target->init();
+		return;
+	}
+
 	// all we know is the value is not an array, so make it one
 	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -146,6 +152,11 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 
 			if ( I->type == WR_INT )
 			{
+				if ( index->ui > WR_MAX_ARRAY_INDEX )
+				{
+					goto boundsFailed;
+				}
+
 				value->va = c->getSVA( index->ui+1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
@@ -174,7 +185,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		}
 		else if ( index->ui >= value->va->m_size )
 		{
-			if ( value->va->m_flags & GCFlag_NoContext )
+			if ( (value->va->m_flags & GCFlag_NoContext) || (index->ui > WR_MAX_ARRAY_INDEX) )
 			{
 boundsFailed:
 				target->init();
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 5cc255b..c6ca90e 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1235,6 +1235,11 @@ callFunction:
 				else if ( register0->xtype == WR_EX_ARRAY )
 				{
 					va = register0->va;
+					if ( hash >= va->m_size )
+					{
+						FASTCONTINUE; // no such element, nothing to remove
+					}
+
 					if (va->m_type == SV_VALUE )
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
@@ -1370,14 +1375,14 @@ callFunction:
 			CASE(GlobalIndexHash):
 			{
 				register0 = &(globalSpace + READ_8_FROM_PC(pc++))->deref();
-				register1 = stackTop++;
+				register1 = (stackTop++)->init(); // will be visible to gc
 				goto hashIndexJump;
 			}
 
 			CASE(LocalIndexHash):
 			{
 				register0 = &(frameBase + READ_8_FROM_PC(pc++))->deref();
-				register1 = stackTop++;
+				register1 = (stackTop++)->init(); // will be visible to gc
 				goto hashIndexJump;
 			}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 23446d2..af292a7 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -461,6 +461,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 #define INIT_AS_FLOAT    WR_FLOAT
 
 #define ENCODE_ARRAY_ELEMENT_TO_P2(E) ((E)<<8)
+#define WR_MAX_ARRAY_INDEX 0x1FFFFF // largest index that can be encoded
 #define DECODE_ARRAY_ELEMENT_FROM_P2(E) (((E)&0x1FFFFF00) >> 8)
 
 #define IS_EXARRAY_TYPE(P)   ((P)&0xC0)
@@ -9687,9 +9688,15 @@ SOFTWARE.
 
 #include "wrench.h"
 
+// the largest table can't grow to get rid of a collision, so it is probed all the way around
+static const uint16_t c_largestPrime = c_primeTable[ sizeof(c_primeTable)/sizeof(c_primeTable[0]) - 1 ];
+#define HASH_PROBES(MOD) ((MOD) == c_largestPrime ? (int)(MOD) : 3)
+
 //------------------------------------------------------------------------------
-int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool clear )
+int WRGCObject::init( const unsigned int requestedSize, const WRGCObjectType type, bool clear )
 {
+	// more elements than can be indexed (or a negative count) is not a usable array
+	const unsigned int size = (type == SV_VALUE && requestedSize > WR_MAX_ARRAY_INDEX + 1) ? 0 : requestedSize;
 	int ret = (m_size = size);
 
 	if ( (m_type = type) == SV_VALUE )
@@ -9728,7 +9735,8 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	}
 	else
 	{
-		growHash( WRENCH_NULL_HASH, size, &ret );
+		m_size = 0; // 'size' is how much room to start with, there are no entries yet
+		growHash( WRENCH_NULL_HASH, size > c_largestPrime ? c_largestPrime : size, &ret );
 	}
 
 	return ret;
@@ -9767,7 +9775,7 @@ WRValue* WRGCObject::exists( const uint32_t hash, bool removeIfPresent )
 
 	if ( m_hashTable[index] != hash )
 	{
-		int tries = 3;
+		int tries = HASH_PROBES(m_mod);
 		do
 		{
 			index = (index + 1) % m_mod;
@@ -9826,11 +9834,22 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		return index; // immediate hits should be cheap
 	}
 
-	int tries = 3;
+	int tries = HASH_PROBES(m_mod);
 	do
 	{
 		if ( inserting && m_hashTable[index] == WRENCH_NULL_HASH )
 		{
+			// the slot may still hold what a removed entry left behind
+			if ( m_type == SV_HASH_TABLE )
+			{
+				m_Vdata[index<<1].init();
+				m_Vdata[(index<<1) + 1].init();
+			}
+			else
+			{
+				m_Vdata[index].init();
+			}
+
 			++m_size;
 			m_hashTable[index] = hash;
 			return index;
@@ -9855,8 +9874,13 @@ uint32_t WRGCObject::growHash( const uint32_t hash, const uint16_t sizeHint, int
 	// collision disappears
 
 	uint16_t start = (sizeHint > m_mod) ? sizeHint : m_mod;
+	if ( m_mod == c_largestPrime )
+	{
+		return hash % m_mod; // every entry is in use and it can't get any bigger
+	}
+
 	int t = 0;
-	for( ; c_primeTable[t] <= start ; ++t );
+	for( ; c_primeTable[t] <= start && c_primeTable[t] != c_largestPrime; ++t );
 
 	for(;;)
 	{
@@ -9904,7 +9928,12 @@ tryAgain:
 
 		for( unsigned int h=0; h<m_mod; ++h )
 		{
-			int tries = 3;
+			if ( m_hashTable[h] == WRENCH_NULL_HASH )
+			{
+				continue;
+			}
+
+			int tries = HASH_PROBES(newMod);
 			int newEntry = m_hashTable[h] % newMod;
 			for(;;)
 			{
@@ -9921,9 +9950,6 @@ tryAgain:
 				{
 					g_free( base );
 					++t;
-
-					assert( (unsigned int)newMod != 49157 );
-
 					goto tryAgain;
 				}
 			}
@@ -9981,6 +10007,11 @@ tryAgain:
 
 		m_Vdata = newValues;
 
+		if ( hash != WRENCH_NULL_HASH )
+		{
+			++m_size;
+		}
+
 		return getIndexOfHit( hash, true );
 	}
 }
@@ -10013,6 +10044,9 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 void WRContext::markBase( WRGCBase* svb )
 {
+	// mark before descending: containers can contain themselves
+	svb->m_flags |= GCFlag_Marked;
+
 	if ( svb->m_type == SV_VALUE )
 	{
 		WRValue* top = ((WRGCObject*)svb)->m_Vdata + ((WRGCObject*)svb)->m_size;
@@ -10043,8 +10077,6 @@ void WRContext::markBase( WRGCBase* svb )
 		// mark the referenced table so it is not collected
 		((WRGCBase*)svb)->m_referencedTable->m_flags |= GCFlag_Marked;
 	}
-
-	svb->m_flags |= GCFlag_Marked;
 }
 
 //------------------------------------------------------------------------------
@@ -11401,6 +11433,11 @@ callFunction:
 				else if ( register0->xtype == WR_EX_ARRAY )
 				{
 					va = register0->va;
+					if ( hash >= va->m_size )
+					{
+						FASTCONTINUE; // no such element, nothing to remove
+					}
+
 					if (va->m_type == SV_VALUE )
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
@@ -11536,14 +11573,14 @@ callFunction:
 			CASE(GlobalIndexHash):
 			{
 				register0 = &(globalSpace + READ_8_FROM_PC(pc++))->deref();
-				register1 = stackTop++;
+				register1 = (stackTop++)->init(); // will be visible to gc
 				goto hashIndexJump;
 			}
 
 			CASE(LocalIndexHash):
 			{
 				register0 = &(frameBase + READ_8_FROM_PC(pc++))->deref();
-				register1 = stackTop++;
+				register1 = (stackTop++)->init(); // will be visible to gc
 				goto hashIndexJump;
 			}
 
@@ -19664,6 +19701,12 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
+	if ( index->ui > WR_MAX_ARRAY_INDEX )
+	{
+		target->init();
+		return;
+	}
+
 	// all we know is the value is not an array, so make it one
 	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -19715,6 +19758,11 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 
 			if ( I->type == WR_INT )
 			{
+				if ( index->ui > WR_MAX_ARRAY_INDEX )
+				{
+					goto boundsFailed;
+				}
+
 				value->va = c->getSVA( index->ui+1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
@@ -19743,7 +19791,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		}
 		else if ( index->ui >= value->va->m_size )
 		{
-			if ( value->va->m_flags & GCFlag_NoContext )
+			if ( (value->va->m_flags & GCFlag_NoContext) || (index->ui > WR_MAX_ARRAY_INDEX) )
 			{
 boundsFailed:
 				target->init();
-- 
2.43.0


From 157c90c0cf03c66180f63e0bc965acf3b7bb3903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:01 +0000
Subject: [PATCH 06/71] fix: a negative literal index is no longer read as
 unsigned

a[-1] addressed element 255 and h[-1] a different key than h[i] with i == -1.
---
 discrete_src/vm/vm.cpp | 6 +++---
 src/wrench.cpp         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index c6ca90e..3c79120 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1547,7 +1547,7 @@ compactLoadBZ8:
 
 			CASE(IndexLiteral8):
 			{
-				stackTop->i = READ_8_FROM_PC(pc++);
+				stackTop->i = (int8_t)READ_8_FROM_PC(pc++);
 indexLiteral:
 				stackTop->p2 = INIT_AS_INT;
 				register0 = stackTop - 1;
@@ -1575,7 +1575,7 @@ indexLiteral:
 #ifdef WRENCH_COMPACT
 indexTempLiteral:
 #endif
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int8_t)READ_8_FROM_PC(pc++);
 #ifdef WRENCH_COMPACT
 indexTempLiteralPostLoad:
 #endif
@@ -1606,7 +1606,7 @@ indexTempLiteralPostLoad:
 #ifdef WRENCH_COMPACT
 				goto indexTempLiteral;
 #else
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int8_t)READ_8_FROM_PC(pc++);
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
 				CHECK_STACK;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index af292a7..332bac3 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11745,7 +11745,7 @@ compactLoadBZ8:
 
 			CASE(IndexLiteral8):
 			{
-				stackTop->i = READ_8_FROM_PC(pc++);
+				stackTop->i = (int8_t)READ_8_FROM_PC(pc++);
 indexLiteral:
 				stackTop->p2 = INIT_AS_INT;
 				register0 = stackTop - 1;
@@ -11773,7 +11773,7 @@ indexLiteral:
 #ifdef WRENCH_COMPACT
 indexTempLiteral:
 #endif
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int8_t)READ_8_FROM_PC(pc++);
 #ifdef WRENCH_COMPACT
 indexTempLiteralPostLoad:
 #endif
@@ -11804,7 +11804,7 @@ indexTempLiteralPostLoad:
 #ifdef WRENCH_COMPACT
 				goto indexTempLiteral;
 #else
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int8_t)READ_8_FROM_PC(pc++);
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
 				CHECK_STACK;
-- 
2.43.0


From b4bf96828f7deb29809a099a3f4d527c91ba13dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:55 +0000
Subject: [PATCH 07/71] fix: empty statements, unbraced break/continue and
 empty final switch cases

An empty statement emitted a stray pop (and break/continue left their
semicolon behind to become one), unbalancing the stack. A switch whose
final case was empty or ended in an inner jump fell into its own selection
table.
---
 discrete_src/cc/cc.cpp | 29 ++++++++++++++++++++++-------
 src/wrench.cpp         | 29 ++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index f4ea5f8..27452e0 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2785,13 +2785,11 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 		return true;
 	}
 	
-	// make sure the last instruction is a break (jump) so the
-	// selection logic is skipped at the end of the last case/default
-	if ( !m_units[m_unitTop].bytecode.opcodes.size() 
-		 || (m_units[m_unitTop].bytecode.opcodes.size() && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_RelativeJump) )
-	{
-		addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
-	}
+	// skip the selection logic at the end of the last case/default. This
+	// is needed even when the last statement ends in a jump: an empty
+	// final case, or an inner loop or conditional that finishes, arrives
+	// here too
+	addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
 
 	// selection logic jumps HERE
 	setRelativeJumpTarget( m_units[m_unitTop].bytecode, selectionLogicPoint );
@@ -3060,6 +3058,11 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			break;
 		}
 
+		if ( !m_quoted && token == ";" && !m_exportNextUnit ) // empty statement, leaves nothing to pop
+		{
+			continue;
+		}
+
 		if ( m_exportNextUnit
 			 && token != "function"
 			 && token != "struct"
@@ -3191,6 +3194,12 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_breakTargets.tail() );
+
+			if ( !getToken(ex, ";") )
+			{
+				m_err = WR_ERR_unexpected_token;
+				return false;
+			}
 		}
 		else if ( !m_quoted && token == "continue" )
 		{
@@ -3201,6 +3210,12 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_continueTargets.tail() );
+
+			if ( !getToken(ex, ";") )
+			{
+				m_err = WR_ERR_unexpected_token;
+				return false;
+			}
 		}
 		else if ( !m_quoted && token == "goto" )
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 332bac3..822daa8 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5824,13 +5824,11 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 		return true;
 	}
 	
-	// make sure the last instruction is a break (jump) so the
-	// selection logic is skipped at the end of the last case/default
-	if ( !m_units[m_unitTop].bytecode.opcodes.size() 
-		 || (m_units[m_unitTop].bytecode.opcodes.size() && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_RelativeJump) )
-	{
-		addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
-	}
+	// skip the selection logic at the end of the last case/default. This
+	// is needed even when the last statement ends in a jump: an empty
+	// final case, or an inner loop or conditional that finishes, arrives
+	// here too
+	addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
 
 	// selection logic jumps HERE
 	setRelativeJumpTarget( m_units[m_unitTop].bytecode, selectionLogicPoint );
@@ -6099,6 +6097,11 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			break;
 		}
 
+		if ( !m_quoted && token == ";" && !m_exportNextUnit ) // empty statement, leaves nothing to pop
+		{
+			continue;
+		}
+
 		if ( m_exportNextUnit
 			 && token != "function"
 			 && token != "struct"
@@ -6230,6 +6233,12 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_breakTargets.tail() );
+
+			if ( !getToken(ex, ";") )
+			{
+				m_err = WR_ERR_unexpected_token;
+				return false;
+			}
 		}
 		else if ( !m_quoted && token == "continue" )
 		{
@@ -6240,6 +6249,12 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_continueTargets.tail() );
+
+			if ( !getToken(ex, ";") )
+			{
+				m_err = WR_ERR_unexpected_token;
+				return false;
+			}
 		}
 		else if ( !m_quoted && token == "goto" )
 		{
-- 
2.43.0


From 19ee68a4bcb4279f80eb57854a6b904ff18c6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:36 +0000
Subject: [PATCH 08/71] fix: string + and += work on container elements

Concatenation only looked at the operands themselves, so an element of an
array or hash holding a string was added as a number, and the result of
+= on such an element was lost.
---
 discrete_src/vm/operations.cpp             | 50 ++++++++++----
 discrete_src/vm/operations_compact.cpp     | 15 ++---
 discrete_src/vm/operations_non_compact.cpp | 10 +--
 discrete_src/vm/vm.h                       |  1 +
 src/wrench.cpp                             | 76 ++++++++++++++--------
 5 files changed, 98 insertions(+), 54 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index deb8ccb..3cb98cd 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -35,19 +35,23 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 	char* str = buf;
 	unsigned int len;
 
-	if ( IS_ARRAY(to->xtype) && to->va->m_type == SV_CHAR && !(to->va->m_flags & GCFlag_NoContext) )
+	// operands may be elements of a container, what matters is the value they hold
+	const WRValue lhs = to->deref();
+	const WRValue rhs = from->deref();
+
+	if ( IS_ARRAY(lhs.xtype) && lhs.va->m_type == SV_CHAR && !(lhs.va->m_flags & GCFlag_NoContext) )
 	{
-		if ( IS_ARRAY(from->xtype) && from->va->m_type == SV_CHAR )
+		if ( IS_ARRAY(rhs.xtype) && rhs.va->m_type == SV_CHAR )
 		{
-			str = from->va->m_SCdata;
-			len = from->va->m_size;
+			str = rhs.va->m_SCdata;
+			len = rhs.va->m_size;
 		}
 		else
 		{
-			from->asString( buf, c_bufSize, &len );
+			rhs.asString( buf, c_bufSize, &len );
 		}
 
-		WRGCObject* cat = to->va->m_creatorContext->getSVA(to->va->m_size + len, SV_CHAR, false);
+		WRGCObject* cat = lhs.va->m_creatorContext->getSVA(lhs.va->m_size + len, SV_CHAR, false);
 
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !cat )
@@ -57,17 +61,17 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 		}
 #endif
 
-		memcpy( cat->m_SCdata, to->va->m_SCdata, to->va->m_size );
-		memcpy( cat->m_SCdata + to->va->m_size, str, len );
+		memcpy( cat->m_SCdata, lhs.va->m_SCdata, lhs.va->m_size );
+		memcpy( cat->m_SCdata + lhs.va->m_size, str, len );
 
 		target->p2 = INIT_AS_ARRAY;
 		target->va = cat;
 	}
-	else if ( IS_ARRAY(from->xtype) && from->va->m_type == SV_CHAR && !(from->va->m_flags & GCFlag_NoContext) )
+	else if ( IS_ARRAY(rhs.xtype) && rhs.va->m_type == SV_CHAR && !(rhs.va->m_flags & GCFlag_NoContext) )
 	{
-		to->asString( buf, c_bufSize, &len );
+		lhs.asString( buf, c_bufSize, &len );
 
-		WRGCObject* cat = from->va->m_creatorContext->getSVA(from->va->m_size + len, SV_CHAR, false);
+		WRGCObject* cat = rhs.va->m_creatorContext->getSVA(rhs.va->m_size + len, SV_CHAR, false);
 
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !cat )
@@ -78,7 +82,7 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 #endif
 
 		memcpy( cat->m_SCdata, str, len );
-		memcpy( cat->m_SCdata + len, from->va->m_SCdata, from->va->m_size );
+		memcpy( cat->m_SCdata + len, rhs.va->m_SCdata, rhs.va->m_size );
 
 		target->p2 = INIT_AS_ARRAY;
 		target->va = cat;
@@ -91,6 +95,28 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 	return true;
 }
 
+//------------------------------------------------------------------------------
+bool wr_concatStringAssign( WRValue* to, WRValue* from )
+{
+	WRValue cat;
+	if ( !wr_concatStringCheck(to, from, &cat) )
+	{
+		return false;
+	}
+
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		wr_valueToEx( to, &cat );
+	}
+	else
+	{
+		*to = cat;
+	}
+
+	*from = cat;
+	return true;
+}
+
 //------------------------------------------------------------------------------
 void wr_growValueArray( WRGCObject* va, int newMinIndex )
 {
diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index da58fa9..1d1439a 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -59,18 +59,14 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
 	}
-	else if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
+	else if ( intCall == wr_addI )
 	{
-		*from = *to;
+		wr_concatStringAssign( to, from );
 	}
 }
 void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
-	{
-		*from = *to;
-	}
-	else
+	if ( intCall != wr_addI || !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = to->singleValue();
 		wr_FuncAssign[(V.type<<2)|from->type]( &V, from, intCall, floatCall );
@@ -80,13 +76,12 @@ void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, to) )
+	if ( intCall != wr_addI || !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = from->singleValue();
 		wr_FuncAssign[(to->type<<2)|V.type](to, &V, intCall, floatCall);
+		*from = *to;
 	}
-
-	*from = *to;
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index e68534c..0ef3a85 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -348,7 +348,7 @@ WRVoidFunc wr_DivideAssign[16] =
 
 void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = to->singleValue();
 	
@@ -361,7 +361,7 @@ void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 
 void wr_AddAssign_E_F( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = to->singleValue();
 
@@ -382,12 +382,12 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 	}
 	else
 	{
-		wr_concatStringCheck( to, from, to );
+		wr_concatStringAssign( to, from );
 	}
 }
 void wr_AddAssign_I_E( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = from->singleValue();
 		wr_AddAssign[(WR_INT<<2)|V.type](to, &V);
@@ -396,7 +396,7 @@ void wr_AddAssign_I_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = from->singleValue();
 		wr_AddAssign[(WR_FLOAT<<2)|V.type](to, &V);
diff --git a/discrete_src/vm/vm.h b/discrete_src/vm/vm.h
index e2828ba..797853a 100644
--- a/discrete_src/vm/vm.h
+++ b/discrete_src/vm/vm.h
@@ -143,6 +143,7 @@ uint32_t wr_hashStr_read8( const char* dat );
 WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t* pc, const unsigned char* tableIn );
 
 bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target );
+bool wr_concatStringAssign( WRValue* to, WRValue* from );
 void wr_valueToEx( const WRValue* ex, WRValue* value );
 
 #define WR_FLOATS_EQUAL(f1,f2) (fabsf((f1) - (f2)) <= (fabsf((f1)*.0000005f)));
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 822daa8..cc75ccb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1246,6 +1246,7 @@ uint32_t wr_hashStr_read8( const char* dat );
 WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t* pc, const unsigned char* tableIn );
 
 bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target );
+bool wr_concatStringAssign( WRValue* to, WRValue* from );
 void wr_valueToEx( const WRValue* ex, WRValue* value );
 
 #define WR_FLOATS_EQUAL(f1,f2) (fabsf((f1) - (f2)) <= (fabsf((f1)*.0000005f)));
@@ -18015,19 +18016,23 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 	char* str = buf;
 	unsigned int len;
 
-	if ( IS_ARRAY(to->xtype) && to->va->m_type == SV_CHAR && !(to->va->m_flags & GCFlag_NoContext) )
+	// operands may be elements of a container, what matters is the value they hold
+	const WRValue lhs = to->deref();
+	const WRValue rhs = from->deref();
+
+	if ( IS_ARRAY(lhs.xtype) && lhs.va->m_type == SV_CHAR && !(lhs.va->m_flags & GCFlag_NoContext) )
 	{
-		if ( IS_ARRAY(from->xtype) && from->va->m_type == SV_CHAR )
+		if ( IS_ARRAY(rhs.xtype) && rhs.va->m_type == SV_CHAR )
 		{
-			str = from->va->m_SCdata;
-			len = from->va->m_size;
+			str = rhs.va->m_SCdata;
+			len = rhs.va->m_size;
 		}
 		else
 		{
-			from->asString( buf, c_bufSize, &len );
+			rhs.asString( buf, c_bufSize, &len );
 		}
 
-		WRGCObject* cat = to->va->m_creatorContext->getSVA(to->va->m_size + len, SV_CHAR, false);
+		WRGCObject* cat = lhs.va->m_creatorContext->getSVA(lhs.va->m_size + len, SV_CHAR, false);
 
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !cat )
@@ -18037,17 +18042,17 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 		}
 #endif
 
-		memcpy( cat->m_SCdata, to->va->m_SCdata, to->va->m_size );
-		memcpy( cat->m_SCdata + to->va->m_size, str, len );
+		memcpy( cat->m_SCdata, lhs.va->m_SCdata, lhs.va->m_size );
+		memcpy( cat->m_SCdata + lhs.va->m_size, str, len );
 
 		target->p2 = INIT_AS_ARRAY;
 		target->va = cat;
 	}
-	else if ( IS_ARRAY(from->xtype) && from->va->m_type == SV_CHAR && !(from->va->m_flags & GCFlag_NoContext) )
+	else if ( IS_ARRAY(rhs.xtype) && rhs.va->m_type == SV_CHAR && !(rhs.va->m_flags & GCFlag_NoContext) )
 	{
-		to->asString( buf, c_bufSize, &len );
+		lhs.asString( buf, c_bufSize, &len );
 
-		WRGCObject* cat = from->va->m_creatorContext->getSVA(from->va->m_size + len, SV_CHAR, false);
+		WRGCObject* cat = rhs.va->m_creatorContext->getSVA(rhs.va->m_size + len, SV_CHAR, false);
 
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !cat )
@@ -18058,7 +18063,7 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 #endif
 
 		memcpy( cat->m_SCdata, str, len );
-		memcpy( cat->m_SCdata + len, from->va->m_SCdata, from->va->m_size );
+		memcpy( cat->m_SCdata + len, rhs.va->m_SCdata, rhs.va->m_size );
 
 		target->p2 = INIT_AS_ARRAY;
 		target->va = cat;
@@ -18071,6 +18076,28 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 	return true;
 }
 
+//------------------------------------------------------------------------------
+bool wr_concatStringAssign( WRValue* to, WRValue* from )
+{
+	WRValue cat;
+	if ( !wr_concatStringCheck(to, from, &cat) )
+	{
+		return false;
+	}
+
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		wr_valueToEx( to, &cat );
+	}
+	else
+	{
+		*to = cat;
+	}
+
+	*from = cat;
+	return true;
+}
+
 //------------------------------------------------------------------------------
 void wr_growValueArray( WRGCObject* va, int newMinIndex )
 {
@@ -18503,18 +18530,14 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
 	}
-	else if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
+	else if ( intCall == wr_addI )
 	{
-		*from = *to;
+		wr_concatStringAssign( to, from );
 	}
 }
 void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( intCall == wr_addI && wr_concatStringCheck(to, from, to) )
-	{
-		*from = *to;
-	}
-	else
+	if ( intCall != wr_addI || !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = to->singleValue();
 		wr_FuncAssign[(V.type<<2)|from->type]( &V, from, intCall, floatCall );
@@ -18524,13 +18547,12 @@ void FuncAssign_E_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	if ( intCall != wr_addI || !wr_concatStringCheck(to, from, to) )
+	if ( intCall != wr_addI || !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = from->singleValue();
 		wr_FuncAssign[(to->type<<2)|V.type](to, &V, intCall, floatCall);
+		*from = *to;
 	}
-
-	*from = *to;
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
@@ -19055,7 +19077,7 @@ WRVoidFunc wr_DivideAssign[16] =
 
 void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = to->singleValue();
 	
@@ -19068,7 +19090,7 @@ void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 
 void wr_AddAssign_E_F( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = to->singleValue();
 
@@ -19089,12 +19111,12 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 	}
 	else
 	{
-		wr_concatStringCheck( to, from, to );
+		wr_concatStringAssign( to, from );
 	}
 }
 void wr_AddAssign_I_E( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = from->singleValue();
 		wr_AddAssign[(WR_INT<<2)|V.type](to, &V);
@@ -19103,7 +19125,7 @@ void wr_AddAssign_I_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 {
-	if ( !wr_concatStringCheck( to, from, to) )
+	if ( !wr_concatStringAssign(to, from) )
 	{
 		WRValue& V = from->singleValue();
 		wr_AddAssign[(WR_FLOAT<<2)|V.type](to, &V);
-- 
2.43.0


From 8a3f90c2ec8737bca9b03df2d51bfe8f4862f948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:36 +0000
Subject: [PATCH 09/71] fix: first local starts at zero, text of extreme
 numbers and value text buffers

The loop clearing a new frame cleared the slot after each local, leaving the
first one (and the first member of a struct) holding stale stack data.
Converting INT_MIN or a float outside the int range to text produced
garbage, asString/technicalAsString wrote one byte past the buffer they
were given and asMallocString reported length 0 for strings.
---
 discrete_src/lib/std.cpp       | 105 +++++++++-----
 discrete_src/utils/utils.cpp   | 131 +++++++++---------
 discrete_src/utils/utils.h     |   2 +
 discrete_src/vm/operations.cpp |   7 +-
 discrete_src/vm/vm.cpp         |   2 +-
 src/wrench.cpp                 | 245 +++++++++++++++++++--------------
 6 files changed, 281 insertions(+), 211 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 7c63678..0fe214e 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -93,21 +93,20 @@ int wr_itoa( int i, char* string, size_t len )
 {
 	char buf[12];
 	size_t pos = 0;
-	int val;
+	uint32_t val = (uint32_t)i;
 	if ( i < 0 )
 	{
-		string[pos++] = '-';
-		val = -i;
-	}
-	else
-	{
-		val = i;
+		if ( pos < len )
+		{
+			string[pos++] = '-';
+		}
+		val = 0 - val; // well defined for the most negative int too
 	}
 
 	int digit = 0;
 	do
 	{
-		buf[digit++] = (val % 10) + '0';
+		buf[digit++] = (char)((val % 10) + '0');
 	} while( val /= 10 );
 
 	--digit;
@@ -117,60 +116,94 @@ int wr_itoa( int i, char* string, size_t len )
 		string[pos++] = buf[digit];
 	}
 	string[pos] = 0;
-	return pos;
+	return (int)pos;
 }
 
 //------------------------------------------------------------------------------
 int wr_ftoa( float f, char* string, size_t len )
 {
+	char buf[56];
 	size_t pos = 0;
 
 	// sign stuff
 	if (f < 0)
 	{
 		f = -f;
-		string[pos++] = '-';
+		buf[pos++] = '-';
 	}
 
-	if ( pos > len )
+	if ( f != f )
 	{
-		string[0] = 0;
-		return 0;
+		buf[pos++] = 'n';
+		buf[pos++] = 'a';
+		buf[pos++] = 'n';
 	}
-
-	f += 5.f / (float)10e6; // round value to 5 places
-
-	int i = (int)f;
-
-	if ( i )
+	else if ( f > 3.402823466e38f )
 	{
-		f -= i;
-		pos += wr_itoa( i, string + pos, len - pos );
+		buf[pos++] = 'i';
+		buf[pos++] = 'n';
+		buf[pos++] = 'f';
 	}
-	else
+	else if ( f >= 2147483647.f ) // will not fit an int, but no fraction is left either
 	{
-		string[pos++] = '0';
+		double d = f;
+		char digits[44];
+		int digit = 0;
+		do
+		{
+			double next = floor( d / 10.0 );
+			int c = (int)(d - next * 10.0);
+			digits[digit++] = (char)('0' + (c < 0 ? 0 : c > 9 ? 9 : c));
+			d = next;
+		} while( d >= 1.0 && digit < 44 );
+
+		while( digit )
+		{
+			buf[pos++] = digits[--digit];
+		}
 	}
-
-	string[pos++] = '.';
-
-	for( int p=0; pos < len && p<5; ++p ) // convert non-integer to 5 digits of precision
+	else
 	{
-		f *= 10.0;
-		char c = (char)f;
-		string[pos++] = '0' + c;
-		f -= c;
+		f += 5.f / (float)10e6; // round value to 5 places
+
+		int i = (int)f;
+
+		if ( i )
+		{
+			f -= i;
+			pos += wr_itoa( i, buf + pos, 12 );
+		}
+		else
+		{
+			buf[pos++] = '0';
+		}
+
+		buf[pos++] = '.';
+
+		for( int p=0; p<5; ++p ) // convert non-integer to 5 digits of precision
+		{
+			f *= 10.0;
+			char c = (char)f;
+			buf[pos++] = '0' + c;
+			f -= c;
+		}
+
+		for( --pos; pos > 0 && buf[pos] == '0'; --pos ); // knock off trailing zeros and decimal if appropriate
+
+		if ( buf[pos] != '.' )
+		{
+			++pos;
+		}
 	}
 
-	for( --pos; pos > 0 && string[pos] == '0' && string[pos] != '.' ; --pos ); // knock off trailing zeros and decimal if appropriate
-
-	if ( string[pos] != '.' )
+	if ( pos > len )
 	{
-		++pos;
+		pos = len;
 	}
 
+	memcpy( string, buf, pos );
 	string[pos] = 0;
-	return pos;
+	return (int)pos;
 }
 
 //------------------------------------------------------------------------------
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index a1c1a99..a179128 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -789,106 +789,105 @@ int WRValue::arraySize() const
 }
 
 //------------------------------------------------------------------------------
-int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
+// append as much of the text as fits, leaving room for the terminator
+static size_t wr_appendTo( char* string, size_t pos, size_t maxLen, const char* text, size_t len )
 {
-	if ( pos >= maxLen )
+	for( size_t i=0; i<len && (pos + 1) < maxLen; ++i )
 	{
-		return maxLen - 1;
+		string[pos++] = text[i];
 	}
+
+	return pos;
+}
+
+//------------------------------------------------------------------------------
+static size_t wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
+{
+	if ( (pos + 1) >= maxLen )
+	{
+		return pos;
+	}
+
+	char buf[32];
 	
 	if ( value->type == WR_REF )
 	{
-		strncpy( (string + pos), "ref: ", maxLen - pos );
-		pos += 5;
+		pos = wr_appendTo( string, pos, maxLen, "ref: ", 5 );
 		return wr_technicalAsStringEx( string, value->r, pos, maxLen, valuesInHex );
 	}
 	else if ( value->type == WR_FLOAT )
 	{
-		return pos + snprintf( string + pos, maxLen - pos, "%g", value->f );
+		return wr_appendTo( string, pos, maxLen, buf, snprintf(buf, sizeof(buf), "%g", value->f) );
 	}
 	else if ( value->type == WR_INT )
 	{
-		return pos + (valuesInHex ? snprintf(string + pos, maxLen - pos, "0x%08lX", (unsigned long int)value->ui )
-			: snprintf(string + pos, maxLen - pos, "%ld", (long int)value->i));
-				
+		return wr_appendTo( string, pos, maxLen, buf, valuesInHex ? snprintf(buf, sizeof(buf), "0x%08lX", (unsigned long int)value->ui )
+							: snprintf(buf, sizeof(buf), "%ld", (long int)value->i) );
 	}
 	else if ( value->xtype == WR_EX_ARRAY )
 	{
 		if ( value->va->m_type == SV_VALUE )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "[ " );
+			pos = wr_appendTo( string, pos, maxLen, "[ ", 2 );
 
-			bool first = true;
-			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
+			for( uint32_t i=0; (pos + 1)<maxLen && i<value->va->m_size; ++i )
 			{
-				if ( !first )
+				if ( i )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_appendTo( string, pos, maxLen, ", ", 2 );
 				}
-				first = false;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + i, pos, maxLen, valuesInHex );
 			}
 
-			if ( pos >= maxLen )
-			{
-				return maxLen;
-			}
-
-			pos += snprintf( string + pos, maxLen - pos, " ]" );
+			pos = wr_appendTo( string, pos, maxLen, " ]", 2 );
 		}
 		else if ( value->va->m_type == SV_CHAR )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
-
-			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
-			{
-				string[pos++] = value->va->m_SCdata[i];
-			}
-
-			if ( pos >= maxLen )
-			{
-				return maxLen;
-			}
-
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
+			pos = wr_appendTo( string, pos, maxLen, "\"", 1 );
+			pos = wr_appendTo( string, pos, maxLen, value->va->m_SCdata, value->va->m_size );
+			pos = wr_appendTo( string, pos, maxLen, "\"", 1 );
 		}
 		else
 		{
-			pos += snprintf( string + pos, maxLen - pos, "<raw array>" );
+			pos = wr_appendTo( string, pos, maxLen, "<raw array>", 11 );
 		}
 	}
 	else if ( value->xtype == WR_EX_HASH_TABLE )
 	{
-		pos += snprintf( string + pos, maxLen - pos, "{ " );
+		pos = wr_appendTo( string, pos, maxLen, "{ ", 2 );
 		
 		bool first = true;
-		for( int32_t element=0; element<value->va->m_mod; ++element )
+		for( int32_t element=0; (pos + 1)<maxLen && element<value->va->m_mod; ++element )
 		{
 			if ( value->va->m_hashTable[element] != WRENCH_NULL_HASH )
 			{
 				if ( !first )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_appendTo( string, pos, maxLen, ", ", 2 );
 				}
 				first = false;
 				int32_t index = element << 1;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index + 1, pos, maxLen, valuesInHex );
-				pos += snprintf( string + pos, maxLen - pos, ":" );
+				pos = wr_appendTo( string, pos, maxLen, ":", 1 );
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index, pos, maxLen, valuesInHex );
 			}
 		}
 
-		pos += snprintf( string + pos, maxLen - pos, " }" );
+		pos = wr_appendTo( string, pos, maxLen, " }", 2 );
 	}
 
-	return (pos >= maxLen) ? maxLen : pos;
+	return pos;
 }
 
 //------------------------------------------------------------------------------
 char* WRValue::technicalAsString( char* string, unsigned int maxLen, bool valuesInHex, unsigned int* strLen ) const
 {
-	unsigned int len = wr_technicalAsStringEx( string, this, 0, maxLen, valuesInHex );
-	string[ len ] = 0;
+	unsigned int len = 0;
+	if ( maxLen )
+	{
+		len = (unsigned int)wr_technicalAsStringEx( string, this, 0, maxLen, valuesInHex );
+		string[ len ] = 0;
+	}
 	if ( strLen )
 	{
 		*strLen = len;
@@ -899,40 +898,41 @@ char* WRValue::technicalAsString( char* string, unsigned int maxLen, bool values
 //------------------------------------------------------------------------------
 char* WRValue::asMallocString( unsigned int* strLen ) const
 {
-	if ( type == WR_REF )
-	{
-		return r->asMallocString( strLen );
-	}
+	WRValue const& V = deref();
 
 	unsigned int len = 0;
 	char* ret = 0;
 
-	if ( type == WR_FLOAT )
+	if ( V.xtype == WR_EX_ARRAY && V.va->m_type == SV_CHAR )
 	{
-		ret = (char*)g_malloc( 12 );
-		len = wr_ftoa( f, ret, 11 );
+		len = V.va->m_size;
+		ret = (char*)g_malloc( len + 1 );
 	}
-	else if ( type == WR_INT )
+	else
 	{
-		ret = (char*)g_malloc( 13 );
-		len = wr_itoa( i, ret, 12 );
+		ret = (char*)g_malloc( c_maxNumberText );
 	}
-	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
-	{
-		ret = (char*)g_malloc( va->m_size + 1 );
+
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-		if ( !ret )
+	if ( !ret )
+	{
+		g_mallocFailed = true;
+		if ( strLen )
 		{
-			g_mallocFailed = true;
-			return 0;
+			*strLen = 0;
 		}
+		return 0;
+	}
 #endif
-		memcpy( ret, va->m_Cdata, va->m_size );
-		ret[ va->m_size ] = 0;
+
+	if ( V.xtype == WR_EX_ARRAY && V.va->m_type == SV_CHAR )
+	{
+		memcpy( ret, V.va->m_Cdata, len );
+		ret[ len ] = 0;
 	}
 	else
 	{
-		return singleValue().asMallocString( strLen );
+		V.asString( ret, c_maxNumberText, &len );
 	}
 
 	if ( strLen )
@@ -952,18 +952,19 @@ char* WRValue::asString( char* string, unsigned int maxLen, unsigned int* strLen
 	}
 
 	unsigned int len = 0;
+	const unsigned int room = maxLen ? (maxLen - 1) : 0xFFFFFFFF; // the terminator is part of the buffer
 	
 	if ( type == WR_FLOAT )
 	{
-		len = wr_ftoa( f, string, maxLen );
+		len = wr_ftoa( f, string, room );
 	}
 	else if ( type == WR_INT )
 	{
-		len = wr_itoa( i, string, maxLen );
+		len = wr_itoa( i, string, room );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
 	{
-		len = maxLen ? (maxLen > va->m_size ? va->m_size : maxLen) : va->m_size;
+		len = room > va->m_size ? va->m_size : room;
 		memcpy( string, va->m_Cdata, len );
 		string[len] = 0;
 	}
diff --git a/discrete_src/utils/utils.h b/discrete_src/utils/utils.h
index bf51e85..e95a67a 100644
--- a/discrete_src/utils/utils.h
+++ b/discrete_src/utils/utils.h
@@ -25,6 +25,8 @@ SOFTWARE.
 #define _UTILS_H
 /*------------------------------------------------------------------------------*/
 
+// len is the number of characters allowed, the buffer must hold one more for the terminator
+const unsigned int c_maxNumberText = 56; // room for the text of any int or float
 int wr_itoa( int i, char* string, size_t len );
 int wr_ftoa( float f, char* string, size_t len );
 
diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index 3cb98cd..ce56a71 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -30,8 +30,7 @@ inline int32_t wr_ineg_wrap( const int32_t a ) { return (int32_t)(0u - (uint32_t
 //------------------------------------------------------------------------------
 bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 {
-	const int c_bufSize = 20;
-	char buf[c_bufSize + 1];
+	char buf[c_maxNumberText];
 	char* str = buf;
 	unsigned int len;
 
@@ -48,7 +47,7 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 		}
 		else
 		{
-			rhs.asString( buf, c_bufSize, &len );
+			rhs.asString( buf, sizeof(buf), &len );
 		}
 
 		WRGCObject* cat = lhs.va->m_creatorContext->getSVA(lhs.va->m_size + len, SV_CHAR, false);
@@ -69,7 +68,7 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 	}
 	else if ( IS_ARRAY(rhs.xtype) && rhs.va->m_type == SV_CHAR && !(rhs.va->m_flags & GCFlag_NoContext) )
 	{
-		lhs.asString( buf, c_bufSize, &len );
+		lhs.asString( buf, sizeof(buf), &len );
 
 		WRGCObject* cat = rhs.va->m_creatorContext->getSVA(rhs.va->m_size + len, SV_CHAR, false);
 
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 3c79120..0ec9cd4 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1076,8 +1076,8 @@ callFunction:
 				// initialize locals to int zero
 				for( int l=0; l<function->frameSpaceNeeded; ++l )
 				{
-					(stackTop++)->p2 = INIT_AS_INT;
 					stackTop->p = 0;
+					(stackTop++)->p2 = INIT_AS_INT;
 				}
 			
 				// temp value contains return vector/frame base
diff --git a/src/wrench.cpp b/src/wrench.cpp
index cc75ccb..aee6b08 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -31,6 +31,8 @@ SOFTWARE.
 #define _UTILS_H
 /*------------------------------------------------------------------------------*/
 
+// len is the number of characters allowed, the buffer must hold one more for the terminator
+const unsigned int c_maxNumberText = 56; // room for the text of any int or float
 int wr_itoa( int i, char* string, size_t len );
 int wr_ftoa( float f, char* string, size_t len );
 
@@ -11290,8 +11292,8 @@ callFunction:
 				// initialize locals to int zero
 				for( int l=0; l<function->frameSpaceNeeded; ++l )
 				{
-					(stackTop++)->p2 = INIT_AS_INT;
 					stackTop->p = 0;
+					(stackTop++)->p2 = INIT_AS_INT;
 				}
 			
 				// temp value contains return vector/frame base
@@ -14314,106 +14316,105 @@ int WRValue::arraySize() const
 }
 
 //------------------------------------------------------------------------------
-int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
+// append as much of the text as fits, leaving room for the terminator
+static size_t wr_appendTo( char* string, size_t pos, size_t maxLen, const char* text, size_t len )
 {
-	if ( pos >= maxLen )
+	for( size_t i=0; i<len && (pos + 1) < maxLen; ++i )
 	{
-		return maxLen - 1;
+		string[pos++] = text[i];
 	}
+
+	return pos;
+}
+
+//------------------------------------------------------------------------------
+static size_t wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
+{
+	if ( (pos + 1) >= maxLen )
+	{
+		return pos;
+	}
+
+	char buf[32];
 	
 	if ( value->type == WR_REF )
 	{
-		strncpy( (string + pos), "ref: ", maxLen - pos );
-		pos += 5;
+		pos = wr_appendTo( string, pos, maxLen, "ref: ", 5 );
 		return wr_technicalAsStringEx( string, value->r, pos, maxLen, valuesInHex );
 	}
 	else if ( value->type == WR_FLOAT )
 	{
-		return pos + snprintf( string + pos, maxLen - pos, "%g", value->f );
+		return wr_appendTo( string, pos, maxLen, buf, snprintf(buf, sizeof(buf), "%g", value->f) );
 	}
 	else if ( value->type == WR_INT )
 	{
-		return pos + (valuesInHex ? snprintf(string + pos, maxLen - pos, "0x%08lX", (unsigned long int)value->ui )
-			: snprintf(string + pos, maxLen - pos, "%ld", (long int)value->i));
-				
+		return wr_appendTo( string, pos, maxLen, buf, valuesInHex ? snprintf(buf, sizeof(buf), "0x%08lX", (unsigned long int)value->ui )
+							: snprintf(buf, sizeof(buf), "%ld", (long int)value->i) );
 	}
 	else if ( value->xtype == WR_EX_ARRAY )
 	{
 		if ( value->va->m_type == SV_VALUE )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "[ " );
+			pos = wr_appendTo( string, pos, maxLen, "[ ", 2 );
 
-			bool first = true;
-			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
+			for( uint32_t i=0; (pos + 1)<maxLen && i<value->va->m_size; ++i )
 			{
-				if ( !first )
+				if ( i )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_appendTo( string, pos, maxLen, ", ", 2 );
 				}
-				first = false;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + i, pos, maxLen, valuesInHex );
 			}
 
-			if ( pos >= maxLen )
-			{
-				return maxLen;
-			}
-
-			pos += snprintf( string + pos, maxLen - pos, " ]" );
+			pos = wr_appendTo( string, pos, maxLen, " ]", 2 );
 		}
 		else if ( value->va->m_type == SV_CHAR )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
-
-			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
-			{
-				string[pos++] = value->va->m_SCdata[i];
-			}
-
-			if ( pos >= maxLen )
-			{
-				return maxLen;
-			}
-
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
+			pos = wr_appendTo( string, pos, maxLen, "\"", 1 );
+			pos = wr_appendTo( string, pos, maxLen, value->va->m_SCdata, value->va->m_size );
+			pos = wr_appendTo( string, pos, maxLen, "\"", 1 );
 		}
 		else
 		{
-			pos += snprintf( string + pos, maxLen - pos, "<raw array>" );
+			pos = wr_appendTo( string, pos, maxLen, "<raw array>", 11 );
 		}
 	}
 	else if ( value->xtype == WR_EX_HASH_TABLE )
 	{
-		pos += snprintf( string + pos, maxLen - pos, "{ " );
+		pos = wr_appendTo( string, pos, maxLen, "{ ", 2 );
 		
 		bool first = true;
-		for( int32_t element=0; element<value->va->m_mod; ++element )
+		for( int32_t element=0; (pos + 1)<maxLen && element<value->va->m_mod; ++element )
 		{
 			if ( value->va->m_hashTable[element] != WRENCH_NULL_HASH )
 			{
 				if ( !first )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_appendTo( string, pos, maxLen, ", ", 2 );
 				}
 				first = false;
 				int32_t index = element << 1;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index + 1, pos, maxLen, valuesInHex );
-				pos += snprintf( string + pos, maxLen - pos, ":" );
+				pos = wr_appendTo( string, pos, maxLen, ":", 1 );
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index, pos, maxLen, valuesInHex );
 			}
 		}
 
-		pos += snprintf( string + pos, maxLen - pos, " }" );
+		pos = wr_appendTo( string, pos, maxLen, " }", 2 );
 	}
 
-	return (pos >= maxLen) ? maxLen : pos;
+	return pos;
 }
 
 //------------------------------------------------------------------------------
 char* WRValue::technicalAsString( char* string, unsigned int maxLen, bool valuesInHex, unsigned int* strLen ) const
 {
-	unsigned int len = wr_technicalAsStringEx( string, this, 0, maxLen, valuesInHex );
-	string[ len ] = 0;
+	unsigned int len = 0;
+	if ( maxLen )
+	{
+		len = (unsigned int)wr_technicalAsStringEx( string, this, 0, maxLen, valuesInHex );
+		string[ len ] = 0;
+	}
 	if ( strLen )
 	{
 		*strLen = len;
@@ -14424,40 +14425,41 @@ char* WRValue::technicalAsString( char* string, unsigned int maxLen, bool values
 //------------------------------------------------------------------------------
 char* WRValue::asMallocString( unsigned int* strLen ) const
 {
-	if ( type == WR_REF )
-	{
-		return r->asMallocString( strLen );
-	}
+	WRValue const& V = deref();
 
 	unsigned int len = 0;
 	char* ret = 0;
 
-	if ( type == WR_FLOAT )
+	if ( V.xtype == WR_EX_ARRAY && V.va->m_type == SV_CHAR )
 	{
-		ret = (char*)g_malloc( 12 );
-		len = wr_ftoa( f, ret, 11 );
+		len = V.va->m_size;
+		ret = (char*)g_malloc( len + 1 );
 	}
-	else if ( type == WR_INT )
+	else
 	{
-		ret = (char*)g_malloc( 13 );
-		len = wr_itoa( i, ret, 12 );
+		ret = (char*)g_malloc( c_maxNumberText );
 	}
-	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
-	{
-		ret = (char*)g_malloc( va->m_size + 1 );
+
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-		if ( !ret )
+	if ( !ret )
+	{
+		g_mallocFailed = true;
+		if ( strLen )
 		{
-			g_mallocFailed = true;
-			return 0;
+			*strLen = 0;
 		}
+		return 0;
+	}
 #endif
-		memcpy( ret, va->m_Cdata, va->m_size );
-		ret[ va->m_size ] = 0;
+
+	if ( V.xtype == WR_EX_ARRAY && V.va->m_type == SV_CHAR )
+	{
+		memcpy( ret, V.va->m_Cdata, len );
+		ret[ len ] = 0;
 	}
 	else
 	{
-		return singleValue().asMallocString( strLen );
+		V.asString( ret, c_maxNumberText, &len );
 	}
 
 	if ( strLen )
@@ -14477,18 +14479,19 @@ char* WRValue::asString( char* string, unsigned int maxLen, unsigned int* strLen
 	}
 
 	unsigned int len = 0;
+	const unsigned int room = maxLen ? (maxLen - 1) : 0xFFFFFFFF; // the terminator is part of the buffer
 	
 	if ( type == WR_FLOAT )
 	{
-		len = wr_ftoa( f, string, maxLen );
+		len = wr_ftoa( f, string, room );
 	}
 	else if ( type == WR_INT )
 	{
-		len = wr_itoa( i, string, maxLen );
+		len = wr_itoa( i, string, room );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
 	{
-		len = maxLen ? (maxLen > va->m_size ? va->m_size : maxLen) : va->m_size;
+		len = room > va->m_size ? va->m_size : room;
 		memcpy( string, va->m_Cdata, len );
 		string[len] = 0;
 	}
@@ -18011,8 +18014,7 @@ inline int32_t wr_ineg_wrap( const int32_t a ) { return (int32_t)(0u - (uint32_t
 //------------------------------------------------------------------------------
 bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 {
-	const int c_bufSize = 20;
-	char buf[c_bufSize + 1];
+	char buf[c_maxNumberText];
 	char* str = buf;
 	unsigned int len;
 
@@ -18029,7 +18031,7 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 		}
 		else
 		{
-			rhs.asString( buf, c_bufSize, &len );
+			rhs.asString( buf, sizeof(buf), &len );
 		}
 
 		WRGCObject* cat = lhs.va->m_creatorContext->getSVA(lhs.va->m_size + len, SV_CHAR, false);
@@ -18050,7 +18052,7 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 	}
 	else if ( IS_ARRAY(rhs.xtype) && rhs.va->m_type == SV_CHAR && !(rhs.va->m_flags & GCFlag_NoContext) )
 	{
-		lhs.asString( buf, c_bufSize, &len );
+		lhs.asString( buf, sizeof(buf), &len );
 
 		WRGCObject* cat = rhs.va->m_creatorContext->getSVA(rhs.va->m_size + len, SV_CHAR, false);
 
@@ -20017,21 +20019,20 @@ int wr_itoa( int i, char* string, size_t len )
 {
 	char buf[12];
 	size_t pos = 0;
-	int val;
+	uint32_t val = (uint32_t)i;
 	if ( i < 0 )
 	{
-		string[pos++] = '-';
-		val = -i;
-	}
-	else
-	{
-		val = i;
+		if ( pos < len )
+		{
+			string[pos++] = '-';
+		}
+		val = 0 - val; // well defined for the most negative int too
 	}
 
 	int digit = 0;
 	do
 	{
-		buf[digit++] = (val % 10) + '0';
+		buf[digit++] = (char)((val % 10) + '0');
 	} while( val /= 10 );
 
 	--digit;
@@ -20041,60 +20042,94 @@ int wr_itoa( int i, char* string, size_t len )
 		string[pos++] = buf[digit];
 	}
 	string[pos] = 0;
-	return pos;
+	return (int)pos;
 }
 
 //------------------------------------------------------------------------------
 int wr_ftoa( float f, char* string, size_t len )
 {
+	char buf[56];
 	size_t pos = 0;
 
 	// sign stuff
 	if (f < 0)
 	{
 		f = -f;
-		string[pos++] = '-';
+		buf[pos++] = '-';
 	}
 
-	if ( pos > len )
+	if ( f != f )
 	{
-		string[0] = 0;
-		return 0;
+		buf[pos++] = 'n';
+		buf[pos++] = 'a';
+		buf[pos++] = 'n';
 	}
-
-	f += 5.f / (float)10e6; // round value to 5 places
-
-	int i = (int)f;
-
-	if ( i )
+	else if ( f > 3.402823466e38f )
 	{
-		f -= i;
-		pos += wr_itoa( i, string + pos, len - pos );
+		buf[pos++] = 'i';
+		buf[pos++] = 'n';
+		buf[pos++] = 'f';
 	}
-	else
+	else if ( f >= 2147483647.f ) // will not fit an int, but no fraction is left either
 	{
-		string[pos++] = '0';
+		double d = f;
+		char digits[44];
+		int digit = 0;
+		do
+		{
+			double next = floor( d / 10.0 );
+			int c = (int)(d - next * 10.0);
+			digits[digit++] = (char)('0' + (c < 0 ? 0 : c > 9 ? 9 : c));
+			d = next;
+		} while( d >= 1.0 && digit < 44 );
+
+		while( digit )
+		{
+			buf[pos++] = digits[--digit];
+		}
 	}
+	else
+	{
+		f += 5.f / (float)10e6; // round value to 5 places
 
-	string[pos++] = '.';
+		int i = (int)f;
 
-	for( int p=0; pos < len && p<5; ++p ) // convert non-integer to 5 digits of precision
-	{
-		f *= 10.0;
-		char c = (char)f;
-		string[pos++] = '0' + c;
-		f -= c;
-	}
+		if ( i )
+		{
+			f -= i;
+			pos += wr_itoa( i, buf + pos, 12 );
+		}
+		else
+		{
+			buf[pos++] = '0';
+		}
 
-	for( --pos; pos > 0 && string[pos] == '0' && string[pos] != '.' ; --pos ); // knock off trailing zeros and decimal if appropriate
+		buf[pos++] = '.';
 
-	if ( string[pos] != '.' )
+		for( int p=0; p<5; ++p ) // convert non-integer to 5 digits of precision
+		{
+			f *= 10.0;
+			char c = (char)f;
+			buf[pos++] = '0' + c;
+			f -= c;
+		}
+
+		for( --pos; pos > 0 && buf[pos] == '0'; --pos ); // knock off trailing zeros and decimal if appropriate
+
+		if ( buf[pos] != '.' )
+		{
+			++pos;
+		}
+	}
+
+	if ( pos > len )
 	{
-		++pos;
+		pos = len;
 	}
 
+	memcpy( string, buf, pos );
 	string[pos] = 0;
-	return pos;
+	return (int)pos;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 4156d98f9defbeaba38bad9656ddee0ec24b4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:19 +0000
Subject: [PATCH 10/71] fix: operands three deep on the stack are combined in
 the right order

---
 discrete_src/cc/cc.cpp | 36 ++++++++----------------------------
 src/wrench.cpp         | 36 ++++++++----------------------------
 2 files changed, 16 insertions(+), 56 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 27452e0..83a1a46 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1222,15 +1222,9 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				// first and second are both loaded but neither
 				// is in the correct position
 
-				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-				unsigned char pos = expression.context[first].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-				pos = expression.context[second].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-
-				expression.swapWithTop( expression.context[second].stackPosition, false );
-				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapWithTop( expression.context[second].stackPosition );
+				expression.swapWithTop( 1 );
+				expression.swapWithTop( expression.context[first].stackPosition );
 			}
 
 			appendBytecode( expression.bytecode, expression.context[o].bytecode ); // apply operator
@@ -1317,31 +1311,17 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				}
 				else
 				{
-					// can still do it in one opcode
-					
-					WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-					unsigned char pos = expression.context[first].stackPosition + 1;
-					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					pos = 2;
-					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					
-					expression.swapWithTop( 1, false );
-					expression.swapWithTop( expression.context[first].stackPosition, false );
+					expression.swapWithTop( 1 );
+					expression.swapWithTop( expression.context[first].stackPosition );
 				}
 			}
 			else
 			{
 				// first and second are both loaded but neither is in the correct position
 
-				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-				unsigned char pos = expression.context[first].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-				pos = expression.context[second].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-
-				expression.swapWithTop( expression.context[second].stackPosition, false );
-				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapWithTop( expression.context[second].stackPosition );
+				expression.swapWithTop( 1 );
+				expression.swapWithTop( expression.context[first].stackPosition );
 			}
 
 			if ( useAlt )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index aee6b08..0aa61d8 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4264,15 +4264,9 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				// first and second are both loaded but neither
 				// is in the correct position
 
-				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-				unsigned char pos = expression.context[first].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-				pos = expression.context[second].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-
-				expression.swapWithTop( expression.context[second].stackPosition, false );
-				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapWithTop( expression.context[second].stackPosition );
+				expression.swapWithTop( 1 );
+				expression.swapWithTop( expression.context[first].stackPosition );
 			}
 
 			appendBytecode( expression.bytecode, expression.context[o].bytecode ); // apply operator
@@ -4359,31 +4353,17 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				}
 				else
 				{
-					// can still do it in one opcode
-					
-					WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-					unsigned char pos = expression.context[first].stackPosition + 1;
-					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					pos = 2;
-					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					
-					expression.swapWithTop( 1, false );
-					expression.swapWithTop( expression.context[first].stackPosition, false );
+					expression.swapWithTop( 1 );
+					expression.swapWithTop( expression.context[first].stackPosition );
 				}
 			}
 			else
 			{
 				// first and second are both loaded but neither is in the correct position
 
-				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
-				unsigned char pos = expression.context[first].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-				pos = expression.context[second].stackPosition + 1;
-				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-
-				expression.swapWithTop( expression.context[second].stackPosition, false );
-				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapWithTop( expression.context[second].stackPosition );
+				expression.swapWithTop( 1 );
+				expression.swapWithTop( expression.context[first].stackPosition );
 			}
 
 			if ( useAlt )
-- 
2.43.0


From 759be479585e0dca94756b42caf6607fa1a3bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:10 +0000
Subject: [PATCH 11/71] fix: hash literals store values, not references into
 other containers

---
 discrete_src/vm/operations.cpp | 10 +++++++---
 src/wrench.cpp                 | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index ce56a71..2b19afd 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -384,10 +384,14 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 		table->p2 = INIT_AS_HASH_TABLE;
 	}
 
-	WRValue *entry = (WRValue *)table->va->get( index->getHash() );
+	// store what is referred to, never a reference into another container
+	const WRValue key = index->deref();
+	const WRValue store = value->deref();
 
-	*entry++ = *value;
-	*entry = *index;
+	WRValue *entry = (WRValue *)table->va->get( key.getHash() );
+
+	*entry++ = store;
+	*entry = key;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0aa61d8..dbfd462 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18348,10 +18348,14 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 		table->p2 = INIT_AS_HASH_TABLE;
 	}
 
-	WRValue *entry = (WRValue *)table->va->get( index->getHash() );
+	// store what is referred to, never a reference into another container
+	const WRValue key = index->deref();
+	const WRValue store = value->deref();
 
-	*entry++ = *value;
-	*entry = *index;
+	WRValue *entry = (WRValue *)table->va->get( key.getHash() );
+
+	*entry++ = store;
+	*entry = key;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 61ca6340311567141b3f878c65b76450165819d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:08 +0000
Subject: [PATCH 12/71] fix: continue inside foreach, foreach over long arrays,
 and foreach variables no longer dangle

---
 discrete_src/cc/cc.cpp         |  3 +++
 discrete_src/utils/utils.h     |  2 +-
 discrete_src/vm/operations.cpp |  6 +++++-
 discrete_src/vm/vm.cpp         | 10 ++++------
 src/wrench.cpp                 | 21 +++++++++++++--------
 5 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 83a1a46..a15ca3d 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2287,6 +2287,9 @@ A:
 		{
 			return false;
 		}
+
+		// <- continue point
+		setRelativeJumpTarget( m_units[m_unitTop].bytecode, *m_continueTargets.tail() );
 	}
 	else
 	{
diff --git a/discrete_src/utils/utils.h b/discrete_src/utils/utils.h
index e95a67a..56ecf25 100644
--- a/discrete_src/utils/utils.h
+++ b/discrete_src/utils/utils.h
@@ -469,7 +469,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 #define EX_TYPE_MASK   0xE0
 #define IS_CONTAINER_MEMBER(X) (((X)&EX_TYPE_MASK)==WR_EX_CONTAINER_MEMBER)
 #define IS_ARRAY(X) ((X)==WR_EX_ARRAY)
-#define IS_ITERATOR(X) ((X)==WR_EX_ITERATOR)
+#define IS_ITERATOR(X) (((X)&EX_TYPE_MASK)==WR_EX_ITERATOR)
 #define IS_RAW_ARRAY(X) (((X)&EX_TYPE_MASK)==WR_EX_RAW_ARRAY)
 #define IS_HASH_TABLE(X) ((X)==WR_EX_HASH_TABLE)
 #define EXPECTS_HASH_INDEX(X) ( ((X)==WR_EX_STRUCT) || ((X)==WR_EX_HASH_TABLE) )
diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index 2b19afd..77dffe8 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -441,7 +441,7 @@ WRUint32Call wr_bitwiseNot[4] =
 };
 
 //------------------------------------------------------------------------------
-void pushIterator_X( WRValue* on, WRValue* to ) { on->init(); }
+void pushIterator_X( WRValue* on, WRValue* to ) { to->init(); }
 void pushIterator_R( WRValue* on, WRValue* to ) { wr_pushIterator[on->r->type]( on->r, to ); }
 void pushIterator_E( WRValue* on, WRValue* to )
 {
@@ -450,6 +450,10 @@ void pushIterator_E( WRValue* on, WRValue* to )
 		to->va = on->va;
 		to->p2 = INIT_AS_ITERATOR;
 	}
+	else
+	{
+		to->init();
+	}
 }
 
 WRVoidFunc wr_pushIterator[4] =
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 0ec9cd4..ea625db 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -44,12 +44,11 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 				
 				element <<= 1;
 
-				value->p2 = INIT_AS_REF;
-				value->r = iterator->va->m_Vdata + element;
+				// copies, a reference would dangle when the table grows
+				*value = iterator->va->m_Vdata[element];
 				if ( key )
 				{
-					key->p2 = INIT_AS_REF;
-					key->r = iterator->va->m_Vdata + element + 1;
+					*key = iterator->va->m_Vdata[element + 1];
 				}
 				
 				return true;
@@ -73,8 +72,7 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 
 		if ( iterator->va->m_type == SV_VALUE )
 		{
-			value->p2 = INIT_AS_REF;
-			value->r = iterator->va->m_Vdata + element;
+			*value = iterator->va->m_Vdata[element];
 		}
 		else if ( iterator->va->m_type == SV_CHAR )
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index dbfd462..572ea93 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -475,7 +475,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 #define EX_TYPE_MASK   0xE0
 #define IS_CONTAINER_MEMBER(X) (((X)&EX_TYPE_MASK)==WR_EX_CONTAINER_MEMBER)
 #define IS_ARRAY(X) ((X)==WR_EX_ARRAY)
-#define IS_ITERATOR(X) ((X)==WR_EX_ITERATOR)
+#define IS_ITERATOR(X) (((X)&EX_TYPE_MASK)==WR_EX_ITERATOR)
 #define IS_RAW_ARRAY(X) (((X)&EX_TYPE_MASK)==WR_EX_RAW_ARRAY)
 #define IS_HASH_TABLE(X) ((X)==WR_EX_HASH_TABLE)
 #define EXPECTS_HASH_INDEX(X) ( ((X)==WR_EX_STRUCT) || ((X)==WR_EX_HASH_TABLE) )
@@ -5329,6 +5329,9 @@ A:
 		{
 			return false;
 		}
+
+		// <- continue point
+		setRelativeJumpTarget( m_units[m_unitTop].bytecode, *m_continueTargets.tail() );
 	}
 	else
 	{
@@ -10240,12 +10243,11 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 				
 				element <<= 1;
 
-				value->p2 = INIT_AS_REF;
-				value->r = iterator->va->m_Vdata + element;
+				// copies, a reference would dangle when the table grows
+				*value = iterator->va->m_Vdata[element];
 				if ( key )
 				{
-					key->p2 = INIT_AS_REF;
-					key->r = iterator->va->m_Vdata + element + 1;
+					*key = iterator->va->m_Vdata[element + 1];
 				}
 				
 				return true;
@@ -10269,8 +10271,7 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 
 		if ( iterator->va->m_type == SV_VALUE )
 		{
-			value->p2 = INIT_AS_REF;
-			value->r = iterator->va->m_Vdata + element;
+			*value = iterator->va->m_Vdata[element];
 		}
 		else if ( iterator->va->m_type == SV_CHAR )
 		{
@@ -18405,7 +18406,7 @@ WRUint32Call wr_bitwiseNot[4] =
 };
 
 //------------------------------------------------------------------------------
-void pushIterator_X( WRValue* on, WRValue* to ) { on->init(); }
+void pushIterator_X( WRValue* on, WRValue* to ) { to->init(); }
 void pushIterator_R( WRValue* on, WRValue* to ) { wr_pushIterator[on->r->type]( on->r, to ); }
 void pushIterator_E( WRValue* on, WRValue* to )
 {
@@ -18414,6 +18415,10 @@ void pushIterator_E( WRValue* on, WRValue* to )
 		to->va = on->va;
 		to->p2 = INIT_AS_ITERATOR;
 	}
+	else
+	{
+		to->init();
+	}
 }
 
 WRVoidFunc wr_pushIterator[4] =
-- 
2.43.0


From 54ea0873d0ec3099b9bf1a4fe6bf4e6f4bc5831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:34 +0000
Subject: [PATCH 13/71] fix: string + keeps operand order with a local first;
 quoted brackets in literals

---
 discrete_src/cc/cc.cpp         |  6 +++---
 discrete_src/cc/expression.cpp |  6 +++---
 discrete_src/cc/optimizer.cpp  |  9 ---------
 src/wrench.cpp                 | 21 ++++++---------------
 4 files changed, 12 insertions(+), 30 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index a15ca3d..c1ab107 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1657,7 +1657,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 
 		bool subTableValue = false;
 
-		if ( token == '{' )
+		if ( !m_quoted && token == '{' )
 		{
 			subTableValue = true;
 			if ( parseInitializer(expression, depth) == -1 )
@@ -1672,7 +1672,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 			continue;
 		}
 	
-		if ( token == ',' )
+		if ( !m_quoted && token == ',' )
 		{
 			if ( initializer == 0 )
 			{
@@ -1724,7 +1724,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 				return -1;
 			}
 
-			if ( token == '{' )
+			if ( !m_quoted && token == '{' )
 			{
 				if ( parseInitializer(expression, depth) == -1 )
 				{
diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index 4dcd442..660cd0e 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -380,12 +380,12 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 				m_err = WR_ERR_unexpected_EOF;
 				return 0;
 			}
-			else if (token == ")")
+			else if ( !m_quoted && token == ")" )
 			{
 				m_err = WR_ERR_empty_parens;
 				return 0;
 			}
-			else if ( token == "int" )
+			else if ( !m_quoted && token == "int" )
 			{
 				if ( !getToken(expression.context[depth], ")") )
 				{
@@ -395,7 +395,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 				operatorFound( WRstr("@i"), expression.context, depth );
 			}
-			else if ( token == "float" )
+			else if ( !m_quoted && token == "float" )
 			{
 				if ( !getToken(expression.context[depth], ")") )
 				{
diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index 87d2ae7..438c710 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -533,15 +533,6 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 				bytecode.all.shave(1);
 				bytecode.opcodes.clear();
 			}
-			else if ( bytecode.opcodes[o] == O_LoadFromLocal
-					  && bytecode.opcodes[o-1] == O_LoadFromGlobal )
-			{
-				bytecode.all[ a - 3 ] = O_GLBinaryAddition;
-				bytecode.all[ a - 1 ] = bytecode.all[ a - 2 ];
-				bytecode.all[ a - 2 ] = bytecode.all[ a ];
-				bytecode.all.shave(1);
-				bytecode.opcodes.clear();
-			}
 			else if ( bytecode.opcodes[o] == O_LoadFromGlobal
 					  && bytecode.opcodes[o-1] == O_LoadFromLocal )
 			{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 572ea93..6054322 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4699,7 +4699,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 
 		bool subTableValue = false;
 
-		if ( token == '{' )
+		if ( !m_quoted && token == '{' )
 		{
 			subTableValue = true;
 			if ( parseInitializer(expression, depth) == -1 )
@@ -4714,7 +4714,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 			continue;
 		}
 	
-		if ( token == ',' )
+		if ( !m_quoted && token == ',' )
 		{
 			if ( initializer == 0 )
 			{
@@ -4766,7 +4766,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 				return -1;
 			}
 
-			if ( token == '{' )
+			if ( !m_quoted && token == '{' )
 			{
 				if ( parseInitializer(expression, depth) == -1 )
 				{
@@ -7217,12 +7217,12 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 				m_err = WR_ERR_unexpected_EOF;
 				return 0;
 			}
-			else if (token == ")")
+			else if ( !m_quoted && token == ")" )
 			{
 				m_err = WR_ERR_empty_parens;
 				return 0;
 			}
-			else if ( token == "int" )
+			else if ( !m_quoted && token == "int" )
 			{
 				if ( !getToken(expression.context[depth], ")") )
 				{
@@ -7232,7 +7232,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 				operatorFound( WRstr("@i"), expression.context, depth );
 			}
-			else if ( token == "float" )
+			else if ( !m_quoted && token == "float" )
 			{
 				if ( !getToken(expression.context[depth], ")") )
 				{
@@ -7986,15 +7986,6 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 				bytecode.all.shave(1);
 				bytecode.opcodes.clear();
 			}
-			else if ( bytecode.opcodes[o] == O_LoadFromLocal
-					  && bytecode.opcodes[o-1] == O_LoadFromGlobal )
-			{
-				bytecode.all[ a - 3 ] = O_GLBinaryAddition;
-				bytecode.all[ a - 1 ] = bytecode.all[ a - 2 ];
-				bytecode.all[ a - 2 ] = bytecode.all[ a ];
-				bytecode.all.shave(1);
-				bytecode.opcodes.clear();
-			}
 			else if ( bytecode.opcodes[o] == O_LoadFromGlobal
 					  && bytecode.opcodes[o-1] == O_LoadFromLocal )
 			{
-- 
2.43.0


From c29a66c38a939f45ef980f2e3404884d968097e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:23 +0000
Subject: [PATCH 14/71] fix: a function whose last statement is a conditional
 return no longer runs into the next one

---
 discrete_src/cc/cc.cpp | 20 +++++++-------------
 src/wrench.cpp         | 20 +++++++-------------
 2 files changed, 14 insertions(+), 26 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index c1ab107..86fcb22 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -138,13 +138,10 @@ WRError WRCompilationContext::compile( const char* source,
 		return m_err;
 	}
 
-	if ( !m_units[0].bytecode.opcodes.size()
-		 || m_units[0].bytecode.opcodes[m_units[0].bytecode.opcodes.size() - 1] != O_GlobalStop )
-	{
-		// pop final return value
-		pushOpcode( m_units[0].bytecode, O_LiteralZero );
-		pushOpcode( m_units[0].bytecode, O_GlobalStop );
-	}
+	// pop final return value. This is needed even when the last opcode is
+	// a return: a jump may arrive here from before it
+	pushOpcode( m_units[0].bytecode, O_LiteralZero );
+	pushOpcode( m_units[0].bytecode, O_GlobalStop );
 
 	pushOpcode( m_units[0].bytecode, O_Stop );
 
@@ -1911,12 +1908,9 @@ bool WRCompilationContext::parseUnit( bool isStruct, int parentUnitIndex )
 		
 	parseStatement( m_unitTop, '}', O_Return );
 
-	if ( !m_units[m_unitTop].bytecode.opcodes.size()
-		 || (m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_Return
-			 && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_ReturnZero) )
-	{
-		pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
-	}
+	// needed even when the last opcode is a return: a jump may arrive here
+	// from before it, such as 'if ( a ) { return 1; }'
+	pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
 
 	m_unitTop = previousIndex;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6054322..03f8b08 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -3180,13 +3180,10 @@ WRError WRCompilationContext::compile( const char* source,
 		return m_err;
 	}
 
-	if ( !m_units[0].bytecode.opcodes.size()
-		 || m_units[0].bytecode.opcodes[m_units[0].bytecode.opcodes.size() - 1] != O_GlobalStop )
-	{
-		// pop final return value
-		pushOpcode( m_units[0].bytecode, O_LiteralZero );
-		pushOpcode( m_units[0].bytecode, O_GlobalStop );
-	}
+	// pop final return value. This is needed even when the last opcode is
+	// a return: a jump may arrive here from before it
+	pushOpcode( m_units[0].bytecode, O_LiteralZero );
+	pushOpcode( m_units[0].bytecode, O_GlobalStop );
 
 	pushOpcode( m_units[0].bytecode, O_Stop );
 
@@ -4953,12 +4950,9 @@ bool WRCompilationContext::parseUnit( bool isStruct, int parentUnitIndex )
 		
 	parseStatement( m_unitTop, '}', O_Return );
 
-	if ( !m_units[m_unitTop].bytecode.opcodes.size()
-		 || (m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_Return
-			 && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_ReturnZero) )
-	{
-		pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
-	}
+	// needed even when the last opcode is a return: a jump may arrive here
+	// from before it, such as 'if ( a ) { return 1; }'
+	pushOpcode( m_units[m_unitTop].bytecode, O_ReturnZero );
 
 	m_unitTop = previousIndex;
 
-- 
2.43.0


From 08ba5a88e7d9c19067fdc66b27306959b0c8fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:20 +0000
Subject: [PATCH 15/71] fix: the optimizer no longer pairs instructions that
 are not adjacent

---
 discrete_src/cc/optimizer.cpp | 23 +++++++++++++++++++++++
 src/wrench.cpp                | 23 +++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index 438c710..ad27881 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -1582,6 +1582,29 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 
 	resolveRelativeJumps( addMe );
 
+	// the opcode history only continues across this seam when it is known to
+	// cover all of addMe: a single whole load. Otherwise what came before
+	// is no longer adjacent to what comes next
+	bool wholeLoad = false;
+	if ( addMe.opcodes.size() == 1 && addMe.opcodes[0] == addMe.all[0] )
+	{
+		switch( addMe.opcodes[0] )
+		{
+			case O_LoadFromLocal:
+			case O_LoadFromGlobal:
+			case O_LiteralInt8: wholeLoad = addMe.all.size() == 2; break;
+			case O_LiteralInt16: wholeLoad = addMe.all.size() == 3; break;
+			case O_LiteralInt32:
+			case O_LiteralFloat: wholeLoad = addMe.all.size() == 5; break;
+			default: break;
+		}
+	}
+
+	if ( !wholeLoad && addMe.all.size() )
+	{
+		bytecode.invalidateOpcodeCache();
+	}
+
 	bytecode.all += addMe.all;
 	bytecode.opcodes += addMe.opcodes;
 }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 03f8b08..aa6dd2d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9029,6 +9029,29 @@ void WRCompilationContext::appendBytecode( WRBytecode& bytecode, WRBytecode& add
 
 	resolveRelativeJumps( addMe );
 
+	// the opcode history only continues across this seam when it is known to
+	// cover all of addMe: a single whole load. Otherwise what came before
+	// is no longer adjacent to what comes next
+	bool wholeLoad = false;
+	if ( addMe.opcodes.size() == 1 && addMe.opcodes[0] == addMe.all[0] )
+	{
+		switch( addMe.opcodes[0] )
+		{
+			case O_LoadFromLocal:
+			case O_LoadFromGlobal:
+			case O_LiteralInt8: wholeLoad = addMe.all.size() == 2; break;
+			case O_LiteralInt16: wholeLoad = addMe.all.size() == 3; break;
+			case O_LiteralInt32:
+			case O_LiteralFloat: wholeLoad = addMe.all.size() == 5; break;
+			default: break;
+		}
+	}
+
+	if ( !wholeLoad && addMe.all.size() )
+	{
+		bytecode.invalidateOpcodeCache();
+	}
+
 	bytecode.all += addMe.all;
 	bytecode.opcodes += addMe.opcodes;
 }
-- 
2.43.0


From 52888f9f5f3f85c1698fd221191709a801f5823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:40 +0000
Subject: [PATCH 16/71] fix: text with bytes above 127 hashes the same in every
 place

---
 discrete_src/lib/std.cpp | 2 +-
 src/wrench.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 0fe214e..aea4a85 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -81,7 +81,7 @@ uint32_t wr_hashStr( const char* dat, uint32_t serial )
 	const char* data = dat;
 	while ( *data )
 	{
-		hash ^= (uint32_t)(*data++);
+		hash ^= (uint32_t)(unsigned char)(*data++);
 		hash *= 0x1000193;
 	}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index aa6dd2d..8d5b731 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20004,7 +20004,7 @@ uint32_t wr_hashStr( const char* dat, uint32_t serial )
 	const char* data = dat;
 	while ( *data )
 	{
-		hash ^= (uint32_t)(*data++);
+		hash ^= (uint32_t)(unsigned char)(*data++);
 		hash *= 0x1000193;
 	}
 
-- 
2.43.0


From b994a87b70344ddd51b11a513cc3217ec5e4b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:21 +0000
Subject: [PATCH 17/71] fix: the optimizer no longer reads before the start of
 its opcode history

---
 discrete_src/cc/optimizer.cpp | 6 +++---
 src/wrench.cpp                | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index ad27881..7ae369f 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -522,7 +522,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 			bytecode.opcodes += opcode;
 			return;
 		}
-		else if ( opcode == O_BinaryAddition && (a>2) )
+		else if ( opcode == O_BinaryAddition && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
@@ -557,7 +557,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 			return;
 		}
-		else if ( opcode == O_BinarySubtraction && (a>2) )
+		else if ( opcode == O_BinarySubtraction && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
@@ -600,7 +600,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 			return;
 		}
-		else if ( opcode == O_BinaryDivision && (a>2) )
+		else if ( opcode == O_BinaryDivision && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8d5b731..fcdffb3 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -7969,7 +7969,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 			bytecode.opcodes += opcode;
 			return;
 		}
-		else if ( opcode == O_BinaryAddition && (a>2) )
+		else if ( opcode == O_BinaryAddition && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
@@ -8004,7 +8004,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 			return;
 		}
-		else if ( opcode == O_BinarySubtraction && (a>2) )
+		else if ( opcode == O_BinarySubtraction && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
@@ -8047,7 +8047,7 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 
 			return;
 		}
-		else if ( opcode == O_BinaryDivision && (a>2) )
+		else if ( opcode == O_BinaryDivision && (a>2) && (o>0) )
 		{
 			if ( bytecode.opcodes[o] == O_LoadFromGlobal
 				 && bytecode.opcodes[o-1] == O_LoadFromGlobal )
-- 
2.43.0


From 26f89949e5c214010af6cf2e0d8de141d7411291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:38 +0000
Subject: [PATCH 18/71] fix: negative zero is false in conditions and for !

---
 discrete_src/vm/operations.cpp | 5 +++--
 src/wrench.cpp                 | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index 77dffe8..aedb92c 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -395,7 +395,8 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 }
 
 //------------------------------------------------------------------------------
-bool doLogicalNot_X( WRValue* value ) { return value->i == 0; } // float also uses 0x0000000 as 'zero'
+bool doLogicalNot_I( WRValue* value ) { return value->i == 0; }
+bool doLogicalNot_F( WRValue* value ) { return value->f == 0; } // negative zero is zero too
 bool doLogicalNot_R( WRValue* value ) { return wr_LogicalNot[ value->r->type ]( value->r ); }
 bool doLogicalNot_E( WRValue* value )
 {
@@ -404,7 +405,7 @@ bool doLogicalNot_E( WRValue* value )
 }
 WRReturnSingleFunc wr_LogicalNot[4] = 
 {
-	doLogicalNot_X,  doLogicalNot_X,  doLogicalNot_R,  doLogicalNot_E
+	doLogicalNot_I,  doLogicalNot_F,  doLogicalNot_R,  doLogicalNot_E
 };
 
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index fcdffb3..4d468ac 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18368,7 +18368,8 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 }
 
 //------------------------------------------------------------------------------
-bool doLogicalNot_X( WRValue* value ) { return value->i == 0; } // float also uses 0x0000000 as 'zero'
+bool doLogicalNot_I( WRValue* value ) { return value->i == 0; }
+bool doLogicalNot_F( WRValue* value ) { return value->f == 0; } // negative zero is zero too
 bool doLogicalNot_R( WRValue* value ) { return wr_LogicalNot[ value->r->type ]( value->r ); }
 bool doLogicalNot_E( WRValue* value )
 {
@@ -18377,7 +18378,7 @@ bool doLogicalNot_E( WRValue* value )
 }
 WRReturnSingleFunc wr_LogicalNot[4] = 
 {
-	doLogicalNot_X,  doLogicalNot_X,  doLogicalNot_R,  doLogicalNot_E
+	doLogicalNot_I,  doLogicalNot_F,  doLogicalNot_R,  doLogicalNot_E
 };
 
 
-- 
2.43.0


From 5c35f73f9f10d40d1b787c0eb7c8499bed651849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:09 +0000
Subject: [PATCH 19/71] fix: an entry of a temporary hash table was collected
 while in use, element references to reassigned variables were followed

---
 discrete_src/utils/utils.h     |  6 ++++++
 discrete_src/vm/gc.cpp         | 13 +++++++++++--
 discrete_src/vm/gc_object.cpp  |  1 +
 discrete_src/vm/operations.cpp |  4 ++--
 src/wrench.cpp                 | 24 ++++++++++++++++++++----
 5 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/discrete_src/utils/utils.h b/discrete_src/utils/utils.h
index 56ecf25..c023186 100644
--- a/discrete_src/utils/utils.h
+++ b/discrete_src/utils/utils.h
@@ -470,6 +470,12 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 #define IS_CONTAINER_MEMBER(X) (((X)&EX_TYPE_MASK)==WR_EX_CONTAINER_MEMBER)
 #define IS_ARRAY(X) ((X)==WR_EX_ARRAY)
 #define IS_ITERATOR(X) (((X)&EX_TYPE_MASK)==WR_EX_ITERATOR)
+// a container member refers to either the WRValue holding the container or
+// the storage of a hash table, the latter carries a tag where the WRValue has
+// its type, which no WRValue ever has
+#define HASH_STORAGE_TAG ((uint32_t)WR_EX)
+#define IS_HASH_MEMBER(V) ((V)->r->p2 == HASH_STORAGE_TAG && (V)->vb->m_type == SV_HASH_INTERNAL)
+
 #define IS_RAW_ARRAY(X) (((X)&EX_TYPE_MASK)==WR_EX_RAW_ARRAY)
 #define IS_HASH_TABLE(X) ((X)==WR_EX_HASH_TABLE)
 #define EXPECTS_HASH_INDEX(X) ( ((X)==WR_EX_STRUCT) || ((X)==WR_EX_HASH_TABLE) )
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 84b5983..065d7e0 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -65,10 +65,19 @@ void WRContext::markBase( WRGCBase* svb )
 //------------------------------------------------------------------------------
 void WRContext::mark( WRValue* s )
 {
-	if ( IS_CONTAINER_MEMBER(s->xtype) && IS_EXARRAY_TYPE(s->r->xtype) )
+	if ( IS_CONTAINER_MEMBER(s->xtype) )
 	{
 		// we don't mark this type, but we might mark it's target
-		mark( s->r );
+		if ( IS_HASH_MEMBER(s) )
+		{
+			// might be the only thing still referring to this entry
+			s->vb->m_flags |= GCFlag_Marked;
+			mark( &s->deref() );
+		}
+		else if ( IS_EXARRAY_TYPE(s->r->xtype) )
+		{
+			mark( s->r );
+		}
 		return;
 	}
 
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index 974fbd7..2e7d89b 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -293,6 +293,7 @@ tryAgain:
 
 		// accepted, link it into the existing table
 		base->m_type = SV_HASH_INTERNAL;
+		base->m_data = (void*)(uintptr_t)HASH_STORAGE_TAG; // see IS_HASH_MEMBER
 
 		base->m_nextGC = m_nextGC;
 		m_nextGC = base;
diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index aedb92c..d30c68c 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -183,11 +183,11 @@ WRValue& WRValue::deref() const
 	{
 		s_temp2.ui = (s < (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(r->p2))) ? (uint32_t)(unsigned char)(r->c[s]) : 0;
 	}
-	else if (vb->m_type == SV_HASH_INTERNAL)
+	else if (IS_HASH_MEMBER(this))
 	{
 		return ((WRValue*)(vb + 1))[s].deref();
 	}
-	else if (s < r->va->m_size)
+	else if (r->xtype == WR_EX_ARRAY && s < r->va->m_size) // might have been re-assigned since
 	{
 		if (r->va->m_type == SV_VALUE)
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4d468ac..b976262 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -476,6 +476,12 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 #define IS_CONTAINER_MEMBER(X) (((X)&EX_TYPE_MASK)==WR_EX_CONTAINER_MEMBER)
 #define IS_ARRAY(X) ((X)==WR_EX_ARRAY)
 #define IS_ITERATOR(X) (((X)&EX_TYPE_MASK)==WR_EX_ITERATOR)
+// a container member refers to either the WRValue holding the container or
+// the storage of a hash table, the latter carries a tag where the WRValue has
+// its type, which no WRValue ever has
+#define HASH_STORAGE_TAG ((uint32_t)WR_EX)
+#define IS_HASH_MEMBER(V) ((V)->r->p2 == HASH_STORAGE_TAG && (V)->vb->m_type == SV_HASH_INTERNAL)
+
 #define IS_RAW_ARRAY(X) (((X)&EX_TYPE_MASK)==WR_EX_RAW_ARRAY)
 #define IS_HASH_TABLE(X) ((X)==WR_EX_HASH_TABLE)
 #define EXPECTS_HASH_INDEX(X) ( ((X)==WR_EX_STRUCT) || ((X)==WR_EX_HASH_TABLE) )
@@ -9966,6 +9972,7 @@ tryAgain:
 
 		// accepted, link it into the existing table
 		base->m_type = SV_HASH_INTERNAL;
+		base->m_data = (void*)(uintptr_t)HASH_STORAGE_TAG; // see IS_HASH_MEMBER
 
 		base->m_nextGC = m_nextGC;
 		m_nextGC = base;
@@ -10091,10 +10098,19 @@ void WRContext::markBase( WRGCBase* svb )
 //------------------------------------------------------------------------------
 void WRContext::mark( WRValue* s )
 {
-	if ( IS_CONTAINER_MEMBER(s->xtype) && IS_EXARRAY_TYPE(s->r->xtype) )
+	if ( IS_CONTAINER_MEMBER(s->xtype) )
 	{
 		// we don't mark this type, but we might mark it's target
-		mark( s->r );
+		if ( IS_HASH_MEMBER(s) )
+		{
+			// might be the only thing still referring to this entry
+			s->vb->m_flags |= GCFlag_Marked;
+			mark( &s->deref() );
+		}
+		else if ( IS_EXARRAY_TYPE(s->r->xtype) )
+		{
+			mark( s->r );
+		}
 		return;
 	}
 
@@ -18156,11 +18172,11 @@ WRValue& WRValue::deref() const
 	{
 		s_temp2.ui = (s < (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(r->p2))) ? (uint32_t)(unsigned char)(r->c[s]) : 0;
 	}
-	else if (vb->m_type == SV_HASH_INTERNAL)
+	else if (IS_HASH_MEMBER(this))
 	{
 		return ((WRValue*)(vb + 1))[s].deref();
 	}
-	else if (s < r->va->m_size)
+	else if (r->xtype == WR_EX_ARRAY && s < r->va->m_size) // might have been re-assigned since
 	{
 		if (r->va->m_type == SV_VALUE)
 		{
-- 
2.43.0


From f85d6c699a58f1efb2347266a395f1c86ab7c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:14 +0000
Subject: [PATCH 20/71] fix: values held across imports were collected;
 importing ran on top of the importer's live stack; loops building arrays or
 joining strings were never collected; destroying a context leaked under large
 GC thresholds

---
 discrete_src/lib/std_sys.cpp | 12 +++--
 discrete_src/utils/utils.cpp | 15 ++++++-
 discrete_src/vm/gc.cpp       | 56 ++++++++++++++++-------
 discrete_src/vm/vm.cpp       |  4 +-
 discrete_src/wrench.h        |  1 +
 src/wrench.cpp               | 87 +++++++++++++++++++++++++++---------
 src/wrench.h                 |  1 +
 7 files changed, 134 insertions(+), 42 deletions(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index d29774e..292c414 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -24,6 +24,8 @@ SOFTWARE.
 
 #include "wrench.h"
 
+WRContext* wr_importAt( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stackTop );
+
 //------------------------------------------------------------------------------
 // returns : 0 - function  does not exist
 //         : 1 - function is native (callback)
@@ -52,14 +54,18 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		unsigned int len;
 		char* data = (char *)((stackTop - argn)->array( &len, SV_CHAR ));
-		if ( data )
+		if ( data && !wr_isBytecodeValid((uint8_t*)data, len) )
+		{
+			c->w->err = WR_ERR_bad_bytecode_CRC;
+		}
+		else if ( data )
 		{
 			uint8_t* import = (uint8_t*)g_malloc( len );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if(!import) { g_mallocFailed = true; return; }
 #endif
 			memcpy( (char*)import, data, len );
-			wr_import( c, import, len, true );
+			wr_importAt( c, import, len, true, stackTop + 1 );
 		}
 		else
 		{
@@ -81,7 +87,7 @@ void wr_importCompile( WRValue* stackTop, const int argn, WRContext* c )
 			int outlen;
 			if ( (stackTop->i = wr_compile(data, len, &out, &outlen)) == WR_ERR_None )
 			{
-				wr_import( c, out, outlen, true );
+				wr_importAt( c, out, outlen, true, stackTop + 1 );
 			}
 		}
 	}
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index a179128..51a4abe 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -383,7 +383,7 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 }
 
 //------------------------------------------------------------------------------
-WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
+WRContext* wr_importAt( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stackTop )
 {
 	WRContext* import = wr_createContext( context->w, block, blockSize, takeOwnership, context->stack );
 	if ( !import )
@@ -391,6 +391,9 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	// run it above whatever the importing context still has on the stack
+	import->stackOffset = (uint16_t)(stackTop - context->stack);
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -398,6 +401,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->stackOffset = 0;
+
 	import->imported = context->imported;
 	context->imported = import;
 
@@ -410,6 +415,12 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	return import;
 }
 
+//------------------------------------------------------------------------------
+WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
+{
+	return wr_importAt( context, block, blockSize, takeOwnership, context->yield_pc ? context->yield_stackTop + 1 : context->stack );
+}
+
 //------------------------------------------------------------------------------
 bool wr_isBytecodeValid( const uint8_t* bytecode, const unsigned int len, uint32_t* hash )
 {
@@ -485,7 +496,7 @@ void wr_destroyContextEx( WRContext* context )
 {
 	// g_free all memory allocations by forcing the gc to collect everything
 	context->globals = 0;
-	context->allocatedMemoryHint = (uint16_t)-1;
+	context->allocatedMemoryHint = (uint32_t)-1;
 	context->gc( 0 );
 
 	wr_freeGCChain( context->registry.m_nextGC );
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 065d7e0..1bcef06 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -101,34 +101,60 @@ void WRContext::gc( WRValue* stackTop )
 
 	allocatedMemoryHint = 0;
 
-	// mark permenants
+	// contexts joined by import share a stack and can hold each other's
+	// objects, so they are marked and swept together
+	WRContext* c = this;
+	
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
-		for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+		do
 		{
-			if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+			// mark permenants
+			for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
 			{
-				markBase( a );
+				if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+				{
+					markBase( a );
+				}
 			}
-		}
 
-		// mark stack
-		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
+			// mark context's globals
+			WRValue* globalSpace = (WRValue *)(c + 1); // globals are allocated directly after this context
+
+			for( unsigned int i=0; i<c->globals; ++i, ++globalSpace )
+			{
+				mark( globalSpace );
+			}
+
+			c = c->imported;
+
+		} while( c && c != this );
+
+		// mark stack, all of it: below stackOffset are the callers' values
+		for( WRValue* s=stack; s<stackTop; ++s )
 		{
 			mark( s );
 		}
-	}
-	
 
-	// mark context's globals
-	WRValue* globalSpace = (WRValue *)(this + 1); // globals are allocated directly after this context
-
-	for( unsigned int i=0; i<globals; ++i, ++globalSpace )
+		// sweep
+		c = this;
+		do
+		{
+			c->allocatedMemoryHint = 0;
+			c->sweep();
+			c = c->imported;
+			
+		} while( c && c != this );
+	}
+	else
 	{
-		mark( globalSpace );
+		sweep();
 	}
+}
 
-	// sweep
+//------------------------------------------------------------------------------
+void WRContext::sweep()
+{
 	WRGCBase* current = svAllocated;
 	WRGCBase* prev = 0;
 	while( current )
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index ea625db..5160d04 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -704,7 +704,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-	WRValue* stackLimit = stackBase + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
+	WRValue* stackLimit = context->stack + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
 #endif
 
 	if ( context->yield_pc )
@@ -1488,6 +1488,7 @@ hashIndexJump:
 			CASE(RelativeJump):
 			{
 				pc += READ_16_FROM_PC(pc);
+				context->gc( stackTop ); // loops get here, whatever they allocated
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
@@ -1495,6 +1496,7 @@ hashIndexJump:
 			CASE(RelativeJump8):
 			{
 				pc += (int8_t)READ_8_FROM_PC(pc);
+				context->gc( stackTop );
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index ac15142..a8ab06a 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1159,6 +1159,7 @@ struct WRContext
 	void markBase( WRGCBase* svb );
 	void mark( WRValue* s );
 	void gc( WRValue* stackTop );
+	void sweep();
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
 };
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b976262..19f8bb0 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10134,34 +10134,60 @@ void WRContext::gc( WRValue* stackTop )
 
 	allocatedMemoryHint = 0;
 
-	// mark permenants
+	// contexts joined by import share a stack and can hold each other's
+	// objects, so they are marked and swept together
+	WRContext* c = this;
+	
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
-		for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+		do
 		{
-			if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+			// mark permenants
+			for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
 			{
-				markBase( a );
+				if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+				{
+					markBase( a );
+				}
+			}
+
+			// mark context's globals
+			WRValue* globalSpace = (WRValue *)(c + 1); // globals are allocated directly after this context
+
+			for( unsigned int i=0; i<c->globals; ++i, ++globalSpace )
+			{
+				mark( globalSpace );
 			}
-		}
 
-		// mark stack
-		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
+			c = c->imported;
+
+		} while( c && c != this );
+
+		// mark stack, all of it: below stackOffset are the callers' values
+		for( WRValue* s=stack; s<stackTop; ++s )
 		{
 			mark( s );
 		}
-	}
-	
-
-	// mark context's globals
-	WRValue* globalSpace = (WRValue *)(this + 1); // globals are allocated directly after this context
 
-	for( unsigned int i=0; i<globals; ++i, ++globalSpace )
+		// sweep
+		c = this;
+		do
+		{
+			c->allocatedMemoryHint = 0;
+			c->sweep();
+			c = c->imported;
+			
+		} while( c && c != this );
+	}
+	else
 	{
-		mark( globalSpace );
+		sweep();
 	}
+}
 
-	// sweep
+//------------------------------------------------------------------------------
+void WRContext::sweep()
+{
 	WRGCBase* current = svAllocated;
 	WRGCBase* prev = 0;
 	while( current )
@@ -10927,7 +10953,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-	WRValue* stackLimit = stackBase + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
+	WRValue* stackLimit = context->stack + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
 #endif
 
 	if ( context->yield_pc )
@@ -11711,6 +11737,7 @@ hashIndexJump:
 			CASE(RelativeJump):
 			{
 				pc += READ_16_FROM_PC(pc);
+				context->gc( stackTop ); // loops get here, whatever they allocated
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
@@ -11718,6 +11745,7 @@ hashIndexJump:
 			CASE(RelativeJump8):
 			{
 				pc += (int8_t)READ_8_FROM_PC(pc);
+				context->gc( stackTop );
 				CHECK_FORCE_YIELD;
 				FASTCONTINUE;
 			}
@@ -13915,7 +13943,7 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 }
 
 //------------------------------------------------------------------------------
-WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
+WRContext* wr_importAt( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stackTop )
 {
 	WRContext* import = wr_createContext( context->w, block, blockSize, takeOwnership, context->stack );
 	if ( !import )
@@ -13923,6 +13951,9 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	// run it above whatever the importing context still has on the stack
+	import->stackOffset = (uint16_t)(stackTop - context->stack);
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -13930,6 +13961,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->stackOffset = 0;
+
 	import->imported = context->imported;
 	context->imported = import;
 
@@ -13942,6 +13975,12 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	return import;
 }
 
+//------------------------------------------------------------------------------
+WRContext* wr_import( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership )
+{
+	return wr_importAt( context, block, blockSize, takeOwnership, context->yield_pc ? context->yield_stackTop + 1 : context->stack );
+}
+
 //------------------------------------------------------------------------------
 bool wr_isBytecodeValid( const uint8_t* bytecode, const unsigned int len, uint32_t* hash )
 {
@@ -14017,7 +14056,7 @@ void wr_destroyContextEx( WRContext* context )
 {
 	// g_free all memory allocations by forcing the gc to collect everything
 	context->globals = 0;
-	context->allocatedMemoryHint = (uint16_t)-1;
+	context->allocatedMemoryHint = (uint32_t)-1;
 	context->gc( 0 );
 
 	wr_freeGCChain( context->registry.m_nextGC );
@@ -22912,6 +22951,8 @@ SOFTWARE.
 
 #include "wrench.h"
 
+WRContext* wr_importAt( WRContext* context, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stackTop );
+
 //------------------------------------------------------------------------------
 // returns : 0 - function  does not exist
 //         : 1 - function is native (callback)
@@ -22940,14 +22981,18 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		unsigned int len;
 		char* data = (char *)((stackTop - argn)->array( &len, SV_CHAR ));
-		if ( data )
+		if ( data && !wr_isBytecodeValid((uint8_t*)data, len) )
+		{
+			c->w->err = WR_ERR_bad_bytecode_CRC;
+		}
+		else if ( data )
 		{
 			uint8_t* import = (uint8_t*)g_malloc( len );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if(!import) { g_mallocFailed = true; return; }
 #endif
 			memcpy( (char*)import, data, len );
-			wr_import( c, import, len, true );
+			wr_importAt( c, import, len, true, stackTop + 1 );
 		}
 		else
 		{
@@ -22969,7 +23014,7 @@ void wr_importCompile( WRValue* stackTop, const int argn, WRContext* c )
 			int outlen;
 			if ( (stackTop->i = wr_compile(data, len, &out, &outlen)) == WR_ERR_None )
 			{
-				wr_import( c, out, outlen, true );
+				wr_importAt( c, out, outlen, true, stackTop + 1 );
 			}
 		}
 	}
diff --git a/src/wrench.h b/src/wrench.h
index ea992ee..08d17b6 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -1160,6 +1160,7 @@ struct WRContext
 	void markBase( WRGCBase* svb );
 	void mark( WRValue* s );
 	void gc( WRValue* stackTop );
+	void sweep();
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
 };
-- 
2.43.0


From 3473b2cd5ace2d98e413bb14e26f4a299643c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:48 +0000
Subject: [PATCH 21/71] fix: compound assignment overwrote a parameter passed
 by reference through several calls

---
 discrete_src/vm/operations_compact.cpp     |  4 +++-
 discrete_src/vm/operations_non_compact.cpp | 16 ++++++++--------
 src/wrench.cpp                             | 20 +++++++++++---------
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index 1d1439a..d49f8e8 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -104,7 +104,9 @@ void FuncAssign_R_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 
 void FuncAssign_X_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(to->type<<2)+from->r->type](to, from->r, intCall, floatCall); *from = *to;
+	WRValue temp = *from->r;
+	wr_FuncAssign[(to->type<<2)+temp.type](to, &temp, intCall, floatCall);
+	*from = *to;
 }
 
 void FuncAssign_F_F( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 0ef3a85..5006d1d 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -147,8 +147,8 @@ void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_SubtractAssign_R_I( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_SubtractAssign_R_F( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
@@ -209,8 +209,8 @@ void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_MultiplyAssign_R_I( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_MultiplyAssign_R_F( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
 void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_imul_wrap( to->i, from->i ); }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
@@ -271,8 +271,8 @@ void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r-
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_DivideAssign_R_I( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_DivideAssign_R_F( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 
 void wr_DivideAssign_F_F( WRValue* to, WRValue* from )
 {
@@ -426,8 +426,8 @@ void wr_AddAssign_R_I( WRValue* to, WRValue* from )
 	}
 }
 void wr_AddAssign_R_F( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 19f8bb0..029064d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18630,7 +18630,9 @@ void FuncAssign_R_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 
 void FuncAssign_X_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(to->type<<2)+from->r->type](to, from->r, intCall, floatCall); *from = *to;
+	WRValue temp = *from->r;
+	wr_FuncAssign[(to->type<<2)+temp.type](to, &temp, intCall, floatCall);
+	*from = *to;
 }
 
 void FuncAssign_F_F( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
@@ -18931,8 +18933,8 @@ void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_SubtractAssign_R_I( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_SubtractAssign_R_F( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
@@ -18993,8 +18995,8 @@ void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_MultiplyAssign_R_I( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_MultiplyAssign_R_F( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
 void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_imul_wrap( to->i, from->i ); }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
@@ -19055,8 +19057,8 @@ void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r-
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_DivideAssign_R_I( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_DivideAssign_R_F( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 
 void wr_DivideAssign_F_F( WRValue* to, WRValue* from )
 {
@@ -19210,8 +19212,8 @@ void wr_AddAssign_R_I( WRValue* to, WRValue* from )
 	}
 }
 void wr_AddAssign_R_F( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
-- 
2.43.0


From 201851f353506404852e8a59c7caf79d790468a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:58 +0000
Subject: [PATCH 22/71] fix: disassembling leaked the context

---
 discrete_src/debug/disassemble.cpp | 2 +-
 src/wrench.cpp                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/debug/disassemble.cpp b/discrete_src/debug/disassemble.cpp
index 61a99e8..29a8154 100644
--- a/discrete_src/debug/disassemble.cpp
+++ b/discrete_src/debug/disassemble.cpp
@@ -721,7 +721,7 @@ void wr_disassemble( const uint8_t* bytecode, const unsigned int len, WRstr& out
 		return;
 	}
 
-	WRContext* context = wr_createContext( w, bytecode, (int)len, false );
+	WRContext* context = wr_newContext( w, bytecode, (int)len, false );
 	if ( !context )
 	{
 		out.appendFormat( "err: context failed (%s)\n", c_errStrings[wr_getLastError(w)] );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 029064d..3d05e18 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -16817,7 +16817,7 @@ void wr_disassemble( const uint8_t* bytecode, const unsigned int len, WRstr& out
 		return;
 	}
 
-	WRContext* context = wr_createContext( w, bytecode, (int)len, false );
+	WRContext* context = wr_newContext( w, bytecode, (int)len, false );
 	if ( !context )
 	{
 		out.appendFormat( "err: context failed (%s)\n", c_errStrings[wr_getLastError(w)] );
-- 
2.43.0


From 731ec092509e8a8c7c196383b18e0c4cdb3625cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:20 +0000
Subject: [PATCH 23/71] fix: the compiler read past the end of the source text
 and of tokens with empty or repeated scopes

---
 discrete_src/cc/cc.cpp    |  7 ++++++-
 discrete_src/cc/token.cpp | 19 ++++++++++++-------
 src/wrench.cpp            | 26 ++++++++++++++++++--------
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 86fcb22..5dd1a30 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -231,6 +231,11 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 				return false;
 			}
 
+			if ( foundColon ) // only a single scope may be named
+			{
+				return false;
+			}
+
 			foundColon = true;
 
 			if ( i != 1 )
@@ -258,7 +263,7 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 		}
 	}
 
-	if ( foundColon && token[token.size() - 1] == ':' )
+	if ( foundColon && (!token.size() || token[token.size() - 1] == ':') )
 	{
 		return false;
 	}
diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index 2f2a0fc..371807d 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -46,6 +46,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 	}
 	else
 	{
+nextToken:
 		m_quoted = false;
 		value.p2 = INIT_AS_REF;
 
@@ -309,22 +310,26 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 					else if (c == '\\')
 					{
-						c = m_source[++m_pos];
-						if (m_pos >= m_sourceLen)
+						if (++m_pos >= m_sourceLen)
 						{
 							m_err = WR_ERR_unterminated_string_literal;
 							m_EOF = true;
 							return false;
 						}
 
+						c = m_source[m_pos];
 						if (c == '\\') // escaped slash
 						{
 							token += '\\';
 						}
 						else if (c == '0')
 						{
-							token += atoi(m_source + m_pos);
-							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos);
+							unsigned int code = 0;
+							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos)
+							{
+								code = (code * 10) + (m_source[m_pos] - '0');
+							}
+							token += (char)code;
 							--m_pos;
 						}
 						else if (c == '\"')
@@ -383,7 +388,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						{
 							for( ; m_pos<m_sourceLen && m_source[m_pos] != '\n'; ++m_pos ); // clear to end EOL
 
-							return getToken( ex, expect );
+							goto nextToken;
 						}
 						else if ( m_source[m_pos] == '*' )
 						{
@@ -399,7 +404,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 
 							m_pos += 2;
 
-							return getToken( ex, expect );
+							goto nextToken;
 
 						}
 						else if ( m_source[m_pos] == '=' )
@@ -540,7 +545,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 				}
 			}
-			else if ( token[0] == ':' && isspace(m_source[m_pos]) )
+			else if ( token[0] == ':' && (m_pos < m_sourceLen) && isspace(m_source[m_pos]) )
 			{
 				
 			}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3d05e18..4ef49a1 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -3279,6 +3279,11 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 				return false;
 			}
 
+			if ( foundColon ) // only a single scope may be named
+			{
+				return false;
+			}
+
 			foundColon = true;
 
 			if ( i != 1 )
@@ -3306,7 +3311,7 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 		}
 	}
 
-	if ( foundColon && token[token.size() - 1] == ':' )
+	if ( foundColon && (!token.size() || token[token.size() - 1] == ':') )
 	{
 		return false;
 	}
@@ -9112,6 +9117,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 	}
 	else
 	{
+nextToken:
 		m_quoted = false;
 		value.p2 = INIT_AS_REF;
 
@@ -9375,22 +9381,26 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 					else if (c == '\\')
 					{
-						c = m_source[++m_pos];
-						if (m_pos >= m_sourceLen)
+						if (++m_pos >= m_sourceLen)
 						{
 							m_err = WR_ERR_unterminated_string_literal;
 							m_EOF = true;
 							return false;
 						}
 
+						c = m_source[m_pos];
 						if (c == '\\') // escaped slash
 						{
 							token += '\\';
 						}
 						else if (c == '0')
 						{
-							token += atoi(m_source + m_pos);
-							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos);
+							unsigned int code = 0;
+							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos)
+							{
+								code = (code * 10) + (m_source[m_pos] - '0');
+							}
+							token += (char)code;
 							--m_pos;
 						}
 						else if (c == '\"')
@@ -9449,7 +9459,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						{
 							for( ; m_pos<m_sourceLen && m_source[m_pos] != '\n'; ++m_pos ); // clear to end EOL
 
-							return getToken( ex, expect );
+							goto nextToken;
 						}
 						else if ( m_source[m_pos] == '*' )
 						{
@@ -9465,7 +9475,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 
 							m_pos += 2;
 
-							return getToken( ex, expect );
+							goto nextToken;
 
 						}
 						else if ( m_source[m_pos] == '=' )
@@ -9606,7 +9616,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 				}
 			}
-			else if ( token[0] == ':' && isspace(m_source[m_pos]) )
+			else if ( token[0] == ':' && (m_pos < m_sourceLen) && isspace(m_source[m_pos]) )
 			{
 				
 			}
-- 
2.43.0


From 6ee36f6092ecb15ae5c7a6410a94ae72afa6586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:45 +0000
Subject: [PATCH 24/71] fix: a string literal given back to the tokenizer was
 read from a dead token

---
 discrete_src/cc/token.cpp | 4 ++++
 src/wrench.cpp            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index 371807d..37131fc 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -42,6 +42,10 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 	{
 		token = m_loadedToken;
 		value = m_loadedValue;
+		if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
+		{
+			value.p = &token; // the token it was first read into might be gone
+		}
 		m_quoted = m_loadedQuoted;
 	}
 	else
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4ef49a1..c7fd0af 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9113,6 +9113,10 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 	{
 		token = m_loadedToken;
 		value = m_loadedValue;
+		if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
+		{
+			value.p = &token; // the token it was first read into might be gone
+		}
 		m_quoted = m_loadedQuoted;
 	}
 	else
-- 
2.43.0


From 4b29d2fb03481512a63ff259ecb73455937dd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:20 +0000
Subject: [PATCH 25/71] fix: deeply nested source text exhausted the host's
 stack

---
 discrete_src/cc/cc.cpp         | 15 +++++++++++++++
 discrete_src/cc/cc.h           | 10 ++++++++++
 discrete_src/cc/expression.cpp |  7 +++++++
 src/wrench.cpp                 | 32 ++++++++++++++++++++++++++++++++
 4 files changed, 64 insertions(+)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 5dd1a30..95f91f9 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -80,6 +80,7 @@ WRError WRCompilationContext::compile( const char* source,
 	m_parsingNew = false;
 	m_unitTop = 0;
 	m_foreachHash = 0;
+	m_nesting = 0;
 
 	m_units.setCount(1);
 
@@ -1625,6 +1626,13 @@ bool WRCompilationContext::pushObjectTable( WRExpressionContext& context,
 //------------------------------------------------------------------------------
 int WRCompilationContext::parseInitializer( WRExpression& expression, int depth )
 {
+	WRNestingGuard guard( m_nesting );
+	if ( m_nesting > c_maxNesting )
+	{
+		m_err = WR_ERR_compiler_panic;
+		return -1;
+	}
+
 	bool inHashTable = false;
 	bool inArray = false;
 	
@@ -3015,6 +3023,13 @@ bool WRCompilationContext::parseIf( WROpcode opcodeToReturn )
 //------------------------------------------------------------------------------
 bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opcodeToReturn )
 {
+	WRNestingGuard guard( m_nesting );
+	if ( m_nesting > c_maxNesting )
+	{
+		m_err = WR_ERR_compiler_panic;
+		return false;
+	}
+
 	WRExpressionContext ex;
 	bool varSeen = false;
 	m_exportNextUnit = false;
diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index d6e5ebd..a5b1e2d 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -393,6 +393,15 @@ struct WRUnitContext
 	}
 };
 
+//------------------------------------------------------------------------------
+const int c_maxNesting = 1000;
+struct WRNestingGuard
+{
+	int& m_depth;
+	WRNestingGuard( int& depth ) : m_depth(depth) { ++m_depth; }
+	~WRNestingGuard() { --m_depth; }
+};
+
 //------------------------------------------------------------------------------
 struct WRCompilationContext
 {
@@ -501,6 +510,7 @@ private:
 	
 	WRError m_err;
 	bool m_EOF;
+	int m_nesting; // how deeply the parser has recursed, so that no source can exhaust the host's stack
 	bool m_LastParsedLabel;
 	bool m_parsingFor;
 	bool m_parsingNew;
diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index 660cd0e..cac6a98 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -59,6 +59,13 @@ static bool wr_expressionHasBlankDeclaration( WRarray<WRExpressionContext>& cont
 //------------------------------------------------------------------------------
 char WRCompilationContext::parseExpression( WRExpression& expression )
 {
+	WRNestingGuard guard( m_nesting );
+	if ( m_nesting > c_maxNesting )
+	{
+		m_err = WR_ERR_compiler_panic;
+		return 0;
+	}
+
 	int depth = 0;
 	char end = 0;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c7fd0af..6e8ade3 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -2168,6 +2168,15 @@ struct WRUnitContext
 	}
 };
 
+//------------------------------------------------------------------------------
+const int c_maxNesting = 1000;
+struct WRNestingGuard
+{
+	int& m_depth;
+	WRNestingGuard( int& depth ) : m_depth(depth) { ++m_depth; }
+	~WRNestingGuard() { --m_depth; }
+};
+
 //------------------------------------------------------------------------------
 struct WRCompilationContext
 {
@@ -2276,6 +2285,7 @@ private:
 	
 	WRError m_err;
 	bool m_EOF;
+	int m_nesting; // how deeply the parser has recursed, so that no source can exhaust the host's stack
 	bool m_LastParsedLabel;
 	bool m_parsingFor;
 	bool m_parsingNew;
@@ -3128,6 +3138,7 @@ WRError WRCompilationContext::compile( const char* source,
 	m_parsingNew = false;
 	m_unitTop = 0;
 	m_foreachHash = 0;
+	m_nesting = 0;
 
 	m_units.setCount(1);
 
@@ -4673,6 +4684,13 @@ bool WRCompilationContext::pushObjectTable( WRExpressionContext& context,
 //------------------------------------------------------------------------------
 int WRCompilationContext::parseInitializer( WRExpression& expression, int depth )
 {
+	WRNestingGuard guard( m_nesting );
+	if ( m_nesting > c_maxNesting )
+	{
+		m_err = WR_ERR_compiler_panic;
+		return -1;
+	}
+
 	bool inHashTable = false;
 	bool inArray = false;
 	
@@ -6063,6 +6081,13 @@ bool WRCompilationContext::parseIf( WROpcode opcodeToReturn )
 //------------------------------------------------------------------------------
 bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opcodeToReturn )
 {
+	WRNestingGuard guard( m_nesting );
+	if ( m_nesting > c_maxNesting )
+	{
+		m_err = WR_ERR_compiler_panic;
+		return false;
+	}
+
 	WRExpressionContext ex;
 	bool varSeen = false;
 	m_exportNextUnit = false;
@@ -6901,6 +6926,13 @@ static bool wr_expressionHasBlankDeclaration( WRarray<WRExpressionContext>& cont
 //------------------------------------------------------------------------------
 char WRCompilationContext::parseExpression( WRExpression& expression )
 {
+	WRNestingGuard guard( m_nesting );
+	if ( m_nesting > c_maxNesting )
+	{
+		m_err = WR_ERR_compiler_panic;
+		return 0;
+	}
+
 	int depth = 0;
 	char end = 0;
 
-- 
2.43.0


From 650497d9aa4c7f237c90df4bb8b1088b60facd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:59 +0000
Subject: [PATCH 26/71] fix: host-call arguments were pushed past the end of a
 protected stack

---
 discrete_src/vm/vm.cpp | 7 +++++++
 src/wrench.cpp         | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 5160d04..07048f6 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -740,6 +740,13 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+		if ( argn >= stackLimit - stackTop ) // the return value and the host's arguments must fit
+		{
+			w->err = WR_ERR_stack_overflow;
+			return 0;
+		}
+#endif
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6e8ade3..bcc5810 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11035,6 +11035,13 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+		if ( argn >= stackLimit - stackTop ) // the return value and the host's arguments must fit
+		{
+			w->err = WR_ERR_stack_overflow;
+			return 0;
+		}
+#endif
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
-- 
2.43.0


From fc7b0103d28864ae9693b18a91535c780ff12e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:58 +0000
Subject: [PATCH 27/71] fix: array::clear( a, size ) left the elements
 uninitialised

---
 discrete_src/lib/std_container.cpp | 2 +-
 src/wrench.cpp                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 0ee1cb1..2796bb8 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -67,7 +67,7 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 			count = args[1].asInt();
 		}
 		
-		A->va = c->getSVA( count, SV_VALUE, false );
+		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index bcc5810..28a92b4 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23239,7 +23239,7 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 			count = args[1].asInt();
 		}
 		
-		A->va = c->getSVA( count, SV_VALUE, false );
+		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
-- 
2.43.0


From 4fa9cab487e0ff9160a7095529b4327a7683a5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:18 +0000
Subject: [PATCH 28/71] fix: array::insert and array::remove with out-of-range
 position or count corrupted memory

---
 discrete_src/lib/std_container.cpp | 18 ++++++++++++++++--
 src/wrench.cpp                     | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 2796bb8..cf6e868 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -115,7 +115,7 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_arrayRemoveEx( WRValue* A, const unsigned int where, const int count, WRValue* stackTop, WRContext* c )
 {
-	if ( where < A->va->m_size )
+	if ( where < A->va->m_size && count > 0 )
 	{
 		unsigned int from = where + count;
 		if ( from >= A->va->m_size )
@@ -184,11 +184,25 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+void wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
+	if ( count == 0 || count > (WR_MAX_ARRAY_INDEX + 1) - originalSize )
+	{
+		return; // nothing to insert, or it could never be indexed
+	}
+
+	if ( where > originalSize )
+	{
+		where = originalSize; // nothing to shift past the end
+	}
+
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
+	if ( A->va->m_size == originalSize )
+	{
+		return; // out of memory
+	}
 
 	// move tail of array UP "count" entries
 	unsigned int entries = originalSize - where;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 28a92b4..8206106 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23287,7 +23287,7 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_arrayRemoveEx( WRValue* A, const unsigned int where, const int count, WRValue* stackTop, WRContext* c )
 {
-	if ( where < A->va->m_size )
+	if ( where < A->va->m_size && count > 0 )
 	{
 		unsigned int from = where + count;
 		if ( from >= A->va->m_size )
@@ -23356,11 +23356,25 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+void wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
+	if ( count == 0 || count > (WR_MAX_ARRAY_INDEX + 1) - originalSize )
+	{
+		return; // nothing to insert, or it could never be indexed
+	}
+
+	if ( where > originalSize )
+	{
+		where = originalSize; // nothing to shift past the end
+	}
+
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
+	if ( A->va->m_size == originalSize )
+	{
+		return; // out of memory
+	}
 
 	// move tail of array UP "count" entries
 	unsigned int entries = originalSize - where;
-- 
2.43.0


From 53ba9c02d9d8a6151c793ebdb5cff089eb1a3f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:41 +0000
Subject: [PATCH 29/71] fix: list, queue and stack push stored a reference to
 the pushed variable instead of its value

---
 discrete_src/lib/std_container.cpp | 4 ++--
 src/wrench.cpp                     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index cf6e868..838b9ec 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -297,7 +297,7 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 	const unsigned int where = A->va->m_size;
 
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1];
+	A->va->m_Vdata[where] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
@@ -312,7 +312,7 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1];
+	A->va->m_Vdata[0] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8206106..c619b98 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23469,7 +23469,7 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 	const unsigned int where = A->va->m_size;
 
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1];
+	A->va->m_Vdata[where] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
@@ -23484,7 +23484,7 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1];
+	A->va->m_Vdata[0] = args[1].deref();
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ff6f462aab0d26f3b5576547ad516445bd4bf91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:01 +0000
Subject: [PATCH 30/71] fix: hash::exists and hash::remove returned part of an
 address instead of 1

---
 discrete_src/lib/std_container.cpp | 2 +-
 src/wrench.cpp                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 838b9ec..3ac1d26 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -378,7 +378,7 @@ void wr_hashExistEx( WRValue* stackTop, const int argn, bool remove )
 	WRValue* args = stackTop - argn;
 	if( (argn >= 2) && (H = wr_ifHash(args)) )
 	{
-		stackTop->p = H->va->exists( args[1].getHash(), remove );
+		stackTop->i = H->va->exists( args[1].getHash(), remove ) ? 1 : 0;
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c619b98..3b995d8 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23550,7 +23550,7 @@ void wr_hashExistEx( WRValue* stackTop, const int argn, bool remove )
 	WRValue* args = stackTop - argn;
 	if( (argn >= 2) && (H = wr_ifHash(args)) )
 	{
-		stackTop->p = H->va->exists( args[1].getHash(), remove );
+		stackTop->i = H->va->exists( args[1].getHash(), remove ) ? 1 : 0;
 	}
 }
 
-- 
2.43.0


From 4103b81ca1adb59cc7cb32191250e0f85991eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:38 +0000
Subject: [PATCH 31/71] fix: pushing to an array that cannot grow wrote past
 its end

---
 discrete_src/lib/std_container.cpp | 19 ++++++++++++-------
 src/wrench.cpp                     | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 3ac1d26..24f54fb 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -184,12 +184,12 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+bool wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
 	if ( count == 0 || count > (WR_MAX_ARRAY_INDEX + 1) - originalSize )
 	{
-		return; // nothing to insert, or it could never be indexed
+		return false; // nothing to insert, or it could never be indexed
 	}
 
 	if ( where > originalSize )
@@ -201,7 +201,7 @@ void wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count,
 	wr_growValueArray( A->va, originalSize + (count - 1) );
 	if ( A->va->m_size == originalSize )
 	{
-		return; // out of memory
+		return false; // out of memory
 	}
 
 	// move tail of array UP "count" entries
@@ -220,6 +220,7 @@ void wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count,
 	}
 
 	c->gc( stackTop + 1 );
+	return true;
 }
 
 //------------------------------------------------------------------------------
@@ -296,8 +297,10 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	const unsigned int where = A->va->m_size;
 
-	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1].deref();
+	if ( wr_arrayInsertEx(A, where, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[where] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
@@ -311,8 +314,10 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 		return;
 	}
 
-	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1].deref();
+	if ( wr_arrayInsertEx(A, 0, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[0] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3b995d8..0f88694 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23356,12 +23356,12 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+bool wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
 	if ( count == 0 || count > (WR_MAX_ARRAY_INDEX + 1) - originalSize )
 	{
-		return; // nothing to insert, or it could never be indexed
+		return false; // nothing to insert, or it could never be indexed
 	}
 
 	if ( where > originalSize )
@@ -23373,7 +23373,7 @@ void wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count,
 	wr_growValueArray( A->va, originalSize + (count - 1) );
 	if ( A->va->m_size == originalSize )
 	{
-		return; // out of memory
+		return false; // out of memory
 	}
 
 	// move tail of array UP "count" entries
@@ -23392,6 +23392,7 @@ void wr_arrayInsertEx( WRValue* A, unsigned int where, const unsigned int count,
 	}
 
 	c->gc( stackTop + 1 );
+	return true;
 }
 
 //------------------------------------------------------------------------------
@@ -23468,8 +23469,10 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	const unsigned int where = A->va->m_size;
 
-	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1].deref();
+	if ( wr_arrayInsertEx(A, where, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[where] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
@@ -23483,8 +23486,10 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 		return;
 	}
 
-	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1].deref();
+	if ( wr_arrayInsertEx(A, 0, 1, stackTop, c) )
+	{
+		A->va->m_Vdata[0] = args[1].deref();
+	}
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 6d0e6f5bef6a232bb1439266f88d7116f9b128ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:23 +0000
Subject: [PATCH 32/71] fix: peek on an array that is itself an element
 returned garbage

---
 discrete_src/lib/std_container.cpp | 6 ++----
 src/wrench.cpp                     | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 24f54fb..f211327 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -91,8 +91,7 @@ void wr_arrayPeek( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER;// | ENCODE_ARRAY_ELEMENT_TO_P2( 0 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[0];
 	}
 }
 
@@ -107,8 +106,7 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( A->va->m_size - 1 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[ A->va->m_size - 1 ];
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0f88694..a99af29 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23263,8 +23263,7 @@ void wr_arrayPeek( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER;// | ENCODE_ARRAY_ELEMENT_TO_P2( 0 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[0];
 	}
 }
 
@@ -23279,8 +23278,7 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( A->va->m_size - 1 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[ A->va->m_size - 1 ];
 	}
 }
 
-- 
2.43.0


From f36b4b12890579583989bb49d24e7a30e6a11ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:22 +0000
Subject: [PATCH 33/71] fix: a library call whose result is not used let the
 collector mark a stale stack slot

---
 discrete_src/vm/vm.cpp | 2 ++
 src/wrench.cpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 07048f6..0f80531 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1150,6 +1150,8 @@ callFunction:
 
 			CASE(CallLibFunctionAndPop):
 			{
+				stackTop->init(); // the library function might collect with its return value on the stack
+
 				args = READ_8_FROM_PC(pc++); // which have already been pushed
 
 				if ( ! ((register1 = w->globalRegistry.getAsRawValueHashTable(READ_32_FROM_PC(pc)))->lcb) )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a99af29..ec1b76b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11445,6 +11445,8 @@ callFunction:
 
 			CASE(CallLibFunctionAndPop):
 			{
+				stackTop->init(); // the library function might collect with its return value on the stack
+
 				args = READ_8_FROM_PC(pc++); // which have already been pushed
 
 				if ( ! ((register1 = w->globalRegistry.getAsRawValueHashTable(READ_32_FROM_PC(pc)))->lcb) )
-- 
2.43.0


From c3c191accbcf456e42376aba519431d276b91698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:33 +0000
Subject: [PATCH 34/71] fix: a host call let the collector mark a stale stack
 slot

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 0f80531..22be32d 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -757,7 +757,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		
 		pc = context->stopLocation;
 
-		context->gc( stackTop + 1 );
+		context->gc( stackTop );
 
 		goto callFunction;
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index ec1b76b..404f2c7 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11052,7 +11052,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		
 		pc = context->stopLocation;
 
-		context->gc( stackTop + 1 );
+		context->gc( stackTop );
 
 		goto callFunction;
 	}
-- 
2.43.0


From 60c87c1516f18b49291edf8248adf83ed7e82e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:44 +0000
Subject: [PATCH 35/71] fix: math::pow, fmod and ldexp took their arguments in
 reverse order

---
 discrete_src/lib/std_math.cpp | 6 +++---
 src/wrench.cpp                | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_math.cpp b/discrete_src/lib/std_math.cpp
index daf644d..811d798 100644
--- a/discrete_src/lib/std_math.cpp
+++ b/discrete_src/lib/std_math.cpp
@@ -202,7 +202,7 @@ void wr_math_pow( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = powf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = powf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -212,7 +212,7 @@ void wr_math_fmod( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = fmodf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = fmodf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -232,7 +232,7 @@ void wr_math_ldexp( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = ldexpf( (stackTop - 1)->asFloat(), (stackTop - 2)->asInt() );
+		stackTop->f = ldexpf( (stackTop - 2)->asFloat(), (stackTop - 1)->asInt() );
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 404f2c7..9c65919 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22776,7 +22776,7 @@ void wr_math_pow( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = powf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = powf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -22786,7 +22786,7 @@ void wr_math_fmod( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = fmodf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = fmodf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -22806,7 +22806,7 @@ void wr_math_ldexp( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = ldexpf( (stackTop - 1)->asFloat(), (stackTop - 2)->asInt() );
+		stackTop->f = ldexpf( (stackTop - 2)->asFloat(), (stackTop - 1)->asInt() );
 	}
 }
 
-- 
2.43.0


From 5f0a0e3600d2c3f6d15877232005b00323a1169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 36/71] fix: std::rand over the full integer range divided by
 zero

---
 discrete_src/lib/std.cpp | 7 ++++++-
 src/wrench.cpp           | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index aea4a85..52bf430 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -212,7 +212,12 @@ const int32_t wr_randEx( const int32_t from, const int32_t to )
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
-	return (from >= to) ? from : ((uint32_t)wr_Seed % ((to - from) + 1)) + from;
+	if ( from >= to )
+	{
+		return from;
+	}
+	const uint32_t range = (uint32_t)to - (uint32_t)from + 1; // 0: every 32-bit value
+	return (int32_t)((range ? (uint32_t)wr_Seed % range : (uint32_t)wr_Seed) + (uint32_t)from);
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 9c65919..b1849bd 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20248,7 +20248,12 @@ const int32_t wr_randEx( const int32_t from, const int32_t to )
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
-	return (from >= to) ? from : ((uint32_t)wr_Seed % ((to - from) + 1)) + from;
+	if ( from >= to )
+	{
+		return from;
+	}
+	const uint32_t range = (uint32_t)to - (uint32_t)from + 1; // 0: every 32-bit value
+	return (int32_t)((range ? (uint32_t)wr_Seed % range : (uint32_t)wr_Seed) + (uint32_t)from);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From ab06ddfca1f6ea6ff72c440bcee3c644fab4c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:31 +0000
Subject: [PATCH 37/71] fix: octal and binary formats dropped the upper digits
 of large values

---
 discrete_src/lib/std_string.cpp | 6 +++---
 src/wrench.cpp                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 5b5651a..10ff273 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -146,7 +146,7 @@ resetState:
 		}
 		else // string or integer
 		{
-			const int c_bufSize = 20;
+			const int c_bufSize = 36; // 32 binary digits is the most needed
 			char buf[c_bufSize]; // buffer for integer
 
 			const char *ptr; // pointer to first char of integer
@@ -264,13 +264,13 @@ parseDecimal:
 				else if ( c == 'b' ) // binary
 				{
 					base  = 2;
-					width = 16;
+					width = 32;
 					goto convertBase;
 				}
 				else if ( c == 'o' ) // octal
 				{
 					base  = 8;
-					width = 5;
+					width = 11;
 					goto convertBase;
 				}
 				else if ( c == 'x' || c == 'X' || c == 'p' ) // hexadecimal or pointer (pointer is treated as 'X')
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b1849bd..9feedd0 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21799,7 +21799,7 @@ resetState:
 		}
 		else // string or integer
 		{
-			const int c_bufSize = 20;
+			const int c_bufSize = 36; // 32 binary digits is the most needed
 			char buf[c_bufSize]; // buffer for integer
 
 			const char *ptr; // pointer to first char of integer
@@ -21917,13 +21917,13 @@ parseDecimal:
 				else if ( c == 'b' ) // binary
 				{
 					base  = 2;
-					width = 16;
+					width = 32;
 					goto convertBase;
 				}
 				else if ( c == 'o' ) // octal
 				{
 					base  = 8;
-					width = 5;
+					width = 11;
 					goto convertBase;
 				}
 				else if ( c == 'x' || c == 'X' || c == 'p' ) // hexadecimal or pointer (pointer is treated as 'X')
-- 
2.43.0


From 0fcd7472718504e2aab726d91edd923f37915f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:58 +0000
Subject: [PATCH 38/71] fix: formatted widths ignored the sign, the base prefix
 and characters

---
 discrete_src/lib/std_string.cpp | 48 ++++++++++++++++++++++++++++-----
 src/wrench.cpp                  | 48 ++++++++++++++++++++++++++++-----
 2 files changed, 82 insertions(+), 14 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 10ff273..288a5d2 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -135,7 +135,20 @@ resetState:
 		{
 			if ( listPtr < argn )
 			{
+				if ( !(flags & negativeJustify) )
+				{
+					for ( ; columns > 1; columns-- )
+					{
+						addChar( outbuf, ' ', pos, outsize );
+					}
+				}
+
 				addChar( outbuf, (char)(args[listPtr++].asInt()), pos, outsize );
+
+				for ( ; columns > 1; columns-- )
+				{
+					addChar( outbuf, ' ', pos, outsize );
+				}
 			}
 			goto resetState;
 		}
@@ -184,8 +197,27 @@ copyToString:
 //
 //				ptr -= len;
 
-				// Right-justify
-				if ( !(flags & negativeJustify) )
+				// the sign or base prefix is part of the field
+				char prefix[2];
+				unsigned int prefixLen = 0;
+				if ( flags & negativeSign )
+				{
+					prefix[prefixLen++] = '-';
+				}
+				else if ( c == 'p'
+						  || ((flags & altRep) && (c == 'x' || c == 'X' || c == 'b') && *ptr != '0') )
+				{
+					prefix[prefixLen++] = '0';
+					prefix[prefixLen++] = (c == 'p') ? 'x' : c;
+				}
+				else if ( (flags & altRep) && c == 'o' && *ptr != '0' )
+				{
+					prefix[prefixLen++] = '0';
+				}
+				columns = (columns > prefixLen) ? columns - prefixLen : 0;
+
+				// Right-justify, zeros go after the prefix
+				if ( !(flags & negativeJustify) && padChar == ' ' )
 				{
 					for ( ; columns > len; columns-- )
 					{
@@ -193,15 +225,17 @@ copyToString:
 					}
 				}
 
-				if ( flags & negativeSign )
+				for ( unsigned int l = 0; l < prefixLen; ++l )
 				{
-					addChar( outbuf, '-', pos, outsize );
+					addChar( outbuf, prefix[l], pos, outsize );
 				}
 
-				if ( flags & altRep || c == 'p' )
+				if ( !(flags & negativeJustify) )
 				{
-					addChar( outbuf, '0', pos, outsize );
-					addChar( outbuf, 'x', pos, outsize );
+					for ( ; columns > len; columns-- )
+					{
+						addChar( outbuf, padChar, pos, outsize );
+					}
 				}
 
 				for (unsigned int l = 0; l < len; ++l )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 9feedd0..c907490 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21788,7 +21788,20 @@ resetState:
 		{
 			if ( listPtr < argn )
 			{
+				if ( !(flags & negativeJustify) )
+				{
+					for ( ; columns > 1; columns-- )
+					{
+						addChar( outbuf, ' ', pos, outsize );
+					}
+				}
+
 				addChar( outbuf, (char)(args[listPtr++].asInt()), pos, outsize );
+
+				for ( ; columns > 1; columns-- )
+				{
+					addChar( outbuf, ' ', pos, outsize );
+				}
 			}
 			goto resetState;
 		}
@@ -21837,8 +21850,27 @@ copyToString:
 //
 //				ptr -= len;
 
-				// Right-justify
-				if ( !(flags & negativeJustify) )
+				// the sign or base prefix is part of the field
+				char prefix[2];
+				unsigned int prefixLen = 0;
+				if ( flags & negativeSign )
+				{
+					prefix[prefixLen++] = '-';
+				}
+				else if ( c == 'p'
+						  || ((flags & altRep) && (c == 'x' || c == 'X' || c == 'b') && *ptr != '0') )
+				{
+					prefix[prefixLen++] = '0';
+					prefix[prefixLen++] = (c == 'p') ? 'x' : c;
+				}
+				else if ( (flags & altRep) && c == 'o' && *ptr != '0' )
+				{
+					prefix[prefixLen++] = '0';
+				}
+				columns = (columns > prefixLen) ? columns - prefixLen : 0;
+
+				// Right-justify, zeros go after the prefix
+				if ( !(flags & negativeJustify) && padChar == ' ' )
 				{
 					for ( ; columns > len; columns-- )
 					{
@@ -21846,15 +21878,17 @@ copyToString:
 					}
 				}
 
-				if ( flags & negativeSign )
+				for ( unsigned int l = 0; l < prefixLen; ++l )
 				{
-					addChar( outbuf, '-', pos, outsize );
+					addChar( outbuf, prefix[l], pos, outsize );
 				}
 
-				if ( flags & altRep || c == 'p' )
+				if ( !(flags & negativeJustify) )
 				{
-					addChar( outbuf, '0', pos, outsize );
-					addChar( outbuf, 'x', pos, outsize );
+					for ( ; columns > len; columns-- )
+					{
+						addChar( outbuf, padChar, pos, outsize );
+					}
 				}
 
 				for (unsigned int l = 0; l < len; ++l )
-- 
2.43.0


From 7af975377a8d2ba4ae0f40abb2b8cc4635a73de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:45 +0000
Subject: [PATCH 39/71] fix: str::mid of an empty string returned a number

---
 discrete_src/lib/std_string.cpp | 7 +++++--
 src/wrench.cpp                  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 288a5d2..dd5531b 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -557,7 +557,7 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	unsigned int len;
 	const char* data = (char *)(args[0].array(&len));
 	
-	if( !data || len <= 0 )
+	if( !data )
 	{
 		return;
 	}
@@ -584,7 +584,10 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	#endif
 	
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data + start, chars );
+	if ( chars )
+	{
+		memcpy( stackTop->va->m_Cdata, data + start, chars );
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c907490..e27b994 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22210,7 +22210,7 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	unsigned int len;
 	const char* data = (char *)(args[0].array(&len));
 	
-	if( !data || len <= 0 )
+	if( !data )
 	{
 		return;
 	}
@@ -22237,7 +22237,10 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	#endif
 	
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data + start, chars );
+	if ( chars )
+	{
+		memcpy( stackTop->va->m_Cdata, data + start, chars );
+	}
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 43951d3b64de804badef66934bec5fd41ca5977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:09 +0000
Subject: [PATCH 40/71] fix: str::tol ignored everything past twenty characters

---
 discrete_src/lib/std_string.cpp | 6 +++---
 src/wrench.cpp                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index dd5531b..7495263 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -683,14 +683,14 @@ void wr_toupper( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_tol( WRValue* stackTop, const int argn, WRContext* c )
 {
-	char buf[21];
+	char buf[81]; // room for 64 binary digits and some white space
 	if ( argn == 2 )
 	{
-		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 20), 0, stackTop[-1].asInt() );
+		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 80), 0, stackTop[-1].asInt() );
 	}
 	else if ( argn == 1 )
 	{
-		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 20), 0, 10 );
+		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 80), 0, 10 );
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index e27b994..ec782b5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22336,14 +22336,14 @@ void wr_toupper( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_tol( WRValue* stackTop, const int argn, WRContext* c )
 {
-	char buf[21];
+	char buf[81]; // room for 64 binary digits and some white space
 	if ( argn == 2 )
 	{
-		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 20), 0, stackTop[-1].asInt() );
+		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 80), 0, stackTop[-1].asInt() );
 	}
 	else if ( argn == 1 )
 	{
-		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 20), 0, 10 );
+		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 80), 0, 10 );
 	}
 }
 
-- 
2.43.0


From e5d2c09e27002e14c965a03f83e5f4819170cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:31 +0000
Subject: [PATCH 41/71] fix: str::concat ignored all but two of its arguments

---
 discrete_src/lib/std_string.cpp | 26 ++++++++++++++++----------
 src/wrench.cpp                  | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 7495263..e267f74 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -703,17 +703,18 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	WRValue* args = stackTop - argn;
-	unsigned int len1 = 0;
-	unsigned int len2 = 0;
-	const char* data1 = (const char*)args[0].array( &len1 );
-	const char* data2 = (const char*)args[1].array( &len2 );
-
-	if( !data1 || !data2 )
+	unsigned int total = 0;
+	for( int i=0; i<argn; ++i )
 	{
-		return;
+		unsigned int len = 0;
+		if ( !args[i].array(&len) )
+		{
+			return;
+		}
+		total += len;
 	}
 
-	stackTop->va = c->getSVA( len1 + len2, SV_CHAR, false );
+	stackTop->va = c->getSVA( total, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !stackTop->va )
 	{
@@ -721,8 +722,13 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 #endif
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data1, len1 );
-	memcpy( stackTop->va->m_Cdata + len1, data2, len2 );
+	for( int i=0, at=0; i<argn; ++i )
+	{
+		unsigned int len = 0;
+		const char* data = (const char*)args[i].array( &len );
+		memcpy( stackTop->va->m_Cdata + at, data, len );
+		at += len;
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index ec782b5..2f6a037 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22356,17 +22356,18 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	WRValue* args = stackTop - argn;
-	unsigned int len1 = 0;
-	unsigned int len2 = 0;
-	const char* data1 = (const char*)args[0].array( &len1 );
-	const char* data2 = (const char*)args[1].array( &len2 );
-
-	if( !data1 || !data2 )
+	unsigned int total = 0;
+	for( int i=0; i<argn; ++i )
 	{
-		return;
+		unsigned int len = 0;
+		if ( !args[i].array(&len) )
+		{
+			return;
+		}
+		total += len;
 	}
 
-	stackTop->va = c->getSVA( len1 + len2, SV_CHAR, false );
+	stackTop->va = c->getSVA( total, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !stackTop->va )
 	{
@@ -22374,8 +22375,13 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 #endif
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data1, len1 );
-	memcpy( stackTop->va->m_Cdata + len1, data2, len2 );
+	for( int i=0, at=0; i<argn; ++i )
+	{
+		unsigned int len = 0;
+		const char* data = (const char*)args[i].array( &len );
+		memcpy( stackTop->va->m_Cdata + at, data, len );
+		at += len;
+	}
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 6d96b51ffed8bcabd888b28ed004989f16ccfc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:56 +0000
Subject: [PATCH 42/71] fix: float formats printed the character after them
 twice and overran their buffer

---
 discrete_src/lib/std_string.cpp | 13 +++++++++----
 src/wrench.cpp                  | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index e267f74..22d54f1 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -266,24 +266,29 @@ copyToString:
 				else if ( c == 'f' || c == 'g' )
 				{
 					char floatBuf[32];
+					char floatOut[128];
 					int i = 30;
 					floatBuf[31] = 0;
-					const char *f = fmt;
-					for( ; *f != '%'; --f, --i )
+					const char *f = fmt - 1; // the conversion character
+					for( ; *f != '%' && i > 0; --f, --i )
 					{
 						floatBuf[i] = *f;
 					}
 					floatBuf[i] = '%';
 
 					// suck in whatever lib we need for this
-					const int chars = snprintf( buf, 31, floatBuf + i, args[listPtr++].asFloat());
+					int chars = snprintf( floatOut, sizeof(floatOut), floatBuf + i, (listPtr < argn) ? args[listPtr++].asFloat() : 0.f );
+					if ( chars >= (int)sizeof(floatOut) )
+					{
+						chars = (int)sizeof(floatOut) - 1;
+					}
 
 					// your system not have snprintf? the unsafe version is:
 					// const int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
 
 					for( int j=0; j<chars; ++j )
 					{
-						addChar( outbuf, buf[j], pos, outsize );
+						addChar( outbuf, floatOut[j], pos, outsize );
 					}
 					goto resetState;
 				}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2f6a037..0724017 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21919,24 +21919,29 @@ copyToString:
 				else if ( c == 'f' || c == 'g' )
 				{
 					char floatBuf[32];
+					char floatOut[128];
 					int i = 30;
 					floatBuf[31] = 0;
-					const char *f = fmt;
-					for( ; *f != '%'; --f, --i )
+					const char *f = fmt - 1; // the conversion character
+					for( ; *f != '%' && i > 0; --f, --i )
 					{
 						floatBuf[i] = *f;
 					}
 					floatBuf[i] = '%';
 
 					// suck in whatever lib we need for this
-					const int chars = snprintf( buf, 31, floatBuf + i, args[listPtr++].asFloat());
+					int chars = snprintf( floatOut, sizeof(floatOut), floatBuf + i, (listPtr < argn) ? args[listPtr++].asFloat() : 0.f );
+					if ( chars >= (int)sizeof(floatOut) )
+					{
+						chars = (int)sizeof(floatOut) - 1;
+					}
 
 					// your system not have snprintf? the unsafe version is:
 					// const int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
 
 					for( int j=0; j<chars; ++j )
 					{
-						addChar( outbuf, buf[j], pos, outsize );
+						addChar( outbuf, floatOut[j], pos, outsize );
 					}
 					goto resetState;
 				}
-- 
2.43.0


From 2654f4739daa43dc279c867733e7b07787539dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:52 +0000
Subject: [PATCH 43/71] fix: str::strlen of a string held in a hash table or
 struct returned 0

---
 discrete_src/lib/std_string.cpp | 7 ++-----
 src/wrench.cpp                  | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 22d54f1..33b0028 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -30,12 +30,9 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 int wr_strlenEx( WRValue* val )
 {
-	if ( val->type == WR_REF )
-	{
-		return wr_strlenEx( val->r );
-	}
+	const WRValue& value = val->deref();
 
-	return (val->xtype == WR_EX_ARRAY && val->va->m_type == SV_CHAR) ? val->va->m_size :  0;
+	return (value.xtype == WR_EX_ARRAY && value.va->m_type == SV_CHAR) ? value.va->m_size :  0;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0724017..b7d5d95 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21683,12 +21683,9 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 int wr_strlenEx( WRValue* val )
 {
-	if ( val->type == WR_REF )
-	{
-		return wr_strlenEx( val->r );
-	}
+	const WRValue& value = val->deref();
 
-	return (val->xtype == WR_EX_ARRAY && val->va->m_type == SV_CHAR) ? val->va->m_size :  0;
+	return (value.xtype == WR_EX_ARRAY && value.va->m_type == SV_CHAR) ? value.va->m_size :  0;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 4a3deb88991b6f0065890c19b17fb0a4b7b49575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 44/71] fix: mailboxes shared the function registry, so a
 message could replace or remove a library function

---
 discrete_src/lib/std_msg.cpp |  8 ++++----
 discrete_src/utils/utils.cpp |  3 +++
 discrete_src/wrench.h        |  1 +
 src/wrench.cpp               | 11 +++++++----
 src/wrench.h                 |  1 +
 5 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/discrete_src/lib/std_msg.cpp b/discrete_src/lib/std_msg.cpp
index f28ac5f..29a834d 100644
--- a/discrete_src/lib/std_msg.cpp
+++ b/discrete_src/lib/std_msg.cpp
@@ -36,7 +36,7 @@ void wr_mboxRead( WRValue* stackTop, const int argn, WRContext* c )
 		WRValue* args = stackTop - argn;
 		int clear = (argn > 1) ? args[1].asInt() : 0;
 
-		WRValue* msg = c->w->globalRegistry.exists( args[0].getHash(), clear != 0 );
+		WRValue* msg = c->w->messageRegistry.exists( args[0].getHash(), clear != 0 );
 
 		if ( msg )
 		{
@@ -55,7 +55,7 @@ void wr_mboxWrite( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* args = stackTop - argn;
 
-		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( args[0].getHash() );
+		WRValue* msg = c->w->messageRegistry.getAsRawValueHashTable( args[0].getHash() );
 		msg->ui = args[1].getHash();
 		msg->p2 = INIT_AS_INT;
 	}
@@ -67,7 +67,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0 )
 	{
-		c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		c->w->messageRegistry.exists((stackTop - argn)->getHash(), true );
 	}
 }
 
@@ -78,7 +78,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 void wr_mboxPeek( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0
-		 && c->w->globalRegistry.exists((stackTop - argn)->getHash(), false) )
+		 && c->w->messageRegistry.exists((stackTop - argn)->getHash(), false) )
 	{
 		stackTop->i = 1;
 	}
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 51a4abe..db952fd 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -203,6 +203,7 @@ WRState* wr_newState( int stackSize )
 																		   
 	memset( (unsigned char*)w, 0, sizeof(WRState) );
 	w->globalRegistry.growHash( WRENCH_NULL_HASH, 0 );
+	w->messageRegistry.growHash( WRENCH_NULL_HASH, 0 );
 
 	w->stackSize = stackSize;
 	w->allocatedMemoryLimit = WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT;
@@ -229,8 +230,10 @@ void wr_destroyState( WRState* w )
 	}
 
 	wr_freeGCChain( w->globalRegistry.m_nextGC );
+	wr_freeGCChain( w->messageRegistry.m_nextGC );
 
 	w->globalRegistry.clear();
+	w->messageRegistry.clear();
 
 	g_free( w );
 }
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index a8ab06a..1e060bd 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1181,6 +1181,7 @@ struct WRState
 	WRLibraryCleanup* libCleanupFunctions;
 
 	WRGCObject globalRegistry;
+	WRGCObject messageRegistry; // msg:: library mailboxes
 
 	void* ctx; // state-wide context pointer, opaque to wrench
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b7d5d95..de330cb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -13818,6 +13818,7 @@ WRState* wr_newState( int stackSize )
 																		   
 	memset( (unsigned char*)w, 0, sizeof(WRState) );
 	w->globalRegistry.growHash( WRENCH_NULL_HASH, 0 );
+	w->messageRegistry.growHash( WRENCH_NULL_HASH, 0 );
 
 	w->stackSize = stackSize;
 	w->allocatedMemoryLimit = WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT;
@@ -13844,8 +13845,10 @@ void wr_destroyState( WRState* w )
 	}
 
 	wr_freeGCChain( w->globalRegistry.m_nextGC );
+	wr_freeGCChain( w->messageRegistry.m_nextGC );
 
 	w->globalRegistry.clear();
+	w->messageRegistry.clear();
 
 	g_free( w );
 }
@@ -22976,7 +22979,7 @@ void wr_mboxRead( WRValue* stackTop, const int argn, WRContext* c )
 		WRValue* args = stackTop - argn;
 		int clear = (argn > 1) ? args[1].asInt() : 0;
 
-		WRValue* msg = c->w->globalRegistry.exists( args[0].getHash(), clear != 0 );
+		WRValue* msg = c->w->messageRegistry.exists( args[0].getHash(), clear != 0 );
 
 		if ( msg )
 		{
@@ -22995,7 +22998,7 @@ void wr_mboxWrite( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* args = stackTop - argn;
 
-		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( args[0].getHash() );
+		WRValue* msg = c->w->messageRegistry.getAsRawValueHashTable( args[0].getHash() );
 		msg->ui = args[1].getHash();
 		msg->p2 = INIT_AS_INT;
 	}
@@ -23007,7 +23010,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0 )
 	{
-		c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		c->w->messageRegistry.exists((stackTop - argn)->getHash(), true );
 	}
 }
 
@@ -23018,7 +23021,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 void wr_mboxPeek( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0
-		 && c->w->globalRegistry.exists((stackTop - argn)->getHash(), false) )
+		 && c->w->messageRegistry.exists((stackTop - argn)->getHash(), false) )
 	{
 		stackTop->i = 1;
 	}
diff --git a/src/wrench.h b/src/wrench.h
index 08d17b6..c7c97ad 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -1182,6 +1182,7 @@ struct WRState
 	WRLibraryCleanup* libCleanupFunctions;
 
 	WRGCObject globalRegistry;
+	WRGCObject messageRegistry; // msg:: library mailboxes
 
 	void* ctx; // state-wide context pointer, opaque to wrench
 
-- 
2.43.0


From 0e3d476b1ab2d7f47eea13a40cd3bf6963fe35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:27 +0000
Subject: [PATCH 45/71] fix: values that can't be serialized produced a corrupt
 stream instead of being refused

---
 discrete_src/utils/serializer.cpp | 12 ++++++++++--
 src/wrench.cpp                    | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 3fc82fe..2dabb55 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -53,6 +53,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 			{
 				case WR_EX_ARRAY:
 				{
+					if ( value.va->m_size > 0xFFFF )
+					{
+						return false; // does not fit the format
+					}
+
 					serializer.write( &(temp = value.va->m_type), 1 );
 					temp16 = wr_x16( value.va->m_size );
 					serializer.write( (char*)&temp16, 2 );
@@ -91,8 +96,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							wr_serializeEx( serializer, value.va->m_Vdata[i<<1] );
-							wr_serializeEx( serializer, value.va->m_Vdata[(i<<1) + 1] );
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1])
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1]) )
+							{
+								return false;
+							}
 						}
 					}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index de330cb..0eccd58 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -15385,6 +15385,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 			{
 				case WR_EX_ARRAY:
 				{
+					if ( value.va->m_size > 0xFFFF )
+					{
+						return false; // does not fit the format
+					}
+
 					serializer.write( &(temp = value.va->m_type), 1 );
 					temp16 = wr_x16( value.va->m_size );
 					serializer.write( (char*)&temp16, 2 );
@@ -15423,8 +15428,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							wr_serializeEx( serializer, value.va->m_Vdata[i<<1] );
-							wr_serializeEx( serializer, value.va->m_Vdata[(i<<1) + 1] );
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1])
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1]) )
+							{
+								return false;
+							}
 						}
 					}
 
-- 
2.43.0


From 109fe9695361ecadbdaf0b70da1c9d741a62dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:45 +0000
Subject: [PATCH 46/71] fix: deserialized hash tables had a wrong count and
 could be written past their end by a damaged stream

---
 discrete_src/utils/serializer.cpp | 28 ++++++++++++++++------------
 src/wrench.cpp                    | 28 ++++++++++++++++------------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 2dabb55..2e354ef 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -211,7 +211,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 					temp16 = wr_x16( temp16 );
 					
-					value.va = context->getSVA( temp16 - 1, SV_HASH_TABLE, false );
+					value.va = context->getSVA( temp16 ? temp16 - 1 : 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !value.va )
 					{
@@ -229,20 +229,19 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 							return false;
 						}
 
-						if ( !temp )
+						if ( temp )
 						{
-							value.va->m_Vdata[i<<1].init();
-							value.va->m_Vdata[(i<<1) + 1].init();
-							value.va->m_hashTable[i] = WRENCH_NULL_HASH;
-						}
-						else
-						{
-							if ( !wr_deserializeEx(value.va->m_Vdata[i<<1], serializer, context)
-								 || !wr_deserializeEx(value.va->m_Vdata[(i<<1)+1], serializer, context) )
+							WRValue entryValue;
+							WRValue entryKey;
+							if ( !wr_deserializeEx(entryValue, serializer, context)
+								 || !wr_deserializeEx(entryKey, serializer, context) )
 							{
 								return false;
 							}
-							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+
+							WRValue* entry = (WRValue *)value.va->get( entryKey.getHash() );
+							entry[0] = entryValue;
+							entry[1] = entryKey;
 						}
 					}
 					
@@ -274,5 +273,10 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 bool wr_deserialize( WRContext* context, WRValue& value, const char* buf, const int len )
 {
 	WRValueSerializer S( buf, len );
-	return wr_deserializeEx( value, S, context );
+	if ( !wr_deserializeEx(value, S, context) )
+	{
+		value.init();
+		return false;
+	}
+	return true;
 }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0eccd58..eea146d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -15543,7 +15543,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 					temp16 = wr_x16( temp16 );
 					
-					value.va = context->getSVA( temp16 - 1, SV_HASH_TABLE, false );
+					value.va = context->getSVA( temp16 ? temp16 - 1 : 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !value.va )
 					{
@@ -15561,20 +15561,19 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 							return false;
 						}
 
-						if ( !temp )
+						if ( temp )
 						{
-							value.va->m_Vdata[i<<1].init();
-							value.va->m_Vdata[(i<<1) + 1].init();
-							value.va->m_hashTable[i] = WRENCH_NULL_HASH;
-						}
-						else
-						{
-							if ( !wr_deserializeEx(value.va->m_Vdata[i<<1], serializer, context)
-								 || !wr_deserializeEx(value.va->m_Vdata[(i<<1)+1], serializer, context) )
+							WRValue entryValue;
+							WRValue entryKey;
+							if ( !wr_deserializeEx(entryValue, serializer, context)
+								 || !wr_deserializeEx(entryKey, serializer, context) )
 							{
 								return false;
 							}
-							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+
+							WRValue* entry = (WRValue *)value.va->get( entryKey.getHash() );
+							entry[0] = entryValue;
+							entry[1] = entryKey;
 						}
 					}
 					
@@ -15606,7 +15605,12 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 bool wr_deserialize( WRContext* context, WRValue& value, const char* buf, const int len )
 {
 	WRValueSerializer S( buf, len );
-	return wr_deserializeEx( value, S, context );
+	if ( !wr_deserializeEx(value, S, context) )
+	{
+		value.init();
+		return false;
+	}
+	return true;
 }
 /*******************************************************************************
 Copyright (c) 2026 Curt Hartung -- curt.hartung@gmail.com
-- 
2.43.0


From ebd3e369d4c700826c8bdc484127e4a40429e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:19 +0000
Subject: [PATCH 47/71] fix: WrenchValue::asArrayMember of a string wrote an
 element into the string's bytes

---
 discrete_src/utils/utils.cpp | 2 +-
 src/wrench.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index db952fd..255760c 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -123,7 +123,7 @@ float* WrenchValue::Float()
 //------------------------------------------------------------------------------
 WRValue* WrenchValue::asArrayMember( const int index )
 {
-	if ( !IS_ARRAY(m_value->xtype) ) 
+	if ( !IS_ARRAY(m_value->xtype) || m_value->va->m_type != SV_VALUE ) 
 	{
 		// then make it one!
 		m_value->va = m_context->getSVA( index + 1, SV_VALUE, true );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index eea146d..a5228f5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -13738,7 +13738,7 @@ float* WrenchValue::Float()
 //------------------------------------------------------------------------------
 WRValue* WrenchValue::asArrayMember( const int index )
 {
-	if ( !IS_ARRAY(m_value->xtype) ) 
+	if ( !IS_ARRAY(m_value->xtype) || m_value->va->m_type != SV_VALUE ) 
 	{
 		// then make it one!
 		m_value->va = m_context->getSVA( index + 1, SV_VALUE, true );
-- 
2.43.0


From a713d632f749634522285f7560bd32445fc32102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:37 +0000
Subject: [PATCH 48/71] fix: wr_getValueFromContainer added names that were not
 there instead of not finding them

---
 discrete_src/utils/utils.cpp | 2 +-
 src/wrench.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 255760c..ae287fc 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1334,7 +1334,7 @@ WRValue* wr_getValueFromContainer( WRValue const& container, const char* name )
 		return 0;
 	}
 
-	return (WRValue*)container.va->get( wr_hash(name, (const unsigned int)strlen(name)) );
+	return container.va->exists( wr_hash(name, (const unsigned int)strlen(name)), false );
 }
 
 #ifndef WRENCH_WITHOUT_COMPILER
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a5228f5..af32768 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14949,7 +14949,7 @@ WRValue* wr_getValueFromContainer( WRValue const& container, const char* name )
 		return 0;
 	}
 
-	return (WRValue*)container.va->get( wr_hash(name, (const unsigned int)strlen(name)) );
+	return container.va->exists( wr_hash(name, (const unsigned int)strlen(name)), false );
 }
 
 #ifndef WRENCH_WITHOUT_COMPILER
-- 
2.43.0


From 61745c9637f57501efa45248638ef88578743162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:05 +0000
Subject: [PATCH 49/71] fix: sys::isFunction reported names another program had
 looked for without finding them

---
 discrete_src/lib/std_sys.cpp | 5 +++--
 src/wrench.cpp               | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index 292c414..6d6215b 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -36,11 +36,12 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* arg = stackTop - argn;
 		uint32_t hash = arg->getHash();
-		if ( c->w->globalRegistry.exists(hash, false) )
+		WRValue* entry = c->w->globalRegistry.exists( hash, false ); // a failed lookup leaves an empty entry behind
+		if ( entry && entry->ccb )
 		{
 			stackTop->i = 1;
 		}
-		else if ( c->registry.exists(hash, false) )
+		else if ( (entry = c->registry.exists(hash, false)) && entry->wrf )
 		{
 			stackTop->i = 2;
 		}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index af32768..b8a0226 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23085,11 +23085,12 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* arg = stackTop - argn;
 		uint32_t hash = arg->getHash();
-		if ( c->w->globalRegistry.exists(hash, false) )
+		WRValue* entry = c->w->globalRegistry.exists( hash, false ); // a failed lookup leaves an empty entry behind
+		if ( entry && entry->ccb )
 		{
 			stackTop->i = 1;
 		}
-		else if ( c->registry.exists(hash, false) )
+		else if ( (entry = c->registry.exists(hash, false)) && entry->wrf )
 		{
 			stackTop->i = 2;
 		}
-- 
2.43.0


From a1cefadba66c27e1488d4096f206e5e129405875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:18 +0000
Subject: [PATCH 50/71] fix: a module that imports another while it is loaded
 lost it, leaking it and hiding its functions

---
 discrete_src/utils/utils.cpp | 27 ++++++++++++++++++---------
 src/wrench.cpp               | 27 ++++++++++++++++++---------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index ae287fc..52e789c 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -397,25 +397,34 @@ WRContext* wr_importAt( WRContext* context, const unsigned char* block, const in
 	// run it above whatever the importing context still has on the stack
 	import->stackOffset = (uint16_t)(stackTop - context->stack);
 
+	// make this a circular linked list, before it runs: it may import in turn
+	import->imported = context->imported ? context->imported : context;
+	context->imported = import;
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
+		WRContext* previous = context;
+		while( previous->imported != import )
+		{
+			previous = previous->imported;
+		}
+		previous->imported = import->imported;
+		if ( context->imported == context )
+		{
+			context->imported = 0;
+		}
+		import->imported = 0;
+
 		wr_destroyContextEx( import );
+
 		return 0;
 	}
 
 	import->stackOffset = 0;
 
-	import->imported = context->imported;
-	context->imported = import;
-
-	// make this a circular linked list
-	if ( import->imported == 0 )
-	{
-		import->imported = context;
-	}
-
 	return import;
+
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b8a0226..a60813c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14012,25 +14012,34 @@ WRContext* wr_importAt( WRContext* context, const unsigned char* block, const in
 	// run it above whatever the importing context still has on the stack
 	import->stackOffset = (uint16_t)(stackTop - context->stack);
 
+	// make this a circular linked list, before it runs: it may import in turn
+	import->imported = context->imported ? context->imported : context;
+	context->imported = import;
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
+		WRContext* previous = context;
+		while( previous->imported != import )
+		{
+			previous = previous->imported;
+		}
+		previous->imported = import->imported;
+		if ( context->imported == context )
+		{
+			context->imported = 0;
+		}
+		import->imported = 0;
+
 		wr_destroyContextEx( import );
+
 		return 0;
 	}
 
 	import->stackOffset = 0;
 
-	import->imported = context->imported;
-	context->imported = import;
-
-	// make this a circular linked list
-	if ( import->imported == 0 )
-	{
-		import->imported = context;
-	}
-
 	return import;
+
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 4b9f2781aaf222b8bdf5f965dd0ffb42bfdf085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:42 +0000
Subject: [PATCH 51/71] fix: a struct of an imported module made with arguments
 or inside a function got wrong members and unbalanced the stack

---
 discrete_src/vm/vm.cpp | 23 ++++++++++++-----------
 src/wrench.cpp         | 23 ++++++++++++-----------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 22be32d..d440f91 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -942,20 +942,21 @@ debugReturn:
 									// the actual table location and
 									// use it
 
-									if ( args ) // fix up the return value
-									{
-										stackTop -= (args - 1);
-										*(stackTop - 1) = *register0;
-									}
-									else
-									{
-										++stackTop;
-									}
-									
 									pc += 3;
 
-									wr_newObjectTable( context, stackTop++, 0, table );
+									// the import's frame starts one past the return value
+									register0 = wr_newObjectTable( context, stackTop + 1, 0, table );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+									if ( !register0 )
+									{
+										return 0;
+									}
+#endif
+									stackTop -= args; // the object replaces the arguments
+									*stackTop++ = *register0;
+									CHECK_STACK;
 									goto newObjOut;
+
 								}
 								
 								goto CallFunctionByHash_continue;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a60813c..ce12372 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11237,20 +11237,21 @@ debugReturn:
 									// the actual table location and
 									// use it
 
-									if ( args ) // fix up the return value
-									{
-										stackTop -= (args - 1);
-										*(stackTop - 1) = *register0;
-									}
-									else
-									{
-										++stackTop;
-									}
-									
 									pc += 3;
 
-									wr_newObjectTable( context, stackTop++, 0, table );
+									// the import's frame starts one past the return value
+									register0 = wr_newObjectTable( context, stackTop + 1, 0, table );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+									if ( !register0 )
+									{
+										return 0;
+									}
+#endif
+									stackTop -= args; // the object replaces the arguments
+									*stackTop++ = *register0;
+									CHECK_STACK;
 									goto newObjOut;
+
 								}
 								
 								goto CallFunctionByHash_continue;
-- 
2.43.0


From 4aa3548dd3722c6995c4d1ef34fa4be014d82be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:07 +0000
Subject: [PATCH 52/71] fix: what a script stored in a host container was freed
 by the second collection

---
 discrete_src/vm/gc.cpp | 12 ++++++++++++
 src/wrench.cpp         | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 1bcef06..79338e3 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -52,8 +52,20 @@ void WRContext::markBase( WRGCBase* svb )
 				uint32_t item = i<<1;
 				mark( ((WRGCObject*)svb)->m_Vdata + item++ );
 				mark( ((WRGCObject*)svb)->m_Vdata + item );
+
+				if ( (svb->m_flags & GCFlag_NoContext) && ((WRGCObject*)svb)->m_Vdata[i<<1].type == WR_REF )
+				{
+					mark( ((WRGCObject*)svb)->m_Vdata[i<<1].r ); // a host value scripts can write to
+				}
 			}
 		}
+
+		if ( svb->m_flags & GCFlag_NoContext )
+		{
+			// never swept, so this has to be taken off here or what it
+			// holds is not marked next time
+			svb->m_flags &= ~GCFlag_Marked;
+		}
 	}
 	else if ( svb->m_type == SV_HASH_ENTRY )
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index ce12372..6cf6531 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10131,8 +10131,20 @@ void WRContext::markBase( WRGCBase* svb )
 				uint32_t item = i<<1;
 				mark( ((WRGCObject*)svb)->m_Vdata + item++ );
 				mark( ((WRGCObject*)svb)->m_Vdata + item );
+
+				if ( (svb->m_flags & GCFlag_NoContext) && ((WRGCObject*)svb)->m_Vdata[i<<1].type == WR_REF )
+				{
+					mark( ((WRGCObject*)svb)->m_Vdata[i<<1].r ); // a host value scripts can write to
+				}
 			}
 		}
+
+		if ( svb->m_flags & GCFlag_NoContext )
+		{
+			// never swept, so this has to be taken off here or what it
+			// holds is not marked next time
+			svb->m_flags &= ~GCFlag_Marked;
+		}
 	}
 	else if ( svb->m_type == SV_HASH_ENTRY )
 	{
-- 
2.43.0


From 54a1a6ece96f924e9315b604e8fafc689dfdf2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:33 +0000
Subject: [PATCH 53/71] fix: io::deleteFile used the file name after freeing it

---
 discrete_src/lib/std_io.cpp | 2 +-
 src/wrench.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 1dd3387..b433b4a 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -127,7 +127,7 @@ void wr_delete_file( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn == 1 )
 	{
-		const char* filename = WRValue::MallocStrScoped(*(stackTop - 1));
+		WRValue::MallocStrScoped filename( *(stackTop - 1) );
 		if ( filename )
 		{
 #if defined(WRENCH_WIN32_FILE_IO)
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6cf6531..a567ab1 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20507,7 +20507,7 @@ void wr_delete_file( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn == 1 )
 	{
-		const char* filename = WRValue::MallocStrScoped(*(stackTop - 1));
+		WRValue::MallocStrScoped filename( *(stackTop - 1) );
 		if ( filename )
 		{
 #if defined(WRENCH_WIN32_FILE_IO)
-- 
2.43.0


From 7a3f12aa87e21c3ab0c74e6002813fe111a96b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:56 +0000
Subject: [PATCH 54/71] fix: io::readFile leaked the file when it is empty or
 cannot be read, and closed a null file

---
 discrete_src/lib/std_io.cpp | 9 +++++----
 src/wrench.cpp              | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index b433b4a..225820c 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -81,17 +81,18 @@ void wr_read_file( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !stackTop->va )
 				{
+					fclose( infil );
 					return;
 				}
 #endif
 				stackTop->p2 = INIT_AS_ARRAY;
-				if ( fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1 )
+				if ( sbuf.st_size && (fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1) )
 				{
-					return;
+					stackTop->init();
 				}
-			}
 
-			fclose( infil );
+				fclose( infil );
+			}
 		}
 	}
 }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a567ab1..a92b0e1 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20461,17 +20461,18 @@ void wr_read_file( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !stackTop->va )
 				{
+					fclose( infil );
 					return;
 				}
 #endif
 				stackTop->p2 = INIT_AS_ARRAY;
-				if ( fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1 )
+				if ( sbuf.st_size && (fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1) )
 				{
-					return;
+					stackTop->init();
 				}
-			}
 
-			fclose( infil );
+				fclose( infil );
+			}
 		}
 	}
 }
-- 
2.43.0


From bdf49c30ef5a0dae24f32a28dcbfa3ae189abbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:18 +0000
Subject: [PATCH 55/71] fix: io::getline lost a character every 256

---
 discrete_src/lib/std_io.cpp | 4 ++--
 src/wrench.cpp              | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 225820c..1b1b307 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -148,9 +148,9 @@ void wr_getline( WRValue* stackTop, const int argn, WRContext* c )
 	int pos = 0;
 	for (;;)
 	{
-		int in = fgetc( stdin );
+		int in = pos < (int)sizeof(buf) ? fgetc( stdin ) : EOF; // what does not fit is left for the next call
 
-		if ( in == EOF || in == '\n' || in == '\r' || pos >= 256 )
+		if ( in == EOF || in == '\n' || in == '\r' )
 		{ 
 			stackTop->va = c->getSVA( pos, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a92b0e1..c4cf17d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20528,9 +20528,9 @@ void wr_getline( WRValue* stackTop, const int argn, WRContext* c )
 	int pos = 0;
 	for (;;)
 	{
-		int in = fgetc( stdin );
+		int in = pos < (int)sizeof(buf) ? fgetc( stdin ) : EOF; // what does not fit is left for the next call
 
-		if ( in == EOF || in == '\n' || in == '\r' || pos >= 256 )
+		if ( in == EOF || in == '\n' || in == '\r' )
 		{ 
 			stackTop->va = c->getSVA( pos, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-- 
2.43.0


From b610b61cc43f78412314e952335cd7ecea69bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:43 +0000
Subject: [PATCH 56/71] fix: io::write of host memory took the first bytes of
 it for its size and address

---
 discrete_src/lib/std_io.cpp | 6 +++---
 src/wrench.cpp              | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 1b1b307..43bce8e 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -276,17 +276,17 @@ void wr_ioWrite( WRValue* stackTop, const int argn, WRContext* c )
 		}
 		else if ( IS_RAW_ARRAY(data.xtype) )
 		{
-			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2);
+			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.p2);
 			if ( argn > 2 )
 			{
 				size = args[2].asInt();
 			}
 
 #if defined(WRENCH_WIN32_FILE_IO)
-			stackTop->i = _write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = _write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 		}
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c4cf17d..2dabefe 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20656,17 +20656,17 @@ void wr_ioWrite( WRValue* stackTop, const int argn, WRContext* c )
 		}
 		else if ( IS_RAW_ARRAY(data.xtype) )
 		{
-			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2);
+			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.p2);
 			if ( argn > 2 )
 			{
 				size = args[2].asInt();
 			}
 
 #if defined(WRENCH_WIN32_FILE_IO)
-			stackTop->i = _write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = _write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 		}
 	}
-- 
2.43.0


From 2af4cb9d6b19fe70894b94a1aa627662e7c4a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:23 +0000
Subject: [PATCH 57/71] fix: a collection followed host values behind a
 container's members, which the host may have dropped

---
 discrete_src/vm/gc.cpp | 5 -----
 src/wrench.cpp         | 5 -----
 2 files changed, 10 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 79338e3..a097243 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -52,11 +52,6 @@ void WRContext::markBase( WRGCBase* svb )
 				uint32_t item = i<<1;
 				mark( ((WRGCObject*)svb)->m_Vdata + item++ );
 				mark( ((WRGCObject*)svb)->m_Vdata + item );
-
-				if ( (svb->m_flags & GCFlag_NoContext) && ((WRGCObject*)svb)->m_Vdata[i<<1].type == WR_REF )
-				{
-					mark( ((WRGCObject*)svb)->m_Vdata[i<<1].r ); // a host value scripts can write to
-				}
 			}
 		}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2dabefe..3f387fe 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10131,11 +10131,6 @@ void WRContext::markBase( WRGCBase* svb )
 				uint32_t item = i<<1;
 				mark( ((WRGCObject*)svb)->m_Vdata + item++ );
 				mark( ((WRGCObject*)svb)->m_Vdata + item );
-
-				if ( (svb->m_flags & GCFlag_NoContext) && ((WRGCObject*)svb)->m_Vdata[i<<1].type == WR_REF )
-				{
-					mark( ((WRGCObject*)svb)->m_Vdata[i<<1].r ); // a host value scripts can write to
-				}
 			}
 		}
 
-- 
2.43.0


From 3c33f27fcd8727507a4f00f4843c0419cfe42475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:59 +0000
Subject: [PATCH 58/71] fix: indexing a host container with a string left it
 holding a string it does not keep alive

---
 discrete_src/vm/index.cpp | 11 ++++++++++-
 src/wrench.cpp            | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 8a29134..1117029 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -74,7 +74,16 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 		WRValue* entry = (WRValue*)(value->va->get(hash, &element));
 
 		// need to create a hash ref
-		*(entry + 1) = *index; // might be the first time it was registered
+		if ( !(value->va->m_flags & GCFlag_NoContext) )
+		{
+			*(entry + 1) = *index; // might be the first time it was registered
+		}
+		else if ( !IS_EXARRAY_TYPE((entry + 1)->xtype) )
+		{
+			// the host's container outlives what scripts index it with
+			(entry + 1)->p2 = INIT_AS_INT;
+			(entry + 1)->ui = hash;
+		}
 
 		target->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( element );
 		target->vb = (WRGCBase*)(value->va->m_Vdata) - 1;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3f387fe..7bb5523 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19861,7 +19861,16 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 		WRValue* entry = (WRValue*)(value->va->get(hash, &element));
 
 		// need to create a hash ref
-		*(entry + 1) = *index; // might be the first time it was registered
+		if ( !(value->va->m_flags & GCFlag_NoContext) )
+		{
+			*(entry + 1) = *index; // might be the first time it was registered
+		}
+		else if ( !IS_EXARRAY_TYPE((entry + 1)->xtype) )
+		{
+			// the host's container outlives what scripts index it with
+			(entry + 1)->p2 = INIT_AS_INT;
+			(entry + 1)->ui = hash;
+		}
 
 		target->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( element );
 		target->vb = (WRGCBase*)(value->va->m_Vdata) - 1;
-- 
2.43.0


From f621b26dd77175c88b0f6f96dd30e9192251451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:15 +0000
Subject: [PATCH 59/71] hook: WRENCH_VM_MONITOR shows every instruction to a
 monitor

---
 discrete_src/vm/vm.cpp | 6 ++++++
 src/wrench.cpp         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index d440f91..e5a2d11 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -167,7 +167,13 @@ static void dumpStack( const WRValue* bottom, const WRValue* top )
 */
 //#define DEBUG_PER_INSTRUCTION { printf( "%s\n", c_opcodeName[(int)*pc] ); }
 
+#ifdef WRENCH_VM_MONITOR
+// supplied by whoever builds with this on: sees every instruction about to be dispatched
+void wr_vmMonitor( const void* context, const unsigned char* pc, const WRValue* stackTop, const WRValue* frameBase, const WRValue* stackBase );
+#define DEBUG_PER_INSTRUCTION wr_vmMonitor( context, pc, stackTop, frameBase, stackBase )
+#else
 #define DEBUG_PER_INSTRUCTION
+#endif
 
 //------------------------------------------------------------------------------
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 7bb5523..2fa02be 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10469,7 +10469,13 @@ static void dumpStack( const WRValue* bottom, const WRValue* top )
 */
 //#define DEBUG_PER_INSTRUCTION { printf( "%s\n", c_opcodeName[(int)*pc] ); }
 
+#ifdef WRENCH_VM_MONITOR
+// supplied by whoever builds with this on: sees every instruction about to be dispatched
+void wr_vmMonitor( const void* context, const unsigned char* pc, const WRValue* stackTop, const WRValue* frameBase, const WRValue* stackBase );
+#define DEBUG_PER_INSTRUCTION wr_vmMonitor( context, pc, stackTop, frameBase, stackBase )
+#else
 #define DEBUG_PER_INSTRUCTION
+#endif
 
 //------------------------------------------------------------------------------
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-- 
2.43.0


From b83e970be7172b3d3ad733342bc6df7bf944966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:39 +0000
Subject: [PATCH 60/71] fix: _remove on a string or raw array read the element
 type through a pointer it had just overwritten

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index e5a2d11..2a63ddb 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1261,7 +1261,7 @@ callFunction:
 							va->m_Vdata[move] = va->m_Vdata[move+1];
 						}
 					}
-					else if ( register0->va->m_type == SV_CHAR )
+					else if ( va->m_type == SV_CHAR ) // va shares storage with register0
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
 						{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2fa02be..3733e21 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11563,7 +11563,7 @@ callFunction:
 							va->m_Vdata[move] = va->m_Vdata[move+1];
 						}
 					}
-					else if ( register0->va->m_type == SV_CHAR )
+					else if ( va->m_type == SV_CHAR ) // va shares storage with register0
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
 						{
-- 
2.43.0


From 11e2b3ff49550555925256e72bbe068c0bfa02eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:01 +0000
Subject: [PATCH 61/71] fix: turning a value into a hash table by naming a
 member could collect the new table at once

---
 discrete_src/vm/vm.cpp | 4 +++-
 src/wrench.cpp         | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 2a63ddb..fc9fe79 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1409,6 +1409,9 @@ hashIndexJump:
 				pc += 4;
 				if ( !EXPECTS_HASH_INDEX(register0->xtype) )
 				{
+					// before, not after: the value might be one nothing else refers to
+					context->gc(stackTop);
+
 					register0->p2 = INIT_AS_HASH_TABLE;
 					register0->va = context->getSVA( 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -1417,7 +1420,6 @@ hashIndexJump:
 						CONTINUE;
 					}
 #endif
-					context->gc(stackTop);
 				}
 
 #ifdef WRENCH_COMPACT
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3733e21..d73d6f5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11711,6 +11711,9 @@ hashIndexJump:
 				pc += 4;
 				if ( !EXPECTS_HASH_INDEX(register0->xtype) )
 				{
+					// before, not after: the value might be one nothing else refers to
+					context->gc(stackTop);
+
 					register0->p2 = INIT_AS_HASH_TABLE;
 					register0->va = context->getSVA( 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -11719,7 +11722,6 @@ hashIndexJump:
 						CONTINUE;
 					}
 #endif
-					context->gc(stackTop);
 				}
 
 #ifdef WRENCH_COMPACT
-- 
2.43.0


From 8d6710c9e0a6b6ee3bd88586cb10a3c4c2abbe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:32 +0000
Subject: [PATCH 62/71] fix: hashing a container that contains itself never
 ended

---
 discrete_src/vm/operations.cpp | 25 ++++++++++++++++++++-----
 discrete_src/wrench.h          |  2 +-
 src/wrench.cpp                 | 25 ++++++++++++++++++++-----
 src/wrench.h                   |  2 +-
 4 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index d30c68c..2db2e3b 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -203,17 +203,20 @@ WRValue& WRValue::deref() const
 }
 
 //------------------------------------------------------------------------------
-uint32_t WRValue::getHashEx() const
+static const int c_maxHashDepth = 8; // deeper differences do not count
+
+uint32_t WRValue::getHashEx( const int depth ) const
 {
 	// QUICKLY return the easy answers, that's why this code looks a bit convoluted
 	if (type == WR_REF)
 	{
-		return r->getHash();
+		return (r->type <= WR_FLOAT) ? r->ui : r->getHashEx( depth );
 	}
 
 	if (IS_CONTAINER_MEMBER(xtype))
 	{
-		return deref().getHash();
+		const WRValue& V = deref();
+		return (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth );
 	}
 	else if (xtype == WR_EX_ARRAY)
 	{
@@ -228,6 +231,11 @@ uint32_t WRValue::getHashEx() const
 	}
 	else if (xtype == WR_EX_HASH_TABLE)
 	{
+		if ( depth > c_maxHashDepth )
+		{
+			return 0; // containers can contain themselves
+		}
+
 		// start with a hash of the key hashes
 		uint32_t hash = wr_hash(va->m_hashTable, va->m_mod * sizeof(uint32_t));
 
@@ -236,7 +244,8 @@ uint32_t WRValue::getHashEx() const
 		{
 			if (va->m_hashTable[e] != WRENCH_NULL_HASH)
 			{
-				uint32_t h = e << 16 | va->m_Vdata[e << 1].getHash();
+				const WRValue& V = va->m_Vdata[e << 1];
+				uint32_t h = e << 16 | ((V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth + 1 ));
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
@@ -244,6 +253,11 @@ uint32_t WRValue::getHashEx() const
 	}
 	else if (xtype == WR_EX_STRUCT)
 	{
+		if ( depth > c_maxHashDepth )
+		{
+			return 0;
+		}
+
 		uint32_t hash = wr_hash((char*)&va->m_hashTable, sizeof(void*)); // this is in ROM and must be identical for the struct to be the same (same namespace)
 
 		for (uint32_t m = 0; m < va->m_mod; ++m)
@@ -251,7 +265,8 @@ uint32_t WRValue::getHashEx() const
 			const uint8_t* offset = va->m_ROMHashTable + (m * 5);
 			if ((uint32_t)READ_32_FROM_PC(offset) != WRENCH_NULL_HASH)
 			{
-				uint32_t h = va->m_Vdata[READ_8_FROM_PC(offset + 4)].getHash();
+				const WRValue& V = va->m_Vdata[READ_8_FROM_PC(offset + 4)];
+				uint32_t h = (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth + 1 );
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index 1e060bd..0529564 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -873,7 +873,7 @@ struct WRValue
 	WRValue& deref() const; // if this value is a CONTAINER_MEMBER, copy the referred value in
 
 	uint32_t getHash() const { return (type <= WR_FLOAT) ? ui : getHashEx(); } // easy cases
-	uint32_t getHashEx() const; // harder
+	uint32_t getHashEx( const int depth =0 ) const; // harder
 
 	union // first 4 bytes 
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d73d6f5..f74ca86 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18326,17 +18326,20 @@ WRValue& WRValue::deref() const
 }
 
 //------------------------------------------------------------------------------
-uint32_t WRValue::getHashEx() const
+static const int c_maxHashDepth = 8; // deeper differences do not count
+
+uint32_t WRValue::getHashEx( const int depth ) const
 {
 	// QUICKLY return the easy answers, that's why this code looks a bit convoluted
 	if (type == WR_REF)
 	{
-		return r->getHash();
+		return (r->type <= WR_FLOAT) ? r->ui : r->getHashEx( depth );
 	}
 
 	if (IS_CONTAINER_MEMBER(xtype))
 	{
-		return deref().getHash();
+		const WRValue& V = deref();
+		return (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth );
 	}
 	else if (xtype == WR_EX_ARRAY)
 	{
@@ -18351,6 +18354,11 @@ uint32_t WRValue::getHashEx() const
 	}
 	else if (xtype == WR_EX_HASH_TABLE)
 	{
+		if ( depth > c_maxHashDepth )
+		{
+			return 0; // containers can contain themselves
+		}
+
 		// start with a hash of the key hashes
 		uint32_t hash = wr_hash(va->m_hashTable, va->m_mod * sizeof(uint32_t));
 
@@ -18359,7 +18367,8 @@ uint32_t WRValue::getHashEx() const
 		{
 			if (va->m_hashTable[e] != WRENCH_NULL_HASH)
 			{
-				uint32_t h = e << 16 | va->m_Vdata[e << 1].getHash();
+				const WRValue& V = va->m_Vdata[e << 1];
+				uint32_t h = e << 16 | ((V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth + 1 ));
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
@@ -18367,6 +18376,11 @@ uint32_t WRValue::getHashEx() const
 	}
 	else if (xtype == WR_EX_STRUCT)
 	{
+		if ( depth > c_maxHashDepth )
+		{
+			return 0;
+		}
+
 		uint32_t hash = wr_hash((char*)&va->m_hashTable, sizeof(void*)); // this is in ROM and must be identical for the struct to be the same (same namespace)
 
 		for (uint32_t m = 0; m < va->m_mod; ++m)
@@ -18374,7 +18388,8 @@ uint32_t WRValue::getHashEx() const
 			const uint8_t* offset = va->m_ROMHashTable + (m * 5);
 			if ((uint32_t)READ_32_FROM_PC(offset) != WRENCH_NULL_HASH)
 			{
-				uint32_t h = va->m_Vdata[READ_8_FROM_PC(offset + 4)].getHash();
+				const WRValue& V = va->m_Vdata[READ_8_FROM_PC(offset + 4)];
+				uint32_t h = (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth + 1 );
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
diff --git a/src/wrench.h b/src/wrench.h
index c7c97ad..3c693bb 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -874,7 +874,7 @@ struct WRValue
 	WRValue& deref() const; // if this value is a CONTAINER_MEMBER, copy the referred value in
 
 	uint32_t getHash() const { return (type <= WR_FLOAT) ? ui : getHashEx(); } // easy cases
-	uint32_t getHashEx() const; // harder
+	uint32_t getHashEx( const int depth =0 ) const; // harder
 
 	union // first 4 bytes 
 	{
-- 
2.43.0


From 1a9eb0dc8da583fb91e718a055a16808212f6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:53 +0000
Subject: [PATCH 63/71] fix: indexing a value by itself or by an element it
 holds used storage it had just replaced

---
 discrete_src/vm/index.cpp | 34 +++++++++++++++++++++++-----------
 src/wrench.cpp            | 34 +++++++++++++++++++++++-----------
 2 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 1117029..ff01240 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -104,14 +104,16 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
-	if ( index->ui > WR_MAX_ARRAY_INDEX )
+	const uint32_t i = index->ui; // the index might be the value, or inside it
+
+	if ( i > WR_MAX_ARRAY_INDEX )
 	{
 		target->init();
 		return;
 	}
 
 	// all we know is the value is not an array, so make it one
-	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
+	value->va = c->getSVA( i + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !value->va )
 	{
@@ -121,7 +123,7 @@ void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #endif
 	value->p2 = INIT_AS_ARRAY;
 	
-	arrayElementToTarget( index->ui, target, value );
+	arrayElementToTarget( i, target, value );
 }
 
 //------------------------------------------------------------------------------
@@ -137,6 +139,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 	else
 	{
 		value = &value->deref();
+		const uint32_t i = index->ui; // the index might be the value, or inside it
 
 		if (EXPECTS_HASH_INDEX(value->xtype))
 		{
@@ -149,7 +152,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 
 		if ( IS_RAW_ARRAY(value->xtype) )
 		{
-			if ( index->ui >= (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(value->p2)) )
+			if ( i >= (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(value->p2)) )
 			{
 				goto boundsFailed;
 			}
@@ -158,15 +161,19 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		{
 			// nope, make it one of this size and return a ref
 			WRValue* I = &index->deref();
+			if ( I == value )
+			{
+				goto boundsFailed; // indexed by itself
+			}
 
 			if ( I->type == WR_INT )
 			{
-				if ( index->ui > WR_MAX_ARRAY_INDEX )
+				if ( i > WR_MAX_ARRAY_INDEX )
 				{
 					goto boundsFailed;
 				}
 
-				value->va = c->getSVA( index->ui+1, SV_VALUE, true );
+				value->va = c->getSVA( i + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
 				{
@@ -192,19 +199,19 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				return;
 			}
 		}
-		else if ( index->ui >= value->va->m_size )
+		else if ( i >= value->va->m_size )
 		{
-			if ( (value->va->m_flags & GCFlag_NoContext) || (index->ui > WR_MAX_ARRAY_INDEX) )
+			if ( (value->va->m_flags & GCFlag_NoContext) || (i > WR_MAX_ARRAY_INDEX) )
 			{
 boundsFailed:
 				target->init();
 				return;
 			}
 
-			wr_growValueArray( value->va, index->ui );
+			wr_growValueArray( value->va, i );
 		}
 
-		arrayElementToTarget( index->ui, target, value );
+		arrayElementToTarget( i, target, value );
 	}
 }
 
@@ -213,6 +220,11 @@ void doIndex_E_I( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 {
 	// a float or int is being indexed, make it a hash table and "index" it
 	WRValue* V = &(value->deref());
+	if ( V == &(index->deref()) )
+	{
+		target->init(); // indexed by itself
+		return;
+	}
 
 	V->va = c->getSVA( 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -253,7 +265,7 @@ void doIndex_E_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 }
 
 
-void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) {}
+void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { target->init(); }
 
 void doIndex_R_R( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { wr_index[(index->r->type<<2)|value->r->type](c, index->r, value->r, target); }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f74ca86..1a1aedb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19914,14 +19914,16 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
-	if ( index->ui > WR_MAX_ARRAY_INDEX )
+	const uint32_t i = index->ui; // the index might be the value, or inside it
+
+	if ( i > WR_MAX_ARRAY_INDEX )
 	{
 		target->init();
 		return;
 	}
 
 	// all we know is the value is not an array, so make it one
-	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
+	value->va = c->getSVA( i + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !value->va )
 	{
@@ -19931,7 +19933,7 @@ void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #endif
 	value->p2 = INIT_AS_ARRAY;
 	
-	arrayElementToTarget( index->ui, target, value );
+	arrayElementToTarget( i, target, value );
 }
 
 //------------------------------------------------------------------------------
@@ -19947,6 +19949,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 	else
 	{
 		value = &value->deref();
+		const uint32_t i = index->ui; // the index might be the value, or inside it
 
 		if (EXPECTS_HASH_INDEX(value->xtype))
 		{
@@ -19959,7 +19962,7 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 
 		if ( IS_RAW_ARRAY(value->xtype) )
 		{
-			if ( index->ui >= (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(value->p2)) )
+			if ( i >= (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(value->p2)) )
 			{
 				goto boundsFailed;
 			}
@@ -19968,15 +19971,19 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		{
 			// nope, make it one of this size and return a ref
 			WRValue* I = &index->deref();
+			if ( I == value )
+			{
+				goto boundsFailed; // indexed by itself
+			}
 
 			if ( I->type == WR_INT )
 			{
-				if ( index->ui > WR_MAX_ARRAY_INDEX )
+				if ( i > WR_MAX_ARRAY_INDEX )
 				{
 					goto boundsFailed;
 				}
 
-				value->va = c->getSVA( index->ui+1, SV_VALUE, true );
+				value->va = c->getSVA( i + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
 				{
@@ -20002,19 +20009,19 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 				return;
 			}
 		}
-		else if ( index->ui >= value->va->m_size )
+		else if ( i >= value->va->m_size )
 		{
-			if ( (value->va->m_flags & GCFlag_NoContext) || (index->ui > WR_MAX_ARRAY_INDEX) )
+			if ( (value->va->m_flags & GCFlag_NoContext) || (i > WR_MAX_ARRAY_INDEX) )
 			{
 boundsFailed:
 				target->init();
 				return;
 			}
 
-			wr_growValueArray( value->va, index->ui );
+			wr_growValueArray( value->va, i );
 		}
 
-		arrayElementToTarget( index->ui, target, value );
+		arrayElementToTarget( i, target, value );
 	}
 }
 
@@ -20023,6 +20030,11 @@ void doIndex_E_I( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 {
 	// a float or int is being indexed, make it a hash table and "index" it
 	WRValue* V = &(value->deref());
+	if ( V == &(index->deref()) )
+	{
+		target->init(); // indexed by itself
+		return;
+	}
 
 	V->va = c->getSVA( 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -20063,7 +20075,7 @@ void doIndex_E_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 }
 
 
-void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) {}
+void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { target->init(); }
 
 void doIndex_R_R( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { wr_index[(index->r->type<<2)|value->r->type](c, index->r, value->r, target); }
 
-- 
2.43.0


From f8dc8e17735c5cd796e9a479ee3faa952c9b7e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:18 +0000
Subject: [PATCH 64/71] fix: array::clear read its size argument after
 overwriting the value it refers to

---
 discrete_src/lib/std_container.cpp | 3 +--
 src/wrench.cpp                     | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index f211327..7f37372 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -59,14 +59,13 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 
 		WRValue* A = &(args->deref());
 
-		A->p2 = INIT_AS_ARRAY;
-
 		unsigned int count = 0;
 		if ( argn > 1 )
 		{
 			count = args[1].asInt();
 		}
 		
+		A->p2 = INIT_AS_ARRAY;
 		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 1a1aedb..7977ba1 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23361,14 +23361,13 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 
 		WRValue* A = &(args->deref());
 
-		A->p2 = INIT_AS_ARRAY;
-
 		unsigned int count = 0;
 		if ( argn > 1 )
 		{
 			count = args[1].asInt();
 		}
 		
+		A->p2 = INIT_AS_ARRAY;
 		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
-- 
2.43.0


From a82c0bbdadbcf10ad214e78007a25e32f9a23c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:42 +0000
Subject: [PATCH 65/71] fix: an operation without a result left whatever was on
 the stack as its value

---
 discrete_src/vm/operations_compact.cpp     |  4 ++--
 discrete_src/vm/operations_non_compact.cpp |  6 +++---
 src/wrench.cpp                             | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index d49f8e8..df2ebcc 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -155,9 +155,9 @@ void FuncBinary_E_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall
 		WRValue& V2 = from->deref();
 		wr_funcBinary[(V1.type<<2)|V2.type](&V1, &V2, target, intCall, floatCall );
 	}
-	else if ( intCall == wr_addI )
+	else if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
 	{
-		wr_concatStringCheck( to, from, target );
+		target->init(); // no string in it, there is no sum
 	}
 }
 void FuncBinary_X_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall intCall, WRFuncFloatCall floatCall  )
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 5006d1d..fa441ec 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -634,9 +634,9 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 		WRValue& V2 = from->deref();
 		wr_AdditionBinary[(V1.type<<2)|V2.type](&V1, &V2, target);
 	}
-	else
+	else if ( !wr_concatStringCheck(to, from, target) )
 	{
-		wr_concatStringCheck( to, from, target );
+		target->init(); // no string in it, there is no sum
 	}
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
@@ -667,7 +667,7 @@ WRTargetFunc wr_AdditionBinary[16] =
 };
 
 
-void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
+void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) { target->init(); }
 
 //------------------------------------------------------------------------------
 #define X_INT_BINARY( NAME, OPERATION ) \
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 7977ba1..668db0b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18791,9 +18791,9 @@ void FuncBinary_E_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall
 		WRValue& V2 = from->deref();
 		wr_funcBinary[(V1.type<<2)|V2.type](&V1, &V2, target, intCall, floatCall );
 	}
-	else if ( intCall == wr_addI )
+	else if ( intCall != wr_addI || !wr_concatStringCheck(to, from, target) )
 	{
-		wr_concatStringCheck( to, from, target );
+		target->init(); // no string in it, there is no sum
 	}
 }
 void FuncBinary_X_E( WRValue* to, WRValue* from, WRValue* target, WRFuncIntCall intCall, WRFuncFloatCall floatCall  )
@@ -19530,9 +19530,9 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 		WRValue& V2 = from->deref();
 		wr_AdditionBinary[(V1.type<<2)|V2.type](&V1, &V2, target);
 	}
-	else
+	else if ( !wr_concatStringCheck(to, from, target) )
 	{
-		wr_concatStringCheck( to, from, target );
+		target->init(); // no string in it, there is no sum
 	}
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
@@ -19563,7 +19563,7 @@ WRTargetFunc wr_AdditionBinary[16] =
 };
 
 
-void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
+void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) { target->init(); }
 
 //------------------------------------------------------------------------------
 #define X_INT_BINARY( NAME, OPERATION ) \
-- 
2.43.0


From 68fd290927dd1c3327ecd0a73d508bfd05986c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:22 +0000
Subject: [PATCH 66/71] fix: an expression with nothing in it was accepted and
 the code for it took a value off the stack that was never put there

---
 discrete_src/cc/cc.cpp | 39 +++++++++++++++++++++++++++++++++------
 src/wrench.cpp         | 39 +++++++++++++++++++++++++++++++++------
 2 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 95f91f9..57452ec 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1089,6 +1089,12 @@ void WRCompilationContext::resolveExpression( WRExpression& expression )
 {
 	if ( expression.context.count() == 1 ) // single expression is trivial to resolve, load it!
 	{
+		if ( expression.context[0].type == EXTYPE_OPERATION ) // operator with nothing to operate on
+		{
+			m_err = WR_ERR_bad_expression;
+			return;
+		}
+
 		loadExpressionContext( expression, 0, 0 );
 		return;
 	}
@@ -1437,6 +1443,11 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 			m_loadedQuoted = m_quoted;
 			
 			char end = parseExpression( nex );
+			if ( !nex.bytecode.all.size() )
+			{
+				m_err = m_err ? m_err : WR_ERR_bad_expression;
+				return false;
+			}
 
 			if ( nex.bytecode.opcodes.size() > 0 )
 			{
@@ -1956,7 +1967,7 @@ bool WRCompilationContext::parseWhile( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' )
+	if ( parseExpression(nex) != ')' || !nex.bytecode.all.size() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -2031,7 +2042,7 @@ bool WRCompilationContext::parseDoWhile( WROpcode opcodeToReturn )
 	//m_loadedToken = token;
 	//m_loadedValue = value;
 
-	if ( parseExpression(nex) != ')' )
+	if ( parseExpression(nex) != ')' || !nex.bytecode.all.size() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -2135,6 +2146,11 @@ A:
 		m_loadedQuoted = m_quoted;
 
 		char end = parseExpression( nex );
+		if ( !nex.bytecode.all.size() )
+		{
+			m_err = m_err ? m_err : WR_ERR_bad_expression;
+			return false;
+		}
 
 		if ( foreachPossible )
 		{
@@ -2316,7 +2332,7 @@ A:
 			m_loadedValue = value;
 			m_loadedQuoted = m_quoted;
 
-			if ( parseExpression( nex ) != ';' )
+			if ( parseExpression( nex ) != ';' || !nex.bytecode.all.size() )
 			{
 				m_err = WR_ERR_unexpected_token;
 				return false;
@@ -2353,6 +2369,11 @@ A:
 			m_loadedQuoted = m_quoted;
 
 			char end = parseExpression( nex );
+			if ( !nex.bytecode.all.size() )
+			{
+				m_err = m_err ? m_err : WR_ERR_bad_expression;
+				return false;
+			}
 			pushOpcode( nex.bytecode, O_PopOne );
 
 			appendBytecode( post.bytecode, nex.bytecode );
@@ -2659,7 +2680,7 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	selectionCriteria.context[0].token = token;
 	selectionCriteria.context[0].value = value;
 	
-	if ( parseExpression(selectionCriteria) != ')' )
+	if ( parseExpression(selectionCriteria) != ')' || !selectionCriteria.bytecode.all.size() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -2971,7 +2992,7 @@ bool WRCompilationContext::parseIf( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' || m_err )
+	if ( parseExpression(nex) != ')' || m_err || !nex.bytecode.all.size() )
 	{
 		m_err = m_err ? m_err : WR_ERR_unexpected_token;
 		return false;
@@ -3095,7 +3116,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				m_loadedValue = ex.value;
 				m_loadedQuoted = m_quoted;
 
-				if ( parseExpression( nex ) != ';')
+				if ( parseExpression( nex ) != ';' || !nex.bytecode.all.size() )
 				{
 					m_err = WR_ERR_unexpected_token;
 					return false;
@@ -3261,6 +3282,12 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				return false;
 			}
 
+			if ( !nex.bytecode.all.size() ) // there would be nothing to pop
+			{
+				m_err = m_err ? m_err : WR_ERR_bad_expression;
+				return false;
+			}
+
 			appendBytecode( m_units[unitIndex].bytecode, nex.bytecode );
 			pushOpcode( m_units[unitIndex].bytecode, O_PopOne );
 		}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 668db0b..3842b16 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4147,6 +4147,12 @@ void WRCompilationContext::resolveExpression( WRExpression& expression )
 {
 	if ( expression.context.count() == 1 ) // single expression is trivial to resolve, load it!
 	{
+		if ( expression.context[0].type == EXTYPE_OPERATION ) // operator with nothing to operate on
+		{
+			m_err = WR_ERR_bad_expression;
+			return;
+		}
+
 		loadExpressionContext( expression, 0, 0 );
 		return;
 	}
@@ -4495,6 +4501,11 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 			m_loadedQuoted = m_quoted;
 			
 			char end = parseExpression( nex );
+			if ( !nex.bytecode.all.size() )
+			{
+				m_err = m_err ? m_err : WR_ERR_bad_expression;
+				return false;
+			}
 
 			if ( nex.bytecode.opcodes.size() > 0 )
 			{
@@ -5014,7 +5025,7 @@ bool WRCompilationContext::parseWhile( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' )
+	if ( parseExpression(nex) != ')' || !nex.bytecode.all.size() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -5089,7 +5100,7 @@ bool WRCompilationContext::parseDoWhile( WROpcode opcodeToReturn )
 	//m_loadedToken = token;
 	//m_loadedValue = value;
 
-	if ( parseExpression(nex) != ')' )
+	if ( parseExpression(nex) != ')' || !nex.bytecode.all.size() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -5193,6 +5204,11 @@ A:
 		m_loadedQuoted = m_quoted;
 
 		char end = parseExpression( nex );
+		if ( !nex.bytecode.all.size() )
+		{
+			m_err = m_err ? m_err : WR_ERR_bad_expression;
+			return false;
+		}
 
 		if ( foreachPossible )
 		{
@@ -5374,7 +5390,7 @@ A:
 			m_loadedValue = value;
 			m_loadedQuoted = m_quoted;
 
-			if ( parseExpression( nex ) != ';' )
+			if ( parseExpression( nex ) != ';' || !nex.bytecode.all.size() )
 			{
 				m_err = WR_ERR_unexpected_token;
 				return false;
@@ -5411,6 +5427,11 @@ A:
 			m_loadedQuoted = m_quoted;
 
 			char end = parseExpression( nex );
+			if ( !nex.bytecode.all.size() )
+			{
+				m_err = m_err ? m_err : WR_ERR_bad_expression;
+				return false;
+			}
 			pushOpcode( nex.bytecode, O_PopOne );
 
 			appendBytecode( post.bytecode, nex.bytecode );
@@ -5717,7 +5738,7 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	selectionCriteria.context[0].token = token;
 	selectionCriteria.context[0].value = value;
 	
-	if ( parseExpression(selectionCriteria) != ')' )
+	if ( parseExpression(selectionCriteria) != ')' || !selectionCriteria.bytecode.all.size() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -6029,7 +6050,7 @@ bool WRCompilationContext::parseIf( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' || m_err )
+	if ( parseExpression(nex) != ')' || m_err || !nex.bytecode.all.size() )
 	{
 		m_err = m_err ? m_err : WR_ERR_unexpected_token;
 		return false;
@@ -6153,7 +6174,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				m_loadedValue = ex.value;
 				m_loadedQuoted = m_quoted;
 
-				if ( parseExpression( nex ) != ';')
+				if ( parseExpression( nex ) != ';' || !nex.bytecode.all.size() )
 				{
 					m_err = WR_ERR_unexpected_token;
 					return false;
@@ -6319,6 +6340,12 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				return false;
 			}
 
+			if ( !nex.bytecode.all.size() ) // there would be nothing to pop
+			{
+				m_err = m_err ? m_err : WR_ERR_bad_expression;
+				return false;
+			}
+
 			appendBytecode( m_units[unitIndex].bytecode, nex.bytecode );
 			pushOpcode( m_units[unitIndex].bytecode, O_PopOne );
 		}
-- 
2.43.0


From af7416bffef071210af15526d6e43f004ef946e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:16 +0000
Subject: [PATCH 67/71] fix: hashing a container that contains itself several
 times took exponential time

---
 discrete_src/vm/operations.cpp | 26 ++++++++++++++++----------
 discrete_src/wrench.h          |  2 +-
 src/wrench.cpp                 | 26 ++++++++++++++++----------
 src/wrench.h                   |  2 +-
 4 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index 2db2e3b..ea239ce 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -203,20 +203,26 @@ WRValue& WRValue::deref() const
 }
 
 //------------------------------------------------------------------------------
-static const int c_maxHashDepth = 8; // deeper differences do not count
+static const int c_maxHashContainers = 32; // differences past that many nested containers do not count
 
-uint32_t WRValue::getHashEx( const int depth ) const
+uint32_t WRValue::getHashEx( int* budget ) const
 {
+	int containers = c_maxHashContainers;
+	if ( !budget )
+	{
+		budget = &containers;
+	}
+
 	// QUICKLY return the easy answers, that's why this code looks a bit convoluted
 	if (type == WR_REF)
 	{
-		return (r->type <= WR_FLOAT) ? r->ui : r->getHashEx( depth );
+		return (r->type <= WR_FLOAT) ? r->ui : r->getHashEx( budget );
 	}
 
 	if (IS_CONTAINER_MEMBER(xtype))
 	{
 		const WRValue& V = deref();
-		return (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth );
+		return (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( budget );
 	}
 	else if (xtype == WR_EX_ARRAY)
 	{
@@ -231,7 +237,7 @@ uint32_t WRValue::getHashEx( const int depth ) const
 	}
 	else if (xtype == WR_EX_HASH_TABLE)
 	{
-		if ( depth > c_maxHashDepth )
+		if ( --*budget < 0 )
 		{
 			return 0; // containers can contain themselves
 		}
@@ -240,12 +246,12 @@ uint32_t WRValue::getHashEx( const int depth ) const
 		uint32_t hash = wr_hash(va->m_hashTable, va->m_mod * sizeof(uint32_t));
 
 		// hash each element, positionally dependant
-		for (uint32_t e = 0; e < va->m_mod; ++e)
+		for (uint32_t e = 0; e < va->m_mod && *budget >= 0; ++e)
 		{
 			if (va->m_hashTable[e] != WRENCH_NULL_HASH)
 			{
 				const WRValue& V = va->m_Vdata[e << 1];
-				uint32_t h = e << 16 | ((V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth + 1 ));
+				uint32_t h = e << 16 | ((V.type <= WR_FLOAT) ? V.ui : V.getHashEx( budget ));
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
@@ -253,20 +259,20 @@ uint32_t WRValue::getHashEx( const int depth ) const
 	}
 	else if (xtype == WR_EX_STRUCT)
 	{
-		if ( depth > c_maxHashDepth )
+		if ( --*budget < 0 )
 		{
 			return 0;
 		}
 
 		uint32_t hash = wr_hash((char*)&va->m_hashTable, sizeof(void*)); // this is in ROM and must be identical for the struct to be the same (same namespace)
 
-		for (uint32_t m = 0; m < va->m_mod; ++m)
+		for (uint32_t m = 0; m < va->m_mod && *budget >= 0; ++m)
 		{
 			const uint8_t* offset = va->m_ROMHashTable + (m * 5);
 			if ((uint32_t)READ_32_FROM_PC(offset) != WRENCH_NULL_HASH)
 			{
 				const WRValue& V = va->m_Vdata[READ_8_FROM_PC(offset + 4)];
-				uint32_t h = (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth + 1 );
+				uint32_t h = (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( budget );
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index 0529564..fb2b11e 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -873,7 +873,7 @@ struct WRValue
 	WRValue& deref() const; // if this value is a CONTAINER_MEMBER, copy the referred value in
 
 	uint32_t getHash() const { return (type <= WR_FLOAT) ? ui : getHashEx(); } // easy cases
-	uint32_t getHashEx( const int depth =0 ) const; // harder
+	uint32_t getHashEx( int* budget =0 ) const; // harder
 
 	union // first 4 bytes 
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3842b16..2aac24e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18353,20 +18353,26 @@ WRValue& WRValue::deref() const
 }
 
 //------------------------------------------------------------------------------
-static const int c_maxHashDepth = 8; // deeper differences do not count
+static const int c_maxHashContainers = 32; // differences past that many nested containers do not count
 
-uint32_t WRValue::getHashEx( const int depth ) const
+uint32_t WRValue::getHashEx( int* budget ) const
 {
+	int containers = c_maxHashContainers;
+	if ( !budget )
+	{
+		budget = &containers;
+	}
+
 	// QUICKLY return the easy answers, that's why this code looks a bit convoluted
 	if (type == WR_REF)
 	{
-		return (r->type <= WR_FLOAT) ? r->ui : r->getHashEx( depth );
+		return (r->type <= WR_FLOAT) ? r->ui : r->getHashEx( budget );
 	}
 
 	if (IS_CONTAINER_MEMBER(xtype))
 	{
 		const WRValue& V = deref();
-		return (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth );
+		return (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( budget );
 	}
 	else if (xtype == WR_EX_ARRAY)
 	{
@@ -18381,7 +18387,7 @@ uint32_t WRValue::getHashEx( const int depth ) const
 	}
 	else if (xtype == WR_EX_HASH_TABLE)
 	{
-		if ( depth > c_maxHashDepth )
+		if ( --*budget < 0 )
 		{
 			return 0; // containers can contain themselves
 		}
@@ -18390,12 +18396,12 @@ uint32_t WRValue::getHashEx( const int depth ) const
 		uint32_t hash = wr_hash(va->m_hashTable, va->m_mod * sizeof(uint32_t));
 
 		// hash each element, positionally dependant
-		for (uint32_t e = 0; e < va->m_mod; ++e)
+		for (uint32_t e = 0; e < va->m_mod && *budget >= 0; ++e)
 		{
 			if (va->m_hashTable[e] != WRENCH_NULL_HASH)
 			{
 				const WRValue& V = va->m_Vdata[e << 1];
-				uint32_t h = e << 16 | ((V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth + 1 ));
+				uint32_t h = e << 16 | ((V.type <= WR_FLOAT) ? V.ui : V.getHashEx( budget ));
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
@@ -18403,20 +18409,20 @@ uint32_t WRValue::getHashEx( const int depth ) const
 	}
 	else if (xtype == WR_EX_STRUCT)
 	{
-		if ( depth > c_maxHashDepth )
+		if ( --*budget < 0 )
 		{
 			return 0;
 		}
 
 		uint32_t hash = wr_hash((char*)&va->m_hashTable, sizeof(void*)); // this is in ROM and must be identical for the struct to be the same (same namespace)
 
-		for (uint32_t m = 0; m < va->m_mod; ++m)
+		for (uint32_t m = 0; m < va->m_mod && *budget >= 0; ++m)
 		{
 			const uint8_t* offset = va->m_ROMHashTable + (m * 5);
 			if ((uint32_t)READ_32_FROM_PC(offset) != WRENCH_NULL_HASH)
 			{
 				const WRValue& V = va->m_Vdata[READ_8_FROM_PC(offset + 4)];
-				uint32_t h = (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( depth + 1 );
+				uint32_t h = (V.type <= WR_FLOAT) ? V.ui : V.getHashEx( budget );
 				hash = wr_hash(&h, 4, hash);
 			}
 		}
diff --git a/src/wrench.h b/src/wrench.h
index 3c693bb..165946e 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -874,7 +874,7 @@ struct WRValue
 	WRValue& deref() const; // if this value is a CONTAINER_MEMBER, copy the referred value in
 
 	uint32_t getHash() const { return (type <= WR_FLOAT) ? ui : getHashEx(); } // easy cases
-	uint32_t getHashEx( const int depth =0 ) const; // harder
+	uint32_t getHashEx( int* budget =0 ) const; // harder
 
 	union // first 4 bytes 
 	{
-- 
2.43.0


From ef0853e452b5355e87126999c28f2b67a98fe04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:39 +0000
Subject: [PATCH 68/71] fix: serializing a container that contains itself
 recursed until the process stack overflowed

---
 discrete_src/utils/serializer.cpp | 32 +++++++++++++++++++++----
 discrete_src/utils/serializer.h   |  8 ++++++-
 src/wrench.cpp                    | 40 ++++++++++++++++++++++++++-----
 3 files changed, 68 insertions(+), 12 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 2e354ef..2ceba69 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -25,7 +25,22 @@ SOFTWARE.
 #include "wrench.h"
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
+// a container that (indirectly) contains itself has no end
+static bool wr_serializeCycle( const WRGCObject* va, const WRSerializeParent* parent )
+{
+	for( ; parent; parent = parent->next )
+	{
+		if ( parent->va == va )
+		{
+			return true;
+		}
+	}
+
+	return false;
+}
+
+//------------------------------------------------------------------------------
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WRSerializeParent* parent )
 {
 	char temp;
 	uint16_t temp16;
@@ -49,11 +64,13 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 		{
 			serializer.write( &(temp = value.xtype), 1 );
 
+			WRSerializeParent inside = { value.va, parent };
+
 			switch( (uint8_t)value.xtype )
 			{
 				case WR_EX_ARRAY:
 				{
-					if ( value.va->m_size > 0xFFFF )
+					if ( value.va->m_size > 0xFFFF || wr_serializeCycle(value.va, parent) )
 					{
 						return false; // does not fit the format
 					}
@@ -71,7 +88,7 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 					{
 						for( uint32_t i=0; i<value.va->m_size; ++i )
 						{
-							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i]) )
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i], &inside) )
 							{
 								return false;
 							}
@@ -83,6 +100,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 
 				case WR_EX_HASH_TABLE:
 				{
+					if ( wr_serializeCycle(value.va, parent) )
+					{
+						return false;
+					}
+
 					temp16 = wr_x16( value.va->m_mod );
 					serializer.write( (char *)&temp16, 2 );
 
@@ -96,8 +118,8 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1])
-								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1]) )
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1], &inside)
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1], &inside) )
 							{
 								return false;
 							}
diff --git a/discrete_src/utils/serializer.h b/discrete_src/utils/serializer.h
index 1188d71..63102a8 100644
--- a/discrete_src/utils/serializer.h
+++ b/discrete_src/utils/serializer.h
@@ -30,7 +30,13 @@ struct WRContext;
 class WRValueSerializer;
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val );
+struct WRSerializeParent
+{
+	const WRGCObject* va;
+	const WRSerializeParent* next;
+};
+
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WRSerializeParent* parent =0 );
 bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext* context );
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2aac24e..b244d9a 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -522,7 +522,13 @@ struct WRContext;
 class WRValueSerializer;
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val );
+struct WRSerializeParent
+{
+	const WRGCObject* va;
+	const WRSerializeParent* next;
+};
+
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WRSerializeParent* parent =0 );
 bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext* context );
 
 //------------------------------------------------------------------------------
@@ -15409,7 +15415,22 @@ SOFTWARE.
 #include "wrench.h"
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
+// a container that (indirectly) contains itself has no end
+static bool wr_serializeCycle( const WRGCObject* va, const WRSerializeParent* parent )
+{
+	for( ; parent; parent = parent->next )
+	{
+		if ( parent->va == va )
+		{
+			return true;
+		}
+	}
+
+	return false;
+}
+
+//------------------------------------------------------------------------------
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WRSerializeParent* parent )
 {
 	char temp;
 	uint16_t temp16;
@@ -15433,11 +15454,13 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 		{
 			serializer.write( &(temp = value.xtype), 1 );
 
+			WRSerializeParent inside = { value.va, parent };
+
 			switch( (uint8_t)value.xtype )
 			{
 				case WR_EX_ARRAY:
 				{
-					if ( value.va->m_size > 0xFFFF )
+					if ( value.va->m_size > 0xFFFF || wr_serializeCycle(value.va, parent) )
 					{
 						return false; // does not fit the format
 					}
@@ -15455,7 +15478,7 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 					{
 						for( uint32_t i=0; i<value.va->m_size; ++i )
 						{
-							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i]) )
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i], &inside) )
 							{
 								return false;
 							}
@@ -15467,6 +15490,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 
 				case WR_EX_HASH_TABLE:
 				{
+					if ( wr_serializeCycle(value.va, parent) )
+					{
+						return false;
+					}
+
 					temp16 = wr_x16( value.va->m_mod );
 					serializer.write( (char *)&temp16, 2 );
 
@@ -15480,8 +15508,8 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1])
-								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1]) )
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1], &inside)
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1], &inside) )
 							{
 								return false;
 							}
-- 
2.43.0


From d5fc2887856ea872585f8cd24b7260c9ed856539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:30 +0000
Subject: [PATCH 69/71] fix: with debug code an empty expression was accepted,
 and errors differed from a compilation without it

---
 discrete_src/cc/cc.cpp | 20 ++++++++++----------
 discrete_src/cc/cc.h   |  7 +++++++
 src/wrench.cpp         | 27 +++++++++++++++++----------
 3 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 57452ec..8fa9bdb 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1443,7 +1443,7 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 			m_loadedQuoted = m_quoted;
 			
 			char end = parseExpression( nex );
-			if ( !nex.bytecode.all.size() )
+			if ( nex.bytecode.empty() )
 			{
 				m_err = m_err ? m_err : WR_ERR_bad_expression;
 				return false;
@@ -1967,7 +1967,7 @@ bool WRCompilationContext::parseWhile( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' || !nex.bytecode.all.size() )
+	if ( parseExpression(nex) != ')' || nex.bytecode.empty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -2042,7 +2042,7 @@ bool WRCompilationContext::parseDoWhile( WROpcode opcodeToReturn )
 	//m_loadedToken = token;
 	//m_loadedValue = value;
 
-	if ( parseExpression(nex) != ')' || !nex.bytecode.all.size() )
+	if ( parseExpression(nex) != ')' || nex.bytecode.empty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -2146,7 +2146,7 @@ A:
 		m_loadedQuoted = m_quoted;
 
 		char end = parseExpression( nex );
-		if ( !nex.bytecode.all.size() )
+		if ( nex.bytecode.empty() )
 		{
 			m_err = m_err ? m_err : WR_ERR_bad_expression;
 			return false;
@@ -2332,7 +2332,7 @@ A:
 			m_loadedValue = value;
 			m_loadedQuoted = m_quoted;
 
-			if ( parseExpression( nex ) != ';' || !nex.bytecode.all.size() )
+			if ( parseExpression( nex ) != ';' || nex.bytecode.empty() )
 			{
 				m_err = WR_ERR_unexpected_token;
 				return false;
@@ -2369,7 +2369,7 @@ A:
 			m_loadedQuoted = m_quoted;
 
 			char end = parseExpression( nex );
-			if ( !nex.bytecode.all.size() )
+			if ( nex.bytecode.empty() )
 			{
 				m_err = m_err ? m_err : WR_ERR_bad_expression;
 				return false;
@@ -2680,7 +2680,7 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	selectionCriteria.context[0].token = token;
 	selectionCriteria.context[0].value = value;
 	
-	if ( parseExpression(selectionCriteria) != ')' || !selectionCriteria.bytecode.all.size() )
+	if ( parseExpression(selectionCriteria) != ')' || selectionCriteria.bytecode.empty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -2992,7 +2992,7 @@ bool WRCompilationContext::parseIf( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' || m_err || !nex.bytecode.all.size() )
+	if ( parseExpression(nex) != ')' || m_err || nex.bytecode.empty() )
 	{
 		m_err = m_err ? m_err : WR_ERR_unexpected_token;
 		return false;
@@ -3116,7 +3116,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				m_loadedValue = ex.value;
 				m_loadedQuoted = m_quoted;
 
-				if ( parseExpression( nex ) != ';' || !nex.bytecode.all.size() )
+				if ( parseExpression( nex ) != ';' || nex.bytecode.empty() )
 				{
 					m_err = WR_ERR_unexpected_token;
 					return false;
@@ -3282,7 +3282,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				return false;
 			}
 
-			if ( !nex.bytecode.all.size() ) // there would be nothing to pop
+			if ( nex.bytecode.empty() ) // there would be nothing to pop
 			{
 				m_err = m_err ? m_err : WR_ERR_bad_expression;
 				return false;
diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index a5b1e2d..dee5b21 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -187,6 +187,13 @@ struct WRBytecode
 	WRarray<WRNamespaceLookup> unitObjectSpace;
 
 	void invalidateOpcodeCache() { opcodes.clear(); }
+
+	bool empty() // nothing to execute, line information does not count
+	{
+		unsigned int i = 0;
+		for( ; i<all.size() && all[i] == O_DebugInfo; i += 3 );
+		return i >= all.size();
+	}
 	
 	WRarray<BytecodeJumpOffset> jumpOffsetTargets;
 	WRarray<GotoSource> gotoSource;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b244d9a..1852bba 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1968,6 +1968,13 @@ struct WRBytecode
 	WRarray<WRNamespaceLookup> unitObjectSpace;
 
 	void invalidateOpcodeCache() { opcodes.clear(); }
+
+	bool empty() // nothing to execute, line information does not count
+	{
+		unsigned int i = 0;
+		for( ; i<all.size() && all[i] == O_DebugInfo; i += 3 );
+		return i >= all.size();
+	}
 	
 	WRarray<BytecodeJumpOffset> jumpOffsetTargets;
 	WRarray<GotoSource> gotoSource;
@@ -4507,7 +4514,7 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 			m_loadedQuoted = m_quoted;
 			
 			char end = parseExpression( nex );
-			if ( !nex.bytecode.all.size() )
+			if ( nex.bytecode.empty() )
 			{
 				m_err = m_err ? m_err : WR_ERR_bad_expression;
 				return false;
@@ -5031,7 +5038,7 @@ bool WRCompilationContext::parseWhile( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' || !nex.bytecode.all.size() )
+	if ( parseExpression(nex) != ')' || nex.bytecode.empty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -5106,7 +5113,7 @@ bool WRCompilationContext::parseDoWhile( WROpcode opcodeToReturn )
 	//m_loadedToken = token;
 	//m_loadedValue = value;
 
-	if ( parseExpression(nex) != ')' || !nex.bytecode.all.size() )
+	if ( parseExpression(nex) != ')' || nex.bytecode.empty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -5210,7 +5217,7 @@ A:
 		m_loadedQuoted = m_quoted;
 
 		char end = parseExpression( nex );
-		if ( !nex.bytecode.all.size() )
+		if ( nex.bytecode.empty() )
 		{
 			m_err = m_err ? m_err : WR_ERR_bad_expression;
 			return false;
@@ -5396,7 +5403,7 @@ A:
 			m_loadedValue = value;
 			m_loadedQuoted = m_quoted;
 
-			if ( parseExpression( nex ) != ';' || !nex.bytecode.all.size() )
+			if ( parseExpression( nex ) != ';' || nex.bytecode.empty() )
 			{
 				m_err = WR_ERR_unexpected_token;
 				return false;
@@ -5433,7 +5440,7 @@ A:
 			m_loadedQuoted = m_quoted;
 
 			char end = parseExpression( nex );
-			if ( !nex.bytecode.all.size() )
+			if ( nex.bytecode.empty() )
 			{
 				m_err = m_err ? m_err : WR_ERR_bad_expression;
 				return false;
@@ -5744,7 +5751,7 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	selectionCriteria.context[0].token = token;
 	selectionCriteria.context[0].value = value;
 	
-	if ( parseExpression(selectionCriteria) != ')' || !selectionCriteria.bytecode.all.size() )
+	if ( parseExpression(selectionCriteria) != ')' || selectionCriteria.bytecode.empty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -6056,7 +6063,7 @@ bool WRCompilationContext::parseIf( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' || m_err || !nex.bytecode.all.size() )
+	if ( parseExpression(nex) != ')' || m_err || nex.bytecode.empty() )
 	{
 		m_err = m_err ? m_err : WR_ERR_unexpected_token;
 		return false;
@@ -6180,7 +6187,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				m_loadedValue = ex.value;
 				m_loadedQuoted = m_quoted;
 
-				if ( parseExpression( nex ) != ';' || !nex.bytecode.all.size() )
+				if ( parseExpression( nex ) != ';' || nex.bytecode.empty() )
 				{
 					m_err = WR_ERR_unexpected_token;
 					return false;
@@ -6346,7 +6353,7 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				return false;
 			}
 
-			if ( !nex.bytecode.all.size() ) // there would be nothing to pop
+			if ( nex.bytecode.empty() ) // there would be nothing to pop
 			{
 				m_err = m_err ? m_err : WR_ERR_bad_expression;
 				return false;
-- 
2.43.0


From d98195fecce2e733fc388b3e2d46ea444eec9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:08 +0000
Subject: [PATCH 70/71] fix: frames above 254 entries, code above 32767 or
 65535 bytes and embedded sources above 65535 bytes were linked with truncated
 offsets, and a failed link leaked

---
 discrete_src/cc/link.cpp | 14 +++++++++++---
 discrete_src/vm/vm.cpp   |  4 ++--
 src/wrench.cpp           | 18 +++++++++++++-----
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/discrete_src/cc/link.cpp b/discrete_src/cc/link.cpp
index 8bba852..2e4c300 100644
--- a/discrete_src/cc/link.cpp
+++ b/discrete_src/cc/link.cpp
@@ -129,6 +129,11 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 		code.append( data + 1, 1 );
 
 		// WRFunction.frameBaseAdjustment;
+		if ( 1 + (unsigned int)m_units[u].arguments + frameSpaceNeeded > 255 )
+		{
+			m_err = WR_ERR_compiler_panic;
+			return;
+		}
 		data[2] = 1 + data[0] + data[1];
 		code.append( data + 2, 1 );
 	}
@@ -216,7 +221,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 	// append all the unit code
 	for( unsigned int u=0; u<m_units.count(); ++u )
 	{
-		uint16_t base;
+		unsigned int base;
 
 		if ( u > 0 ) // for the non-zero unit fill locations into the jump table
 		{
@@ -247,6 +252,11 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 				wr_pack16( base, code.p_str(m_units[u].offsetInBytecode) ); // WRFunction.namespaceOffset
 			}
 
+			if ( code.size() > 0xFFFF ) // offsets into the code are 16 bits
+			{
+				m_err = WR_ERR_compiler_panic;
+			}
+
 			base = code.size();
 			wr_pack16( base, code.p_str(m_units[u].offsetInBytecode + 2) ); // WRFunction.functionOffset
 		}
@@ -275,7 +285,6 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 						if ( diff < -32768 || diff > 32767 )
 						{
 							m_err = WR_ERR_bad_goto_location;
-							return;
 						}
 						*m_units[u].bytecode.all.p_str( m_units[u].bytecode.gotoSource[g].offset ) = (unsigned char)O_RelativeJump;
 						wr_pack16( (int16_t)diff, m_units[u].bytecode.all.p_str(m_units[u].bytecode.gotoSource[g].offset + 1) );
@@ -288,7 +297,6 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 			if ( j >= m_units[u].bytecode.jumpOffsetTargets.count() )
 			{
 				m_err = WR_ERR_goto_target_not_found;
-				return;
 			}
 		}
 
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index fc9fe79..beafdf4 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -100,7 +100,7 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 	}
 	else
 	{
-		uint32_t offset = READ_16_FROM_PC(pc);
+		uint32_t offset = (uint16_t)READ_16_FROM_PC(pc);
 		table = context->bottom + offset;
 	}
 
@@ -1663,7 +1663,7 @@ doAssignToLocalAndPop:
 			CASE(AssignToArrayAndPop):
 			{
 				stackTop->p2 = INIT_AS_INT; // index
-				stackTop->i = READ_16_FROM_PC(pc);
+				stackTop->i = (uint16_t)READ_16_FROM_PC(pc);
 				pc += 2;
 				register1 = stackTop - 1; // value
 				register0 = stackTop - 2; // array
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 1852bba..52e079c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -6618,6 +6618,11 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 		code.append( data + 1, 1 );
 
 		// WRFunction.frameBaseAdjustment;
+		if ( 1 + (unsigned int)m_units[u].arguments + frameSpaceNeeded > 255 )
+		{
+			m_err = WR_ERR_compiler_panic;
+			return;
+		}
 		data[2] = 1 + data[0] + data[1];
 		code.append( data + 2, 1 );
 	}
@@ -6705,7 +6710,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 	// append all the unit code
 	for( unsigned int u=0; u<m_units.count(); ++u )
 	{
-		uint16_t base;
+		unsigned int base;
 
 		if ( u > 0 ) // for the non-zero unit fill locations into the jump table
 		{
@@ -6736,6 +6741,11 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 				wr_pack16( base, code.p_str(m_units[u].offsetInBytecode) ); // WRFunction.namespaceOffset
 			}
 
+			if ( code.size() > 0xFFFF ) // offsets into the code are 16 bits
+			{
+				m_err = WR_ERR_compiler_panic;
+			}
+
 			base = code.size();
 			wr_pack16( base, code.p_str(m_units[u].offsetInBytecode + 2) ); // WRFunction.functionOffset
 		}
@@ -6764,7 +6774,6 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 						if ( diff < -32768 || diff > 32767 )
 						{
 							m_err = WR_ERR_bad_goto_location;
-							return;
 						}
 						*m_units[u].bytecode.all.p_str( m_units[u].bytecode.gotoSource[g].offset ) = (unsigned char)O_RelativeJump;
 						wr_pack16( (int16_t)diff, m_units[u].bytecode.all.p_str(m_units[u].bytecode.gotoSource[g].offset + 1) );
@@ -6777,7 +6786,6 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 			if ( j >= m_units[u].bytecode.jumpOffsetTargets.count() )
 			{
 				m_err = WR_ERR_goto_target_not_found;
-				return;
 			}
 		}
 
@@ -10442,7 +10450,7 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 	}
 	else
 	{
-		uint32_t offset = READ_16_FROM_PC(pc);
+		uint32_t offset = (uint16_t)READ_16_FROM_PC(pc);
 		table = context->bottom + offset;
 	}
 
@@ -12005,7 +12013,7 @@ doAssignToLocalAndPop:
 			CASE(AssignToArrayAndPop):
 			{
 				stackTop->p2 = INIT_AS_INT; // index
-				stackTop->i = READ_16_FROM_PC(pc);
+				stackTop->i = (uint16_t)READ_16_FROM_PC(pc);
 				pc += 2;
 				register1 = stackTop - 1; // value
 				register0 = stackTop - 2; // array
-- 
2.43.0


From ad8f6cfefb15151e49a74d4124ff2a97d3c628c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:35 +0000
Subject: [PATCH 71/71] fix: calls with more than 255 arguments, array literals
 above 65535 elements and string literals above 65535 bytes were compiled with
 truncated counts

---
 discrete_src/cc/cc.cpp         | 30 ++++++++++++++++++++++++++--
 discrete_src/cc/expression.cpp |  6 ++++++
 src/wrench.cpp                 | 36 ++++++++++++++++++++++++++++++++--
 3 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 8fa9bdb..4adedbf 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -786,6 +786,12 @@ void WRCompilationContext::pushLiteral( WRBytecode& bytecode, WRExpressionContex
 	}
 	else if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
 	{
+		if ( context.literalString.size() > 0xFFFF )
+		{
+			m_err = WR_ERR_compiler_panic;
+			return;
+		}
+
 		pushOpcode( bytecode, O_LiteralString );
 		int16_t be = context.literalString.size();
 		pushData( bytecode, wr_pack16(be, data), 2 );
@@ -1432,7 +1438,11 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 				break;
 			}
 
-			++argsPushed;
+			if ( ++argsPushed == 0 ) // the count is one byte
+			{
+				m_err = WR_ERR_compiler_panic;
+				return false;
+			}
 
 				WRExpression nex( expression.bytecode.localSpace, expression.bytecode.isStructSpace );
 				nex.allowFunctionNameHashLiteral = true;
@@ -1617,7 +1627,11 @@ bool WRCompilationContext::pushObjectTable( WRExpressionContext& context,
 				}
 			}
 
-			++offset;
+			if ( !++offset ) // more than any struct has members
+			{
+				m_err = WR_ERR_compiler_panic;
+				return false;
+			}
 
 			if ( end == '}' )
 			{
@@ -1690,6 +1704,12 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 			wr_pack16( initializer++, idat );
 			pushData( expression.context[depth].bytecode, idat, 2 );
 
+			if ( !initializer ) // too many, the index is 16 bits
+			{
+				m_err = WR_ERR_compiler_panic;
+				return -1;
+			}
+
 			continue;
 		}
 	
@@ -1811,6 +1831,12 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 				pushOpcode( expression.context[depth].bytecode, O_AssignToArrayAndPop );
 				wr_pack16( initializer++, idat );
 				pushData( expression.context[depth].bytecode, idat, 2 );
+
+				if ( !initializer ) // too many, the index is 16 bits
+				{
+					m_err = WR_ERR_compiler_panic;
+					return -1;
+				}
 			}
 		}
 		
diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index cac6a98..6c7e783 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -298,6 +298,12 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 						pushData( expression.context[depth].bytecode, data, 2 );
 
+						if ( !initializer ) // too many, the index is 16 bits
+						{
+							m_err = WR_ERR_compiler_panic;
+							return 0;
+						}
+
 						if ( !getToken(expression.context[depth]) )
 						{
 							m_err = WR_ERR_unexpected_EOF;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 52e079c..f161275 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -3857,6 +3857,12 @@ void WRCompilationContext::pushLiteral( WRBytecode& bytecode, WRExpressionContex
 	}
 	else if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
 	{
+		if ( context.literalString.size() > 0xFFFF )
+		{
+			m_err = WR_ERR_compiler_panic;
+			return;
+		}
+
 		pushOpcode( bytecode, O_LiteralString );
 		int16_t be = context.literalString.size();
 		pushData( bytecode, wr_pack16(be, data), 2 );
@@ -4503,7 +4509,11 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 				break;
 			}
 
-			++argsPushed;
+			if ( ++argsPushed == 0 ) // the count is one byte
+			{
+				m_err = WR_ERR_compiler_panic;
+				return false;
+			}
 
 				WRExpression nex( expression.bytecode.localSpace, expression.bytecode.isStructSpace );
 				nex.allowFunctionNameHashLiteral = true;
@@ -4688,7 +4698,11 @@ bool WRCompilationContext::pushObjectTable( WRExpressionContext& context,
 				}
 			}
 
-			++offset;
+			if ( !++offset ) // more than any struct has members
+			{
+				m_err = WR_ERR_compiler_panic;
+				return false;
+			}
 
 			if ( end == '}' )
 			{
@@ -4761,6 +4775,12 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 			wr_pack16( initializer++, idat );
 			pushData( expression.context[depth].bytecode, idat, 2 );
 
+			if ( !initializer ) // too many, the index is 16 bits
+			{
+				m_err = WR_ERR_compiler_panic;
+				return -1;
+			}
+
 			continue;
 		}
 	
@@ -4882,6 +4902,12 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 				pushOpcode( expression.context[depth].bytecode, O_AssignToArrayAndPop );
 				wr_pack16( initializer++, idat );
 				pushData( expression.context[depth].bytecode, idat, 2 );
+
+				if ( !initializer ) // too many, the index is 16 bits
+				{
+					m_err = WR_ERR_compiler_panic;
+					return -1;
+				}
 			}
 		}
 		
@@ -7213,6 +7239,12 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 						pushData( expression.context[depth].bytecode, data, 2 );
 
+						if ( !initializer ) // too many, the index is 16 bits
+						{
+							m_err = WR_ERR_compiler_panic;
+							return 0;
+						}
+
 						if ( !getToken(expression.context[depth]) )
 						{
 							m_err = WR_ERR_unexpected_EOF;
-- 
2.43.0

