From 08b61c21cc8362cb36c633768eb1c3a54a29bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 01/18] fix: empty statement keeps the block it belongs to

A block consisting of a single separator took its statements from whatever
the parser stack held before it.
---
 ast/grammar.y | 2 +-
 ast/y.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 364143f..be6ca29 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -154,7 +154,7 @@ body: stmt { $$ = Statements{$1}}
                 yylex.Error("semicolon (;) is expected")
             }
         }
-        if $3 != nil {
+        if $$ = $1; $3 != nil {
             $$ = append($$, $3) 
         }
     }
diff --git a/ast/y.go b/ast/y.go
index 34afd52..205f46a 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -845,7 +845,7 @@ yydefault:
 					yylex.Error("semicolon (;) is expected")
 				}
 			}
-			if yyDollar[3].stmt != nil {
+			if yyVAL.body = yyDollar[1].opt_body; yyDollar[3].stmt != nil {
 				yyVAL.body = append(yyVAL.body, yyDollar[3].stmt)
 			}
 		}
-- 
2.43.0


From f20e8ea8fa05ae2513ad12d36630d4a242a3fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 02/18] fix: keep else-if branches in source order

---
 ast/grammar.y | 4 ++--
 ast/y.go      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index be6ca29..05079d2 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -203,10 +203,10 @@ stmt_if : If expr Then opt_body opt_elseif_list opt_else EndIf {
 /* ИначеЕсли */
 opt_elseif_list : { $$ = Statements{} }
         | ElseIf expr Then opt_body opt_elseif_list {
-             $$ = append($5, &IfStatement{
+             $$ = append(Statements{&IfStatement{
                 Expression: $2,
                 TrueBlock:  $4,
-            })
+            }}, $5...)
         };
 
 /* Иначе */
diff --git a/ast/y.go b/ast/y.go
index 205f46a..f29f636 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -926,10 +926,10 @@ yydefault:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line .\grammar.y:205
 		{
-			yyVAL.opt_elseif_list = append(yyDollar[5].opt_elseif_list, &IfStatement{
+			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
 				TrueBlock:  yyDollar[4].opt_body,
-			})
+			}}, yyDollar[5].opt_elseif_list...)
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-- 
2.43.0


From 853d4feb340b68758c56405cad95c082a8342a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 03/18] fix: a while loop ends at its end

Break and continue were accepted anywhere after a while loop.
---
 ast/grammar.y |   1 +
 ast/y.go      | 147 +++++++++++++++++++++++++-------------------------
 2 files changed, 75 insertions(+), 73 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 05079d2..28f0f1b 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -244,6 +244,7 @@ stmt_loop: For Each token_identifier In loopExp Loop { setLoopFlag(true, yylex)
             WhileExpr: $2,
             Body: $5,
         }
+        setLoopFlag(false, yylex)
 };
 
 
diff --git a/ast/y.go b/ast/y.go
index f29f636..6ffeffe 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:380
+//line .\grammar.y:381
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -1001,34 +1001,35 @@ yydefault:
 				WhileExpr: yyDollar[2].stmt,
 				Body:      yyDollar[5].opt_body,
 			}
+			setLoopFlag(false, yylex)
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:251
+//line .\grammar.y:252
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:252
+//line .\grammar.y:253
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:253
+//line .\grammar.y:254
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:254
+//line .\grammar.y:255
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:258
+//line .\grammar.y:259
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1038,240 +1039,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:265
+//line .\grammar.y:266
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:266
+//line .\grammar.y:267
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:268
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:269
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:270
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:270
+//line .\grammar.y:271
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:272
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:273
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:277
+//line .\grammar.y:278
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:278
+//line .\grammar.y:279
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:284
+//line .\grammar.y:285
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:285
+//line .\grammar.y:286
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:286
+//line .\grammar.y:287
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:289
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:291
+//line .\grammar.y:292
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:293
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:296
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:295
+//line .\grammar.y:296
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:301
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:304
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:317
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:318
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:319
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:320
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:321
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1281,169 +1282,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:330
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:329
+//line .\grammar.y:330
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:331
+//line .\grammar.y:332
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:332
+//line .\grammar.y:333
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:335
+//line .\grammar.y:336
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:337
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:340
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:341
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:342
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:343
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:344
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:347
+//line .\grammar.y:348
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:348
+//line .\grammar.y:349
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:350
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:352
+//line .\grammar.y:353
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:353
+//line .\grammar.y:354
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:354
+//line .\grammar.y:355
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:362
+//line .\grammar.y:363
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:363
+//line .\grammar.y:364
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:364
+//line .\grammar.y:365
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:369
+//line .\grammar.y:370
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:371
+//line .\grammar.y:372
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:373
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:375
+//line .\grammar.y:376
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:377
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:377
+//line .\grammar.y:378
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 70657a071d2d5914565e593383ec63eb9092f3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 04/18] fix: the six comparison operators share one precedence
 level
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

<>, <= and >= bound weaker than Not and each had a level of its own,
so 'Не А <> Б' and 'А <= Б = В' were grouped wrongly.
---
 ast/grammar.y |   6 +-
 ast/y.go      | 331 +++++++++++++++++++++++++-------------------------
 2 files changed, 164 insertions(+), 173 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index 28f0f1b..c14ac50 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -68,12 +68,8 @@ package ast
 %nonassoc LOW_PREC /* самый низкий приоритет */
 %left OR
 %left And
-%left NeEQ
-%left LE
-%left GE
 %right Not
-%left EQUAL
-%left '>' '<'
+%left EQUAL NeEQ LE GE '>' '<'
 %left '+' '-'
 %left '*' '/' '%'
 %right UNARMinus UNARYPlus /* самый высокий приоритет */
diff --git a/ast/y.go b/ast/y.go
index 6ffeffe..7592e96 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -158,7 +158,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line .\grammar.y:381
+//line .\grammar.y:377
 
 //line yacctab:1
 var yyExca = [...]int8{
@@ -182,45 +182,45 @@ var yyExca = [...]int8{
 
 const yyPrivate = 57344
 
-const yyLast = 618
+const yyLast = 561
 
 var yyAct = [...]uint8{
 	71, 7, 122, 115, 7, 5, 148, 49, 196, 45,
 	19, 8, 22, 160, 24, 138, 161, 55, 73, 185,
 	75, 74, 142, 53, 116, 116, 70, 70, 141, 7,
 	93, 128, 70, 76, 82, 69, 72, 78, 80, 81,
-	66, 63, 67, 68, 64, 65, 91, 92, 116, 7,
-	55, 95, 116, 116, 61, 62, 56, 57, 58, 59,
-	60, 30, 116, 4, 86, 98, 18, 131, 100, 101,
+	66, 63, 67, 68, 64, 65, 91, 92, 95, 7,
+	55, 86, 116, 116, 61, 62, 56, 57, 58, 59,
+	60, 30, 140, 116, 116, 98, 177, 131, 100, 101,
 	102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
-	112, 179, 175, 116, 94, 113, 30, 41, 61, 62,
-	56, 57, 58, 59, 60, 177, 140, 90, 70, 41,
-	127, 58, 59, 60, 31, 165, 70, 130, 126, 146,
-	143, 44, 97, 52, 51, 153, 129, 42, 7, 114,
-	40, 99, 89, 133, 162, 140, 139, 70, 170, 31,
-	134, 135, 85, 83, 147, 151, 132, 7, 7, 204,
-	70, 163, 156, 157, 77, 210, 158, 152, 181, 154,
-	145, 88, 52, 51, 168, 198, 164, 123, 84, 166,
-	178, 169, 149, 159, 176, 125, 171, 124, 176, 7,
-	180, 52, 51, 7, 182, 51, 52, 51, 186, 56,
-	57, 58, 59, 60, 7, 7, 118, 137, 189, 192,
-	193, 187, 191, 188, 201, 190, 6, 7, 174, 200,
-	46, 205, 203, 7, 202, 43, 30, 208, 206, 139,
-	25, 54, 139, 209, 136, 26, 211, 51, 116, 52,
-	51, 13, 21, 172, 27, 44, 12, 28, 52, 51,
-	33, 32, 41, 52, 51, 15, 14, 194, 52, 51,
-	47, 2, 184, 36, 37, 39, 173, 38, 23, 31,
-	52, 51, 30, 35, 34, 195, 25, 207, 3, 121,
-	20, 26, 42, 1, 16, 50, 48, 13, 21, 11,
-	27, 44, 12, 28, 197, 150, 33, 32, 41, 87,
-	29, 15, 14, 96, 167, 9, 30, 17, 10, 36,
-	37, 39, 0, 38, 23, 31, 79, 0, 0, 35,
+	112, 179, 175, 44, 94, 113, 18, 41, 33, 32,
+	58, 59, 60, 41, 90, 4, 30, 44, 70, 170,
+	127, 36, 37, 39, 31, 38, 70, 130, 126, 165,
+	146, 35, 34, 52, 51, 153, 129, 42, 7, 89,
+	143, 114, 134, 133, 181, 116, 139, 70, 168, 123,
+	204, 135, 85, 83, 147, 151, 132, 7, 7, 31,
+	70, 99, 156, 157, 97, 210, 158, 152, 88, 154,
+	145, 56, 57, 58, 59, 60, 164, 40, 84, 166,
+	162, 169, 52, 51, 176, 198, 171, 140, 176, 7,
+	180, 52, 51, 7, 182, 51, 178, 163, 186, 159,
+	201, 77, 52, 51, 7, 7, 52, 51, 189, 192,
+	193, 187, 191, 188, 125, 190, 149, 7, 174, 200,
+	194, 205, 203, 7, 202, 43, 30, 208, 206, 139,
+	25, 124, 139, 209, 118, 26, 211, 51, 116, 52,
+	51, 13, 21, 137, 27, 44, 12, 28, 52, 51,
+	33, 32, 41, 52, 51, 15, 14, 173, 6, 52,
+	51, 54, 46, 36, 37, 39, 207, 38, 23, 31,
+	47, 2, 30, 35, 34, 136, 25, 172, 184, 121,
+	20, 26, 42, 195, 3, 1, 16, 13, 21, 50,
+	27, 44, 12, 28, 48, 11, 33, 32, 41, 197,
+	150, 15, 14, 87, 29, 96, 30, 167, 9, 36,
+	37, 39, 17, 38, 23, 31, 79, 10, 0, 35,
 	34, 0, 21, 0, 0, 44, 20, 0, 42, 0,
 	33, 32, 41, 0, 0, 0, 0, 0, 0, 30,
 	0, 0, 0, 36, 37, 39, 0, 38, 23, 31,
-	0, 0, 0, 35, 34, 21, 63, 0, 44, 0,
-	20, 0, 42, 33, 32, 41, 0, 0, 0, 61,
-	62, 56, 57, 58, 59, 60, 36, 37, 39, 0,
+	0, 0, 0, 35, 34, 21, 0, 0, 44, 0,
+	20, 0, 42, 33, 32, 41, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
 	38, 23, 31, 0, 0, 0, 35, 34, 0, 66,
 	63, 67, 68, 20, 65, 42, 66, 63, 67, 68,
 	64, 65, 0, 61, 62, 56, 57, 58, 59, 60,
@@ -241,45 +241,40 @@ var yyAct = [...]uint8{
 	58, 59, 60, 66, 63, 67, 68, 64, 65, 0,
 	66, 63, 67, 68, 0, 0, 0, 61, 62, 56,
 	57, 58, 59, 60, 61, 62, 56, 57, 58, 59,
-	60, 63, 67, 68, 0, 0, 0, 0, 63, 0,
-	68, 0, 0, 0, 61, 62, 56, 57, 58, 59,
-	60, 61, 62, 56, 57, 58, 59, 60, 44, 0,
-	0, 0, 0, 33, 32, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 36, 37, 39, 0,
-	38, 0, 0, 0, 0, 0, 35, 34,
+	60,
 }
 
 var yyPact = [...]int16{
-	198, -1000, -1000, 198, -1000, 234, -1000, -17, 494, -1000,
+	198, -1000, -1000, 198, -1000, 224, -1000, -17, 494, -1000,
 	-1000, -1000, -1000, -1000, 311, 311, -1000, -1000, -47, -1000,
-	311, 311, -1000, 84, -1000, 311, 278, 311, 244, 123,
-	2, 89, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
-	-1000, 22, -11, -1000, -1000, 234, -1000, -1000, 244, -1000,
-	-1000, -1000, -1000, 311, 78, -1000, 311, 311, 311, 311,
+	311, 311, -1000, 70, -1000, 311, 278, 311, 244, 123,
+	-11, 86, -1000, -1000, 311, 311, -1000, -1000, -1000, -1000,
+	-1000, 22, -14, -1000, -1000, 224, -1000, -1000, 244, -1000,
+	-1000, -1000, -1000, 311, 88, -1000, 311, 311, 311, 311,
 	311, 311, 311, 311, 311, 311, 311, 311, 311, -1000,
-	494, -50, -1000, 311, 56, -1000, 296, -1000, 465, 178,
-	473, 441, 229, 149, 159, 157, 311, -1000, 311, -1000,
+	494, -50, -1000, 311, 58, -1000, 501, -1000, 465, 206,
+	473, 441, 229, 121, 203, 186, 311, -1000, 311, -1000,
 	-1000, -1000, -1000, -31, 311, 311, -1000, -1000, 494, -47,
-	44, 44, -1000, -1000, -1000, 124, 124, 35, 330, 501,
-	521, 528, 296, 1, -1000, 311, -1000, 244, 111, 311,
-	-1000, -1000, 77, -1000, -34, -40, 47, 362, 311, 46,
-	402, -1000, -1000, 148, 53, 433, 244, 244, 170, 155,
-	-1000, 116, 116, -1000, -1000, 42, -1000, 311, 139, 311,
-	107, -50, -1000, 65, -1000, -1000, 224, 167, -1000, -1000,
-	19, 55, -1000, 152, 18, -1000, 402, 132, 244, 394,
-	-1000, -44, 244, -1000, -1000, 48, 116, 561, -1000, 48,
-	311, -1000, 234, 244, 244, -1000, 215, -1000, 55, -1000,
-	145, 337, 148, 172, -1000, 145, 244, 129, 149, -1000,
-	-1000, -1000, 244, 246, 149, 212, 109, -1000, 212, -1000,
+	33, 33, -1000, -1000, -1000, 96, 96, 96, 330, 501,
+	96, 96, 96, 1, -1000, 311, -1000, 244, 103, 311,
+	-1000, -1000, 119, -1000, -34, -40, 57, 362, 311, 47,
+	402, -1000, -1000, 182, 53, 433, 244, 244, 170, 171,
+	-1000, 152, 152, -1000, -1000, 46, -1000, 311, 113, 311,
+	78, -50, -1000, 59, -1000, -1000, 215, 167, -1000, -1000,
+	19, 26, -1000, 168, 18, -1000, 402, 108, 244, 394,
+	-1000, -44, 244, -1000, -1000, 14, 152, 56, -1000, 14,
+	311, -1000, 224, 244, 244, -1000, 178, -1000, 26, -1000,
+	155, 337, 182, 158, -1000, 155, 244, 120, 121, -1000,
+	-1000, -1000, 244, 235, 121, 212, 109, -1000, 212, -1000,
 	-1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 240, 5, 63, 288, 287, 285, 6, 284, 283,
-	21, 11, 15, 280, 10, 13, 16, 20, 279, 0,
-	275, 12, 14, 8, 274, 2, 269, 66, 120, 266,
-	7, 265, 264, 3, 263, 258, 196, 255, 242, 223,
-	214, 211, 187,
+	0, 250, 5, 95, 297, 292, 288, 6, 287, 285,
+	21, 11, 15, 284, 10, 13, 16, 20, 283, 0,
+	280, 12, 14, 8, 279, 2, 275, 86, 157, 274,
+	7, 269, 266, 3, 265, 264, 238, 263, 258, 257,
+	255, 241, 223,
 }
 
 var yyR1 = [...]int8{
@@ -726,12 +721,12 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:85
+//line .\grammar.y:81
 		{
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:86
+//line .\grammar.y:82
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].body, yylex)
@@ -739,7 +734,7 @@ yydefault:
 		}
 	case 3:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:91
+//line .\grammar.y:87
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[2].opt_body, yylex)
@@ -747,7 +742,7 @@ yydefault:
 		}
 	case 6:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:101
+//line .\grammar.y:97
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].global_variables, yylex)
@@ -755,7 +750,7 @@ yydefault:
 		}
 	case 7:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:106
+//line .\grammar.y:102
 		{
 			if ast, ok := yylex.(*AstNode); ok {
 				ast.ModuleStatement.Append(yyDollar[1].funcProc, yylex)
@@ -763,31 +758,31 @@ yydefault:
 		}
 	case 8:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:113
+//line .\grammar.y:109
 		{
 			yyVAL.opt_directive = nil
 		}
 	case 9:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:114
+//line .\grammar.y:110
 		{
 			yyVAL.opt_directive = &yyDollar[1].token
 		}
 	case 10:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:117
+//line .\grammar.y:113
 		{
 			yyVAL.opt_export = nil
 		}
 	case 11:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:118
+//line .\grammar.y:114
 		{
 			yyVAL.opt_export = &yyDollar[1].token
 		}
 	case 12:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:121
+//line .\grammar.y:117
 		{
 			yyVAL.global_variables = make([]GlobalVariables, len(yyDollar[3].identifiers), len(yyDollar[3].identifiers))
 			for i, v := range yyDollar[3].identifiers {
@@ -801,44 +796,44 @@ yydefault:
 		}
 	case 13:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:134
+//line .\grammar.y:130
 		{
 			isFunction(true, yylex)
 		}
 	case 14:
 		yyDollar = yyS[yypt-11 : yypt+1]
-//line .\grammar.y:135
+//line .\grammar.y:131
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeFunction, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[9].opt_explicit_variables, yyDollar[10].opt_body)
 			isFunction(false, yylex)
 		}
 	case 15:
 		yyDollar = yyS[yypt-10 : yypt+1]
-//line .\grammar.y:140
+//line .\grammar.y:136
 		{
 			yyVAL.funcProc = createFunctionOrProcedure(PFTypeProcedure, yyDollar[1].opt_directive, yyDollar[3].token.literal, yyDollar[5].declarations_method_params, yyDollar[7].opt_export, yyDollar[8].opt_explicit_variables, yyDollar[9].opt_body)
 		}
 	case 16:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:145
+//line .\grammar.y:141
 		{
 			yyVAL.opt_body = nil
 		}
 	case 17:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:146
+//line .\grammar.y:142
 		{
 			yyVAL.opt_body = yyDollar[1].body
 		}
 	case 18:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:150
+//line .\grammar.y:146
 		{
 			yyVAL.body = Statements{yyDollar[1].stmt}
 		}
 	case 19:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:151
+//line .\grammar.y:147
 		{
 			if yyDollar[2].token.literal == ":" && len(yyDollar[1].opt_body) > 0 {
 				if _, ok := yyDollar[1].opt_body[len(yyDollar[1].opt_body)-1].(*GoToLabelStatement); !ok {
@@ -851,43 +846,43 @@ yydefault:
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:164
+//line .\grammar.y:160
 		{
 			yyVAL.stmt = nil
 		}
 	case 21:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:165
+//line .\grammar.y:161
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 22:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:164
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 23:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:168
+//line .\grammar.y:164
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:172
+//line .\grammar.y:168
 		{
 			yyVAL.opt_explicit_variables = map[string]VarStatement{}
 		}
 	case 25:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:173
+//line .\grammar.y:169
 		{
 			yyVAL.opt_explicit_variables = yyDollar[1].explicit_variables
 		}
 	case 26:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:176
+//line .\grammar.y:172
 		{
 			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -897,7 +892,7 @@ yydefault:
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:183
+//line .\grammar.y:179
 		{
 			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
 				yylex.Error(err.Error())
@@ -907,7 +902,7 @@ yydefault:
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line .\grammar.y:194
+//line .\grammar.y:190
 		{
 			yyVAL.stmt_if = &IfStatement{
 				Expression:  yyDollar[2].stmt,
@@ -918,13 +913,13 @@ yydefault:
 		}
 	case 29:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:204
+//line .\grammar.y:200
 		{
 			yyVAL.opt_elseif_list = Statements{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:205
+//line .\grammar.y:201
 		{
 			yyVAL.opt_elseif_list = append(Statements{&IfStatement{
 				Expression: yyDollar[2].stmt,
@@ -933,19 +928,19 @@ yydefault:
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:213
+//line .\grammar.y:209
 		{
 			yyVAL.opt_else = nil
 		}
 	case 32:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:214
+//line .\grammar.y:210
 		{
 			yyVAL.opt_else = yyDollar[2].opt_body
 		}
 	case 33:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:217
+//line .\grammar.y:213
 		{
 			yyVAL.stmt = TernaryStatement{
 				Expression: yyDollar[3].stmt,
@@ -955,13 +950,13 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:226
+//line .\grammar.y:222
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 35:
 		yyDollar = yyS[yypt-9 : yypt+1]
-//line .\grammar.y:226
+//line .\grammar.y:222
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[3].token.literal,
@@ -972,13 +967,13 @@ yydefault:
 		}
 	case 36:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:234
+//line .\grammar.y:230
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 37:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line .\grammar.y:234
+//line .\grammar.y:230
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				For:  yyDollar[2].stmt,
@@ -989,13 +984,13 @@ yydefault:
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:242
+//line .\grammar.y:238
 		{
 			setLoopFlag(true, yylex)
 		}
 	case 39:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:242
+//line .\grammar.y:238
 		{
 			yyVAL.stmt_loop = &LoopStatement{
 				WhileExpr: yyDollar[2].stmt,
@@ -1005,31 +1000,31 @@ yydefault:
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:252
+//line .\grammar.y:248
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:253
+//line .\grammar.y:249
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:254
+//line .\grammar.y:250
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:255
+//line .\grammar.y:251
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:259
+//line .\grammar.y:255
 		{
 			v := yyDollar[1].stmt
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
@@ -1039,240 +1034,240 @@ yydefault:
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:266
+//line .\grammar.y:262
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:267
+//line .\grammar.y:263
 		{
 			yyVAL.stmt = yyDollar[1].stmt_if
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:268
+//line .\grammar.y:264
 		{
 			yyVAL.stmt = yyDollar[1].stmt_loop
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:269
+//line .\grammar.y:265
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:270
+//line .\grammar.y:266
 		{
 			yyVAL.stmt = ContinueStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 50:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:271
+//line .\grammar.y:267
 		{
 			yyVAL.stmt = BreakStatement{}
 			checkLoopOperator(yyDollar[1].token, yylex)
 		}
 	case 51:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:272
+//line .\grammar.y:268
 		{
 			yyVAL.stmt = ThrowStatement{Param: yyDollar[2].stmt}
 			checkThrowParam(yyDollar[1].token, yyDollar[2].stmt, yylex)
 		}
 	case 52:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:273
+//line .\grammar.y:269
 		{
 			yyVAL.stmt = &ReturnStatement{Param: yyDollar[2].stmt}
 			checkReturnParam(yyDollar[2].stmt, yylex)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:278
+//line .\grammar.y:274
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:279
+//line .\grammar.y:275
 		{
 			yyVAL.stmt = CallChainStatement{Unit: yyDollar[3].stmt, Call: yyDollar[1].stmt}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:285
+//line .\grammar.y:281
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:286
+//line .\grammar.y:282
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: yyDollar[3].exprs}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:287
+//line .\grammar.y:283
 		{
 			yyVAL.stmt = ItemStatement{Object: yyDollar[1].stmt, Item: yyDollar[3].stmt}
 		}
 	case 58:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:288
+//line .\grammar.y:284
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[2].stmt}}}
 		}
 	case 59:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:289
+//line .\grammar.y:285
 		{
 			yyVAL.stmt = MethodStatement{Name: yyDollar[1].token.literal, Param: ExprStatements{Statements: Statements{yyDollar[3].stmt}}}
 		}
 	case 60:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:292
+//line .\grammar.y:288
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 61:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:293
+//line .\grammar.y:289
 		{
 			yyVAL.stmt = VarStatement{Name: yyDollar[1].token.literal}
 		}
 	case 62:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:296
+//line .\grammar.y:292
 		{
 			setTryFlag(true, yylex)
 		}
 	case 63:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line .\grammar.y:296
+//line .\grammar.y:292
 		{
 			yyVAL.stmt = TryStatement{Body: yyDollar[2].opt_body, Catch: yyDollar[5].opt_body}
 			setTryFlag(false, yylex)
 		}
 	case 64:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:302
+//line .\grammar.y:298
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 65:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:303
+//line .\grammar.y:299
 		{
 			yyVAL.stmt = yyDollar[2].exprs
 		}
 	case 66:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:304
+//line .\grammar.y:300
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpPlus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 67:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:305
+//line .\grammar.y:301
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMinus, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 68:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:306
+//line .\grammar.y:302
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMul, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 69:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:307
+//line .\grammar.y:303
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpDiv, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 70:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:308
+//line .\grammar.y:304
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpMod, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 71:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:309
+//line .\grammar.y:305
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 72:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:310
+//line .\grammar.y:306
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLt, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 73:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:311
+//line .\grammar.y:307
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpEq, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 74:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:312
+//line .\grammar.y:308
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpOr, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 75:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:313
+//line .\grammar.y:309
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpAnd, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 76:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:314
+//line .\grammar.y:310
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpNe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 77:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:315
+//line .\grammar.y:311
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpLe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 78:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:316
+//line .\grammar.y:312
 		{
 			yyVAL.stmt = &ExpStatement{Operation: OpGe, Left: yyDollar[1].stmt, Right: yyDollar[3].stmt}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:317
+//line .\grammar.y:313
 		{
 			yyVAL.stmt = not(yyDollar[2].stmt)
 		}
 	case 80:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:318
+//line .\grammar.y:314
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 81:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:319
+//line .\grammar.y:315
 		{
 			yyVAL.stmt = GoToStatement{Label: yyDollar[2].goToLabel}
 		}
 	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:320
+//line .\grammar.y:316
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:321
+//line .\grammar.y:317
 		{
 			if tok, ok := yyDollar[1].stmt.(Token); ok {
 				yyVAL.stmt = tok.literal
@@ -1282,169 +1277,169 @@ yydefault:
 		}
 	case 84:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:330
+//line .\grammar.y:326
 		{
 			yyVAL.stmt = nil
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:330
+//line .\grammar.y:326
 		{
 			yyVAL.stmt = yyDollar[1].stmt
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:332
+//line .\grammar.y:328
 		{
 			yyVAL.exprs = ExprStatements{Statements: Statements{yyDollar[1].stmt}}
 		}
 	case 87:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:333
+//line .\grammar.y:329
 		{
 			yyVAL.exprs.Statements = append(yyVAL.exprs.Statements, yyDollar[3].stmt)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:336
+//line .\grammar.y:332
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:337
+//line .\grammar.y:333
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 90:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:338
+//line .\grammar.y:334
 		{
 			yyVAL.stmt = unaryMinus(yyDollar[2].stmt)
 		}
 	case 91:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:339
+//line .\grammar.y:335
 		{
 			yyVAL.stmt = yyDollar[2].stmt
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:340
+//line .\grammar.y:336
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:341
+//line .\grammar.y:337
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:342
+//line .\grammar.y:338
 		{
 			yyVAL.stmt = yyDollar[1].token.value
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:343
+//line .\grammar.y:339
 		{
 			yyVAL.stmt = UndefinedStatement{}
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:344
+//line .\grammar.y:340
 		{
 			yyVAL.stmt = yyDollar[1].goToLabel
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:348
+//line .\grammar.y:344
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(nil, yyDollar[1].token)
 		}
 	case 98:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:349
+//line .\grammar.y:345
 		{
 			yyVAL.declarations_method_param = *(&ParamStatement{}).Fill(&yyDollar[1].token, yyDollar[2].token)
 		}
 	case 99:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:350
+//line .\grammar.y:346
 		{
 			yyVAL.declarations_method_param = *(yyVAL.declarations_method_param.DefaultValue(yyDollar[3].stmt))
 		}
 	case 100:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line .\grammar.y:353
+//line .\grammar.y:349
 		{
 			yyVAL.declarations_method_params = []ParamStatement{}
 		}
 	case 101:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:354
+//line .\grammar.y:350
 		{
 			yyVAL.declarations_method_params = []ParamStatement{yyDollar[1].declarations_method_param}
 		}
 	case 102:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:355
+//line .\grammar.y:351
 		{
 			yyVAL.declarations_method_params = append(yyDollar[1].declarations_method_params, yyDollar[3].declarations_method_param)
 		}
 	case 103:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line .\grammar.y:363
+//line .\grammar.y:359
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal}
 		}
 	case 104:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line .\grammar.y:364
+//line .\grammar.y:360
 		{
 			yyVAL.stmt = NewObjectStatement{Constructor: yyDollar[2].token.literal, Param: yyDollar[4].exprs}
 		}
 	case 105:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line .\grammar.y:365
+//line .\grammar.y:361
 		{
 			yyVAL.stmt = NewObjectStatement{Param: yyDollar[3].exprs}
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:370
+//line .\grammar.y:366
 		{
 			yyVAL.goToLabel = &GoToLabelStatement{Name: yyDollar[1].token.literal}
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:372
+//line .\grammar.y:368
 		{
 			yyVAL.identifiers = []Token{yyDollar[1].token}
 		}
 	case 108:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line .\grammar.y:373
+//line .\grammar.y:369
 		{
 			yyVAL.identifiers = append(yyVAL.identifiers, yyDollar[3].token)
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:376
+//line .\grammar.y:372
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:377
+//line .\grammar.y:373
 		{
 			yyVAL.token = yyDollar[1].token
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line .\grammar.y:378
+//line .\grammar.y:374
 		{
 			yyVAL.token = yyDollar[1].token
 		}
-- 
2.43.0


From 2eb34aa3335353b0d0a6dc8047ba2000047ad696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 05/18] fix: a date literal ends at its apostrophe

A quote right after a date, or a string literal following it, was read as
part of the date.
---
 ast/tokens.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 8ae885c..0fed805 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -277,7 +277,7 @@ eos:
 			return "", fmt.Errorf("unexpected EOF")
 		case cl == end:
 			// пропускаем двойные "
-			if t.nextLet() == '"' {
+			if end == '"' && t.nextLet() == '"' {
 				t.nextPos()
 				ret = append(ret, '"', '"')
 				continue
@@ -288,7 +288,7 @@ eos:
 			// для случаев (в 1с такое допускается, считается одна строка)
 			// d = "ввава"
 			// "fffff"
-			if t.currentLet() == '"' {
+			if end == '"' && t.currentLet() == '"' {
 				continue
 			}
 
-- 
2.43.0


From 8a07733de3f36bc1e2aaec1d9524729f7934037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 06/18] fix: comments between adjacent string literals do not
 separate them

---
 ast/tokens.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/tokens.go b/ast/tokens.go
index 0fed805..acc0fdc 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -284,6 +284,8 @@ eos:
 			}
 			t.nextPos()
 			t.skipSpace()
+			t.skipComment()
+			t.skipRegions()
 
 			// для случаев (в 1с такое допускается, считается одна строка)
 			// d = "ввава"
-- 
2.43.0


From 7d93723d54f1ec8138e5cfa64eeffbfc5af4c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 07/18] fix: report the start of the offending token for every
 kind of token

The column was derived from the end of the token and the length of its
literal, which is not its width for strings, dates and labels.
---
 ast/ast.go    | 6 ++++--
 ast/tokens.go | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index baec22e..d1d4243 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -73,8 +73,10 @@ func (ast *AstNode) SrsCode() string {
 }
 
 func (ast *AstNode) Error(s string) {
-	pos := ast.currentToken.GetPosition()
-	pos.Column -= len([]rune(ast.currentToken.literal)) + 1
+	tok := ast.currentToken
+	tok.offset = tok.start // место ошибки - начало токена
+	pos := tok.GetPosition()
+	pos.Column--
 
 	ast.err = fmt.Errorf("%s. line: %d, column: %d (unexpected literal: %q)", s, pos.Line, pos.Column, ast.currentToken.literal)
 }
diff --git a/ast/tokens.go b/ast/tokens.go
index acc0fdc..90f9a77 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -27,6 +27,7 @@ type Token struct {
 	literal  string
 	position Position
 	offset   int
+	start    int // начало токена
 	prevDot  bool
 }
 
@@ -124,6 +125,7 @@ func (t *Token) next() (int, string, error) {
 	t.skipSpace()
 	t.skipComment()
 	t.skipRegions()
+	t.start = t.offset
 
 	if t.prevDot {
 		defer func() { t.prevDot = false }()
-- 
2.43.0


From 0a35ee7128fcdb8892ac9290fa74ae8cb71fc56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 08/18] fix: walk reports no procedure for module-level
 statements

Statements after a procedure were reported as belonging to it.
---
 ast/ast_struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index 913dec1..fbe3ef3 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -331,7 +331,9 @@ func (m *ModuleStatement) Append(item Statement, yylex yyLexer) {
 // }
 
 func walkHelper(parent *FunctionOrProcedure, parentStm Statement, statements Statements, callBack fCallBack) {
+	outer := parent
 	for i, item := range statements {
+		parent = outer
 		switch v := item.(type) {
 		case *IfStatement:
 			walkHelper(parent, v, Statements{v.Expression}, callBack)
-- 
2.43.0


From 2ac6b199d2cd5eb8a8c755a513bc875a9c923e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 09/18] fix: print numbers with their fraction

---
 ast/ast_print.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index f071ccb..a09c068 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -150,8 +151,10 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
-	case float64, float32:
-		return fmt.Sprintf("%.0f", val)
+	case float64:
+		return strconv.FormatFloat(val, 'f', -1, 64)
+	case float32:
+		return strconv.FormatFloat(float64(val), 'f', -1, 32)
 	case int, int64, int32:
 		return fmt.Sprintf("%d", val)
 	case string:
-- 
2.43.0


From 5694aefe23bdb66429b12f8c1dd4ec738f7cd21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 10/18] fix: print every declaration, in a repeatable order

Local variables and modules consisting of declarations only were dropped,
module variables were printed in map order.
---
 ast/ast_print.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index a09c068..b687f70 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -48,14 +49,11 @@ func (ast *AstNode) PrintStatementWithConf(stat Statement, conf PrintConf) strin
 }
 
 func (p *astPrint) print() string {
-	if len(p.ast.ModuleStatement.Body) == 0 {
-		return ""
-	}
-
 	builder := &strings.Builder{}
 
-	for _, v := range p.ast.ModuleStatement.GlobalVariables {
-		builder.WriteString(p.printGlobalVariables(v))
+	globals := p.ast.ModuleStatement.GlobalVariables
+	for _, name := range sortedKeys(globals) {
+		builder.WriteString(p.printGlobalVariables(globals[name]))
 		builder.WriteString(p.newLine(1))
 	}
 
@@ -144,11 +142,27 @@ func (p *astPrint) printFunctionOrProcedure(pf *FunctionOrProcedure) (result str
 	builder.WriteString(" ")
 	builder.WriteString(export)
 	builder.WriteString(p.newLine(1))
+	if len(pf.ExplicitVariables) > 0 {
+		builder.WriteString(strings.Repeat(" ", p.conf.Margin*depth))
+		builder.WriteString("Перем " + strings.Join(sortedKeys(pf.ExplicitVariables), ", ") + ";")
+		builder.WriteString(p.newLine(1))
+	}
 	builder.WriteString(p.printBody(pf.Body, depth))
 
 	return
 }
 
+// sortedKeys порядок обхода map случаен, а печать должна быть повторяемой
+func sortedKeys[T any](m map[string]T) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+	return keys
+}
+
 func (p *astPrint) printVarStatement(v Statement) string {
 	switch val := v.(type) {
 	case float64:
-- 
2.43.0


From 88eb1f5ad4a8e1a0dc9f3acabd96b54e1204f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 11/18] =?UTF-8?q?fix:=20one-line=20print=20keeps=20=D0=9F?=
 =?UTF-8?q?=D0=BE=D0=BF=D1=8B=D1=82=D0=BA=D0=B0=20and=20=D0=98=D1=81=D0=BA?=
 =?UTF-8?q?=D0=BB=D1=8E=D1=87=D0=B5=D0=BD=D0=B8=D0=B5=20apart=20from=20wha?=
 =?UTF-8?q?t=20follows?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ast/ast_print.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index b687f70..36152de 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -421,6 +421,9 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 
 	spaces := strings.Repeat(" ", p.conf.Margin*depth)
 	builder.WriteString("Попытка")
+	if p.conf.OneLine {
+		builder.WriteString(" ")
+	}
 
 	if try.Body != nil {
 		builder.WriteString(p.printBody(try.Body, depth+1))
@@ -430,6 +433,9 @@ func (p *astPrint) printTryStatement(try TryStatement, depth int) string {
 
 	builder.WriteString(spaces)
 	builder.WriteString("Исключение")
+	if p.conf.OneLine {
+		builder.WriteString(" ")
+	}
 	if try.Catch != nil {
 		builder.WriteString(p.printBody(try.Catch, depth+1))
 	} else {
-- 
2.43.0


From 4a95bd1651a1981173affbe5279835af1cb0823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 12/18] fix: print unary minus and negation of arguments and
 member chains

---
 ast/ast_print.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 36152de..b290164 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -179,7 +179,8 @@ func (p *astPrint) printVarStatement(v Statement) string {
 		return fmt.Sprintf(`'%s'`, val.Format("20060102150405"))
 	case CallChainStatement:
 		not := IF[string](val.not, "Не ", "")
-		return not + p.printCallChainStatement(val)
+		minus := IF[string](val.unaryMinus, "-", "")
+		return not + minus + p.printCallChainStatement(val)
 	case UndefinedStatement:
 		return "Неопределено"
 	case MethodStatement:
@@ -205,7 +206,7 @@ func (p *astPrint) printVarStatement(v Statement) string {
 func (p *astPrint) printParams(Params Statements) string {
 	params := make([]string, len(Params), len(Params))
 	for i, parm := range Params {
-		params[i] = p.printVarStatement(parm)
+		params[i] = p.printExpression(parm, 0)
 	}
 
 	return strings.Join(params, ", ")
-- 
2.43.0


From a07b314716c838d3c4b70ffa09bfe5f5937c655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 13/18] fix: keep every unary minus and negation whatever the
 operand is

They were dropped before calls, indexes, conditionals, constructors and
parenthesised expressions, and when applied twice.
---
 ast/ast.go        | 22 ++++++++++++++++------
 ast/ast_print.go  | 11 ++++++++---
 ast/ast_struct.go |  9 +++++++++
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index d1d4243..c13160e 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -172,10 +172,13 @@ func unaryMinus(iv interface{}) interface{} {
 	case float64:
 		return -v
 	case IUnary:
-		return v.UnaryMinus()
-	default:
-		return v
+		if !isMarked(iv) {
+			return v.UnaryMinus()
+		}
 	}
+
+	// знак нельзя потерять: если операнд его не хранит (или уже хранит другой), то оборачиваем
+	return ExprStatements{Statements: Statements{iv}}.UnaryMinus()
 }
 
 func not(iv interface{}) interface{} {
@@ -183,8 +186,15 @@ func not(iv interface{}) interface{} {
 	case bool:
 		return !v
 	case INot:
-		return v.Not()
-	default:
-		return v
+		if !isMarked(iv) {
+			return v.Not()
+		}
 	}
+
+	return ExprStatements{Statements: Statements{iv}}.Not()
+}
+
+func isMarked(iv interface{}) bool {
+	v, ok := iv.(interface{ marked() bool })
+	return ok && v.marked()
 }
diff --git a/ast/ast_print.go b/ast/ast_print.go
index b290164..32e3ced 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -257,7 +257,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 	case ThrowStatement:
 		builder.WriteString("ВызватьИсключение")
 		if v.Param != nil {
-			if param, ok := v.Param.(ExprStatements); ok {
+			if param, ok := v.Param.(ExprStatements); ok && !param.marked() {
 				builder.WriteString("(" + p.printParams(param.Statements) + ")")
 			} else {
 				builder.WriteString("(" + p.printParams(Statements{v.Param}) + ")")
@@ -275,7 +275,7 @@ func (p *astPrint) printBodyItem(item Statement, depth int) string {
 		builder.WriteString(p.printGoTo(v, depth))
 		builder.WriteString(p.newLine(1))
 	default:
-		builder.WriteString(p.printVarStatement(v))
+		builder.WriteString(p.printExpression(v, 0))
 		builder.WriteString(";")
 	}
 
@@ -350,6 +350,11 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	case ExprStatements:
 		if v.not {
 			builder.WriteString("Не ")
+		}
+		if v.unaryMinus {
+			builder.WriteString("-")
+		}
+		if v.marked() {
 			builder.WriteString("(")
 		}
 
@@ -357,7 +362,7 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString(p.printExpression(s, IF(level == 0, 0, level+1)))
 		}
 
-		if v.not {
+		if v.marked() {
 			builder.WriteString(")")
 		}
 	case *ExpStatement:
diff --git a/ast/ast_struct.go b/ast/ast_struct.go
index fbe3ef3..7e5c6ef 100644
--- a/ast/ast_struct.go
+++ b/ast/ast_struct.go
@@ -203,6 +203,15 @@ func (e *ExpStatement) Not() interface{} {
 	return e
 }
 
+func (f addStatementField) marked() bool {
+	return f.unaryMinus || f.not
+}
+
+func (e ExprStatements) UnaryMinus() interface{} {
+	e.unaryMinus = true
+	return e
+}
+
 func (e ExprStatements) Not() interface{} {
 	e.not = true
 	return e
-- 
2.43.0


From 39afaefd50ee638277ce545417e8259e8c230dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 14/18] fix: print parentheses around a negation that is an
 operand of a comparison

---
 ast/ast_print.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ast/ast_print.go b/ast/ast_print.go
index 32e3ced..4c38875 100644
--- a/ast/ast_print.go
+++ b/ast/ast_print.go
@@ -381,11 +381,11 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 			builder.WriteString("(")
 		}
 
-		builder.WriteString(p.printExpression(v.Left, level+1))
+		builder.WriteString(p.printOperand(v.Operation, v.Left, level+1))
 		builder.WriteString(" ")
 		builder.WriteString(v.Operation.String())
 		builder.WriteString(" ")
-		builder.WriteString(p.printExpression(v.Right, level+1))
+		builder.WriteString(p.printOperand(v.Operation, v.Right, level+1))
 
 		if v.unaryMinus || v.not {
 			builder.WriteString(")")
@@ -409,6 +409,16 @@ func (p *astPrint) printExpression(expr Statement, level int) string {
 	return builder.String()
 }
 
+// printOperand операнд бинарной операции. Отрицание слабее сравнений и арифметики, поэтому там оно берется в скобки
+func (p *astPrint) printOperand(op OperationType, operand Statement, level int) string {
+	text := p.printExpression(operand, level)
+	if op != OpAnd && op != OpOr && strings.HasPrefix(text, "Не ") {
+		return "(" + text + ")"
+	}
+
+	return text
+}
+
 func (p *astPrint) printCallChainStatement(call Statement) string {
 	switch v := call.(type) {
 	case CallChainStatement:
-- 
2.43.0


From 4fe18f1aff1d2bd8927560600fb3b5b2c9e6a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 15/18] fix: C fastToLower terminates, stays inside the string
 and lowers A-Z

It never advanced over continuation bytes, read past truncated sequences
and replaced a Latin capital by the character after it.
---
 ast/fast_tolower/gowrap.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ast/fast_tolower/gowrap.go b/ast/fast_tolower/gowrap.go
index 1729e20..8190405 100644
--- a/ast/fast_tolower/gowrap.go
+++ b/ast/fast_tolower/gowrap.go
@@ -15,19 +15,15 @@ void fastToLower(char* str) {
         if (byte <= 0x7F) {
             currentChar = byte; // Один байт (ASCII)
             i++;
-        } else if (byte >= 0xC0 && byte <= 0xDF) {
+        } else if (byte >= 0xC2 && byte <= 0xDF && (str[i+1] & 0xC0) == 0x80) {
             currentChar = (str[i] & 0x1F) << 6 | (str[i+1] & 0x3F);
             i += 2;
-        } else if (byte >= 0xE0 && byte <= 0xEF) {
-            currentChar = (str[i] & 0x0F) << 12 | (str[i+1] & 0x3F) << 6 | (str[i+2] & 0x3F);
-            i += 3;
-        } else if (byte >= 0xF0 && byte <= 0xF7) {
-            currentChar = (str[i] & 0x07) << 18 | (str[i+1] & 0x3F) << 12 | (str[i+2] & 0x3F) << 6 | (str[i+3] & 0x3F);
-            i += 4;
+        } else {
+            i++; // в более длинных и в ошибочных последовательностях менять нечего
         }
 
 		if (currentChar >= 'A' && currentChar <= 'Z') {
-			str[i-1] = tolower(str[i]);
+			str[i-1] = tolower(currentChar);
 		} else if (currentChar >= 1040 && currentChar <= 1071) { // диапазон А - Я
 			int codepoint = currentChar + 32;
 	 		str[i-2] = 0xC0 | (codepoint >> 6);   // Старший байт
-- 
2.43.0


From 6ecc5b0f0ea562321948c35e1d0d1ed13fc54453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 16/18] fix: no panic when a declaration follows a duplicate
 local variable

---
 ast/grammar.y | 12 ++++++------
 ast/y.go      | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/ast/grammar.y b/ast/grammar.y
index c14ac50..6d1d03b 100644
--- a/ast/grammar.y
+++ b/ast/grammar.y
@@ -170,18 +170,18 @@ opt_explicit_variables: { $$ = map[string]VarStatement{} }
 ;
 
 explicit_variables: Var identifiers semicolon { 
-                    if vars, err := appendVarStatements(map[string]VarStatement{}, $2); err != nil {
+                    vars, err := appendVarStatements(map[string]VarStatement{}, $2)
+                    if err != nil {
                         yylex.Error(err.Error()) 
-                    } else {
-                        $$ = vars
                     }
+                    $$ = vars
                 }
             | explicit_variables Var identifiers semicolon {
-                    if vars, err := appendVarStatements($1, $3); err != nil {
+                    vars, err := appendVarStatements($1, $3)
+                    if err != nil {
                         yylex.Error(err.Error()) 
-                    } else {
-                        $$ = vars
                     }
+                    $$ = vars
                 }
 ;
 
diff --git a/ast/y.go b/ast/y.go
index 7592e96..9b674fa 100644
--- a/ast/y.go
+++ b/ast/y.go
@@ -884,21 +884,21 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line .\grammar.y:172
 		{
-			if vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers); err != nil {
+			vars, err := appendVarStatements(map[string]VarStatement{}, yyDollar[2].identifiers)
+			if err != nil {
 				yylex.Error(err.Error())
-			} else {
-				yyVAL.explicit_variables = vars
 			}
+			yyVAL.explicit_variables = vars
 		}
 	case 27:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line .\grammar.y:179
 		{
-			if vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers); err != nil {
+			vars, err := appendVarStatements(yyDollar[1].explicit_variables, yyDollar[3].identifiers)
+			if err != nil {
 				yylex.Error(err.Error())
-			} else {
-				yyVAL.explicit_variables = vars
 			}
+			yyVAL.explicit_variables = vars
 		}
 	case 28:
 		yyDollar = yyS[yypt-7 : yypt+1]
-- 
2.43.0


From 2c8345beaf503457b651107e3face4387fae6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 17/18] fix: a word after two dots is a member name like after
 one

---
 ast/tokens.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ast/tokens.go b/ast/tokens.go
index 90f9a77..0c9ea52 100644
--- a/ast/tokens.go
+++ b/ast/tokens.go
@@ -127,16 +127,15 @@ func (t *Token) next() (int, string, error) {
 	t.skipRegions()
 	t.start = t.offset
 
-	if t.prevDot {
-		defer func() { t.prevDot = false }()
-	}
+	prevDot := t.prevDot
+	t.prevDot = false
 
 	switch let := t.currentLet(); {
 	case isLetter(let):
 		literal := t.scanIdentifier()
 		lowLit := fastToLower(literal)
 
-		if tName, ok := tokens[lowLit]; ok && !t.prevDot {
+		if tName, ok := tokens[lowLit]; ok && !prevDot {
 			return tName, literal, nil
 		} else {
 			return token_identifier, literal, nil
-- 
2.43.0


From 01d73344d87ed5f84953016f30bdaaa79331bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:12 +0000
Subject: [PATCH 18/18] fix: an error reported before any token is read must
 not panic

AstNode.Error looked for its position through the last token read; with no
token read yet (an empty module to which ModuleStatement.Append adds a variable
twice, say) that token belongs to no text and GetPosition panicked.
---
 ast/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/ast.go b/ast/ast.go
index c13160e..6fce632 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -74,6 +74,9 @@ func (ast *AstNode) SrsCode() string {
 
 func (ast *AstNode) Error(s string) {
 	tok := ast.currentToken
+	if tok.ast == nil {
+		tok.ast = ast // ещё не прочитано ни одного токена
+	}
 	tok.offset = tok.start // место ошибки - начало токена
 	pos := tok.GetPosition()
 	pos.Column--
-- 
2.43.0

