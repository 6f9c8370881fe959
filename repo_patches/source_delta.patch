From 3c1601c1aa30b74f8b40aec40f97471c1c240f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 01/85] fix: the empty string is false in a runtime condition,
 as it is in a constant one

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index ef9fde8..1bcae72 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1688,7 +1688,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				truthy = dl_true;
 			}
 			else if (object1.type == duckVM_object_type_string) {
-				truthy = dl_true;
+				truthy = (dl_size_t) object1.value.string.offset < object1.value.string.length;
 			}
 			else if (object1.type == duckVM_object_type_vector) {
 				truthy = ((object1.value.vector.internal_vector != dl_null)
-- 
2.43.0


From 2ec186f9f596ccb35ad4184b287edfc855547d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 02/85] fix: calling a composite whose function is nil is an
 error instead of a null dereference

---
 duckVM.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 1bcae72..46eded5 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -647,7 +647,8 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 	do {
 		duckVM_object_t restListObject;
 		while (functionObject->type == duckVM_object_type_composite) {
-			*functionObject = *functionObject->value.composite->value.internalComposite.function;
+			duckVM_object_t *function = functionObject->value.composite->value.internalComposite.function;
+			*functionObject = (function == dl_null) ? duckVM_object_makeList(dl_null) : *function;
 		}
 		if (functionObject->type == duckVM_object_type_function) {
 			break;
@@ -1421,7 +1422,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 		if (e) break;
 		while (object1.type == duckVM_object_type_composite) {
-			object1 = *object1.value.composite->value.internalComposite.function;
+			duckVM_object_t *function = object1.value.composite->value.internalComposite.function;
+			object1 = (function == dl_null) ? duckVM_object_makeList(dl_null) : *function;
 		}
 		if (object1.type != duckVM_object_type_closure) {
 			e = dl_error_invalidValue;
-- 
2.43.0


From 5e1b763c866b2e7f976965aea8d5338a8bc7ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 03/85] fix: run each closure with its own bytecode and keep
 the running bytecode alive

The bytecode switched to by a call was dropped after one instruction, so closures made by a
function from an earlier execution referred to the wrong bytecode object and outlived their code.
Nested executions (duckVM_call) cleared the current bytecode of the outer execution and left a
stack object in the call frame for the collector to mark.
---
 duckVM.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 46eded5..bc7426b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4633,6 +4633,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	}
  cleanup:
 	*ipPtr = ip;
+	duckVM->currentBytecode = bytecode;
 	return e;
 }
 
@@ -4643,7 +4644,8 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	dl_error_t e = dl_error_ok;
 
 	duckVM_halt_mode_t halt = duckVM_halt_mode_run;
-	/* Why a reference to bytecode? So it can be switched out with other bytecodes by `duckVM_executeInstruction`. */
+	/* Executions nest when a callback calls a closure. */
+	duckVM_object_t *outerBytecode = duckVM->currentBytecode;
 	duckVM_object_t *bytecodeObject;
 	dl_uint8_t *ip = dl_null;
 	if ((ipOffset < 0) || (bytecode_length <= (dl_size_t) ipOffset)) {
@@ -4665,9 +4667,10 @@ dl_error_t duckVM_executeWithIp(duckVM_t *duckVM,
 	duckVM->currentBytecode = bytecodeObject;
 	if (bytecode_length == 0) goto cleanup;
 	do {
-		e = duckVM_executeInstruction(duckVM, bytecodeObject, &ip, &halt);
+		/* `currentBytecode` is switched out with other bytecodes by `duckVM_executeInstruction`. */
+		e = duckVM_executeInstruction(duckVM, duckVM->currentBytecode, &ip, &halt);
 	} while (!e && (halt == duckVM_halt_mode_run));
-	duckVM->currentBytecode = dl_null;
+	duckVM->currentBytecode = outerBytecode;
 
  cleanup: return e;
 }
@@ -5588,16 +5591,15 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 		{
 			/* Call bytecode. */
 			dl_uint8_t shim_bytecode[] = {duckLisp_instruction_halt};
-			duckVM_object_t shim_bytecode_object[] = {duckVM_object_makeBytecode(shim_bytecode,
-			                                                                     sizeof(shim_bytecode) / sizeof(*shim_bytecode))};
 			dl_uint8_t *shim_ip = shim_bytecode;
 
 			duckVM_object_t *bytecode_object = functionObject.value.closure.bytecode;
 			duckVM_bytecode_t bytecode = bytecode_object->value.bytecode;
 			dl_ptrdiff_t bytecode_offset = functionObject.value.closure.name;
+			/* The frame keeps the bytecode of the caller visible to the collector. */
 			e = call_stack_push(duckVM,
 			                    shim_ip,
-			                    shim_bytecode_object,
+			                    duckVM->currentBytecode,
 			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
-- 
2.43.0


From 8cc65b60f5b75519e0aa5c4ec83cba188c262dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 04/85] fix: keep the upvalues of a running closure alive

A running closure is not necessarily reachable from the stack (a composite's function can be
replaced by the function itself, and self can be reassigned).
---
 duckVM.c | 18 +++++++++++++-----
 duckVM.h |  2 ++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index bc7426b..1a741de 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -257,6 +257,12 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
 			if (e) goto cleanup;
 		}
+		/* The called closure may be unreachable otherwise. */
+		object = DL_ARRAY_GETADDRESS(duckVM->call_stack, duckVM_callFrame_t, i).upvalueArray;
+		if (object != dl_null) {
+			e = duckVM_gclist_markObject(gclistPointer, object, dl_false);
+			if (e) goto cleanup;
+		}
 	}
 
 	/* Current bytecode */
@@ -550,14 +556,16 @@ static dl_error_t stack_set(duckVM_t *duckVM, duckVM_object_t *element, dl_ptrdi
 static dl_error_t call_stack_push(duckVM_t *duckVM,
                                   dl_uint8_t *ip,
                                   duckVM_object_t *bytecode,
-                                  duckVM_upvalueArray_t *upvalueArray) {
+                                  duckVM_object_t *upvalueArray) {
 	dl_error_t e = dl_error_ok;
 	duckVM_callFrame_t frame;
 	frame.ip = ip;
 	frame.bytecode = bytecode;
+	frame.upvalueArray = upvalueArray;
 	e = dl_array_pushElement(&duckVM->call_stack, &frame);
 	if (e) goto cleanup;
-	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack, upvalueArray);
+	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack,
+	                         (upvalueArray == dl_null) ? dl_null : &upvalueArray->value.upvalue_array);
 	if (e) goto cleanup;
  cleanup:
 	if (e) {
@@ -1403,7 +1411,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			break;
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -1535,7 +1543,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		/* Call. */
-		e = call_stack_push(duckVM, ip, bytecode, &object1.value.closure.upvalue_array->value.upvalue_array);
+		e = call_stack_push(duckVM, ip, bytecode, object1.value.closure.upvalue_array);
 		if (e) break;
 		bytecode = object1.value.closure.bytecode;
 		ip = &bytecode->value.bytecode.bytecode[object1.value.closure.name];
@@ -5600,7 +5608,7 @@ dl_error_t duckVM_call(duckVM_t *duckVM, dl_ptrdiff_t stackIndex, dl_uint8_t num
 			e = call_stack_push(duckVM,
 			                    shim_ip,
 			                    duckVM->currentBytecode,
-			                    &functionObject.value.closure.upvalue_array->value.upvalue_array);
+			                    functionObject.value.closure.upvalue_array);
 			if (e) break;
 			/* stack: function *args */
 			e = duckVM_executeWithIp(duckVM, bytecode.bytecode, bytecode_offset, bytecode.bytecode_length);
diff --git a/duckVM.h b/duckVM.h
index d2153ce..0097f3d 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -49,6 +49,8 @@ typedef struct duckVM_gclist_s {
 typedef struct {
 	dl_uint8_t *ip;
 	struct duckVM_object_s *bytecode;
+	/* Upvalue array of the called closure, kept for the garbage collector. */
+	struct duckVM_object_s *upvalueArray;
 } duckVM_callFrame_t;
 
 typedef struct duckVM_s {
-- 
2.43.0


From 81006cf9bebc421d22cd837c6574a4e55533035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 05/85] fix: report a failed mark, so that the collector does
 not sweep live objects

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 1a741de..ae44983 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -206,7 +206,10 @@ static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_objec
 	}
 
  cleanup:
-	e = dl_array_quit(&dispatchStack);
+	{
+		dl_error_t eError = dl_array_quit(&dispatchStack);
+		if (eError) e = eError;
+	}
 	return e;
 }
 
-- 
2.43.0


From cec3a0fa66ae192762d49716f441fe34fb2c227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 06/85] fix: not is true for a vector emptied through an alias,
 like null? and conditions

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index ae44983..ef7f6be 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1787,7 +1787,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		switch (object1.type) {
 		case duckVM_object_type_vector:
 			object1.type = duckVM_object_type_bool;
-			object1.value.boolean = object1.value.vector.internal_vector == dl_null;
+			object1.value.boolean = ((object1.value.vector.internal_vector == dl_null)
+			                         || ((dl_size_t) object1.value.vector.offset
+			                             >= object1.value.vector.internal_vector->value.internal_vector.length));
 			break;
 		case duckVM_object_type_list:
 			object1.type = duckVM_object_type_bool;
-- 
2.43.0


From f17d41e9b1da709c33444c9ce85c721b5cb355a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 07/85] fix: integer division by zero is a runtime error
 instead of a crash

---
 duckVM.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index ef7f6be..38df53b 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -754,6 +754,33 @@ static dl_error_t duckVM_instruction_prepareForFuncall(duckVM_t *duckVM,
 }                
 
 
+/* Integers (and booleans) can't be divided by zero, and the quotient has to be representable. */
+static dl_error_t checkIntegerDivision(duckVM_t *duckVM, duckVM_object_t *dividend, duckVM_object_t *divisor) {
+	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
+	dl_bool_t zero = dl_false;
+	dl_bool_t overflow = dl_false;
+
+	if ((dividend->type != duckVM_object_type_integer) && (dividend->type != duckVM_object_type_bool)) return e;
+
+	if (divisor->type == duckVM_object_type_integer) {
+		zero = divisor->value.integer == 0;
+		overflow = ((dividend->type == duckVM_object_type_integer)
+		            && (divisor->value.integer == -1)
+		            && (dividend->value.integer < 0)
+		            && (dividend->value.integer == (dl_ptrdiff_t) (0 - (dl_size_t) dividend->value.integer)));
+	}
+	else if (divisor->type == duckVM_object_type_bool) {
+		zero = !divisor->value.boolean;
+	}
+	if (zero || overflow) {
+		e = dl_error_invalidValue;
+		eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->div: Division by zero or overflow."));
+		if (eError) e = eError;
+	}
+	return e;
+}
+
 int duckVM_executeInstruction(duckVM_t *duckVM,
                               duckVM_object_t *bytecode,
                               unsigned char **ipPtr,
@@ -2046,6 +2073,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		e = checkIntegerDivision(duckVM, &object1, &object2);
+		if (e) break;
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
@@ -2118,6 +2147,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		e = checkIntegerDivision(duckVM, &object1, &object2);
+		if (e) break;
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
@@ -2187,6 +2218,8 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (e) break;
 		e = dl_array_get(&duckVM->stack, &object2, duckVM->stack.elements_length - ptrdiff2);
 		if (e) break;
+		e = checkIntegerDivision(duckVM, &object1, &object2);
+		if (e) break;
 		switch (object1.type) {
 		case duckVM_object_type_float:
 			switch (object2.type) {
-- 
2.43.0


From 8d4634c240448de945f8d8e28a7893015c382b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:18 +0000
Subject: [PATCH 08/85] fix: keep the elements of a vector alive while the
 vector is being filled

---
 duckVM.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 38df53b..ec8a504 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3215,6 +3215,11 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = duckVM_gclist_pushObject(duckVM, &object1.value.vector.internal_vector, internal_vector);
 			if (e) break;
 		}
+		/* The elements which already exist must stay alive while the remaining ones are allocated. */
+		DL_DOTIMES(k, size1) {
+			object1.value.vector.internal_vector->value.internal_vector.values[k] = dl_null;
+		}
+		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		/* Immediately push on stack so that the GC can see it. Allocating elements could trigger a GC. */
 		e = dl_array_pushElement(&duckVM->stack, &object1);
 		if (e) break;
@@ -3255,7 +3260,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		/* Break push_scope abstraction. */
 		e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
 		if (e) break;
-		object1.value.vector.internal_vector->value.internal_vector.initialized = dl_true;
 		DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t) = object1;
 		break;
 
-- 
2.43.0


From c8174218fdf1b79fff46abaf9359f72b12605d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 09/85] fix: bounds of get-vector-element and
 set-vector-element on empty vectors and negative indices

---
 duckVM.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index ec8a504..297ce44 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3413,6 +3413,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		if (object1.type == duckVM_object_type_vector) {
 			ptrdiff1 = object2.value.integer;
 			if ((ptrdiff1 < 0)
+			    || (object1.value.vector.internal_vector == dl_null)
 			    || ((dl_size_t) (ptrdiff1 + object1.value.vector.offset)
 			        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
@@ -3524,8 +3525,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 		/* Vector bounds check. */
 		ptrdiff2 = object2.value.integer;
-		if ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
-		    >= object1.value.vector.internal_vector->value.internal_vector.length) {
+		if ((ptrdiff2 < 0)
+		    || (object1.value.vector.internal_vector == dl_null)
+		    || ((dl_size_t) (ptrdiff2 + object1.value.vector.offset)
+		        >= object1.value.vector.internal_vector->value.internal_vector.length)) {
 			e = dl_error_invalidValue;
 			break;
 		}
-- 
2.43.0


From debd2f91c6e94890fd7ec8ab3941bca952ec809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 10/85] fix: set-car on an empty vector is an error instead of
 a write out of bounds

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 297ce44..c419ec5 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3791,7 +3791,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			}
 		}
 		else if ((object2.type == duckVM_object_type_vector)
-		         && (object2.value.vector.internal_vector != dl_null)) {
+		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)) {
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object1);
 			if (e) break;
 			(object2.value.vector.internal_vector
-- 
2.43.0


From 8ade17ccfe1cb67b0278106efaeebced2b21603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 11/85] fix: set-cdr truncates a vector right after the current
 element, as documented

---
 duckVM.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index c419ec5..9818e0d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -3850,11 +3850,15 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		else if ((object2.type == duckVM_object_type_vector)
 		         && (object2.value.vector.internal_vector != dl_null)
+		         && ((dl_size_t) object2.value.vector.offset
+		             < object2.value.vector.internal_vector->value.internal_vector.length)
 		         && (((object1.type == duckVM_object_type_vector)
-		              && (object1.value.vector.internal_vector == dl_null))
+		              && ((object1.value.vector.internal_vector == dl_null)
+		                  || ((dl_size_t) object1.value.vector.offset
+		                      >= object1.value.vector.internal_vector->value.internal_vector.length)))
 		             || ((object1.type == duckVM_object_type_list)
 		                 && (object1.value.list == dl_null)))) {
-			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset;
+			object2.value.vector.internal_vector->value.internal_vector.length = object2.value.vector.offset + 1;
 		}
 		else {
 			e = dl_error_invalidValue;
-- 
2.43.0


From 45316cdf700a8992ec5b4c2866f8fd6bbdb5bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 12/85] fix: the length of a vector truncated before its first
 element is 0, not negative

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 9818e0d..90c17e1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4202,7 +4202,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				}
 			}
 			else if (object1.type == duckVM_object_type_vector) {
-				object2.value.integer = (object1.value.vector.internal_vector
+				object2.value.integer = ((object1.value.vector.internal_vector
+				                          && ((dl_size_t) object1.value.vector.offset
+				                              < object1.value.vector.internal_vector->value.internal_vector.length))
 				                         ? (object1.value.vector.internal_vector->value.internal_vector.length
 				                            - object1.value.vector.offset)
 				                         : 0);
-- 
2.43.0


From 8a865c51facc0c91eb0a300f5cc1917aabb16db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 13/85] fix: make-string reports bad elements and accepts empty
 vectors instead of using freed or null memory

---
 duckVM.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 90c17e1..dab2671 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4292,13 +4292,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_array_get(&duckVM->stack, &object1, duckVM->stack.elements_length - ptrdiff1);
 			if (e) break;
 			if (object1.type == duckVM_object_type_vector) {
-				dl_size_t vector_length = object1.value.vector.internal_vector->value.internal_vector.length;
-				string_length = vector_length - object1.value.vector.offset;
-				e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
-				if (e) break;
+				dl_size_t vector_length = (object1.value.vector.internal_vector
+				                           ? object1.value.vector.internal_vector->value.internal_vector.length
+				                           : 0);
+				if ((dl_size_t) object1.value.vector.offset < vector_length) {
+					string_length = vector_length - object1.value.vector.offset;
+					e = DL_MALLOC(duckVM->memoryAllocation, &string, string_length, dl_uint8_t);
+					if (e) break;
+				}
 				for (dl_ptrdiff_t i = object1.value.vector.offset; (dl_size_t) i < vector_length; i++) {
 					duckVM_object_t *element = object1.value.vector.internal_vector->value.internal_vector.values[i];
-					if (element->type != duckVM_object_type_integer) {
+					if ((element == dl_null) || (element->type != duckVM_object_type_integer)) {
 						e = dl_error_invalidValue;
 						eError = duckVM_error_pushRuntime(duckVM,
 						                                  DL_STR("duckVM_execute->make-string: All elements of vector must be integers."));
@@ -4310,6 +4314,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					/* Truncate to 8 bits. */
 					string[i - object1.value.vector.offset] = element->value.integer;
 				}
+				if (e) break;
 			}
 			else if (object1.type == duckVM_object_type_list) {
 				dl_array_t string_array;
@@ -4321,7 +4326,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 					}
 					else if (objectPtr1->type == duckVM_object_type_cons) {
 						duckVM_object_t *car = objectPtr1->value.cons.car;
-						if (car->type != duckVM_object_type_integer) {
+						if ((car == dl_null) || (car->type != duckVM_object_type_integer)) {
 							e = dl_error_invalidValue;
 							eError = duckVM_error_pushRuntime(duckVM,
 							                                  DL_STR("duckVM_execute->make-string: All list elements must be integers."));
@@ -4350,6 +4355,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 						break;
 					}
 				}
+				if (e) break;
 				string = string_array.elements;
 				string_length = string_array.elements_length;
 			}
@@ -4358,8 +4364,6 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_execute->make-string: Only vector arguments are supported."));
 				if (eError) e = eError;
-				eError = DL_FREE(duckVM->memoryAllocation, &string);
-				if (eError) e = eError;
 				break;
 			}
 			object1.type = duckVM_object_type_internalString;
@@ -4371,8 +4375,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (eError) e = eError;
 				break;
 			}
-			e = DL_FREE(duckVM->memoryAllocation, &string);
-			if (e) break;
+			if (string != dl_null) {
+				e = DL_FREE(duckVM->memoryAllocation, &string);
+				if (e) break;
+			}
 			object1.type = duckVM_object_type_string;
 			object1.value.string.internalString = objectPtr1;
 			object1.value.string.offset = 0;
-- 
2.43.0


From 06b1a27665cbb3a2be74635b1de5762ef12a6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 14/85] fix: concatenate copies only what is left of a string,
 and accepts empty strings

---
 duckVM.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index dab2671..5f2a80c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4460,20 +4460,24 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			dl_uint8_t *object2_string = dl_null;
 			dl_size_t object2_string_length = 0;
 			if (object1.type == duckVM_object_type_string) {
-				object1_string = (object1.value.string.internalString->value.internalString.value
-				                  + object1.value.string.offset);
-				object1_string_length = object1.value.string.length;
+				if (object1.value.string.internalString != dl_null) {
+					object1_string = (object1.value.string.internalString->value.internalString.value
+					                  + object1.value.string.offset);
+					object1_string_length = object1.value.string.length - object1.value.string.offset;
+				}
 			}
-			else {
+			else if (object1.value.symbol.internalString != dl_null) {
 				object1_string = object1.value.symbol.internalString->value.internalString.value;
 				object1_string_length = object1.value.symbol.internalString->value.internalString.value_length;
 			}
 			if (object2.type == duckVM_object_type_string) {
-				object2_string = (object2.value.string.internalString->value.internalString.value
-				                  + object2.value.string.offset);
-				object2_string_length = object2.value.string.length;
+				if (object2.value.string.internalString != dl_null) {
+					object2_string = (object2.value.string.internalString->value.internalString.value
+					                  + object2.value.string.offset);
+					object2_string_length = object2.value.string.length - object2.value.string.offset;
+				}
 			}
-			else {
+			else if (object2.value.symbol.internalString != dl_null) {
 				object2_string = object2.value.symbol.internalString->value.internalString.value;
 				object2_string_length = object2.value.symbol.internalString->value.internalString.value_length;
 			}
@@ -4482,15 +4486,17 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			object3.value.internalString.value_length = object1_string_length;
 			e = duckVM_gclist_pushObject(duckVM, &objectPtr1, object3);
 			if (e) break;
-			objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
-			e = DL_REALLOC(duckVM->memoryAllocation,
-			               &objectPtr1->value.internalString.value,
-			               objectPtr1->value.internalString.value_length,
-			               dl_uint8_t);
-			if (e) break;
-			/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
-			                          object2_string,
-			                          object2_string_length);
+			if (object2_string_length > 0) {
+				e = DL_REALLOC(duckVM->memoryAllocation,
+				               &objectPtr1->value.internalString.value,
+				               object1_string_length + object2_string_length,
+				               dl_uint8_t);
+				if (e) break;
+				/**/ dl_memcopy_noOverlap((objectPtr1->value.internalString.value + object1_string_length),
+				                          object2_string,
+				                          object2_string_length);
+				objectPtr1->value.internalString.value_length = object1_string_length + object2_string_length;
+			}
 			object3.type = duckVM_object_type_string;
 			object3.value.string.offset = 0;
 			object3.value.string.length = objectPtr1->value.internalString.value_length;
-- 
2.43.0


From 2009b69b5b5276cc1c3cb9fcfa9e6ec3eba74590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 15/85] fix: symbol-string of a symbol without a name is the
 empty string instead of a null dereference

---
 duckVM.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 5f2a80c..0da8a56 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4247,7 +4247,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		object2.type = duckVM_object_type_string;
 		object2.value.string.internalString = object1.value.symbol.internalString;
 		object2.value.string.offset = 0;
-		object2.value.string.length = object1.value.symbol.internalString->value.internalString.value_length;
+		object2.value.string.length = (object1.value.symbol.internalString
+		                               ? object1.value.symbol.internalString->value.internalString.value_length
+		                               : 0);
 		e = stack_push(duckVM, &object2);
 		if (e) break;
 		break;
-- 
2.43.0


From 13955b274db13455e32af4e53c5c4aef016946d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 16/85] fix: apply with more arguments than the function takes
 is an error, as it is for funcall

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 0da8a56..09203a1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1567,7 +1567,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			if (e) break;
 		}
 		else {
-			if (object1.value.closure.arity != uint8) {
+			if ((object1.value.closure.arity != uint8) || (rest.value.list != dl_null)) {
 				e = dl_error_invalidValue;
 				break;
 			}
-- 
2.43.0


From 53f4d7afe0dbb61421a04655fcb92e543bd44368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 17/85] fix: apply accepts callbacks, as documented

---
 duckVM.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 09203a1..537584f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1463,10 +1463,10 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			duckVM_object_t *function = object1.value.composite->value.internalComposite.function;
 			object1 = (function == dl_null) ? duckVM_object_makeList(dl_null) : *function;
 		}
-		if (object1.type != duckVM_object_type_closure) {
+		if ((object1.type != duckVM_object_type_closure) && (object1.type != duckVM_object_type_function)) {
 			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
-			                                  DL_STR("duckVM_execute->apply: Applied object is not a closure."));
+			                                  DL_STR("duckVM_execute->apply: Applied object is not a closure or callback."));
 			if (eError) e = eError;
 			break;
 		}
@@ -1478,7 +1478,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			e = dl_error_invalidValue;
 			break;
 		}
-		while ((uint8 < object1.value.closure.arity) && (rest.value.list != dl_null)) {
+		if ((object1.type == duckVM_object_type_function) && duckVM_listIsCyclic(rest.value.list)) {
+			e = dl_error_invalidValue;
+			eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->apply: List must not be circular."));
+			if (!e) e = eError;
+			break;
+		}
+		while (((object1.type == duckVM_object_type_function) || (uint8 < object1.value.closure.arity))
+		       && (rest.value.list != dl_null)) {
 			if (rest.value.list->type != duckVM_object_type_cons) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
@@ -1503,6 +1510,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			uint8++;
 		}
 		if (e) break;
+		if (object1.type == duckVM_object_type_function) {
+			e = object1.value.function.callback(duckVM);
+			if (e) {
+				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->apply: C callback returned error."));
+				if (!e) e = eError;
+			}
+			break;
+		}
 		if (object1.value.closure.variadic) {
 			if (uint8 < object1.value.closure.arity) {
 				e = dl_error_invalidValue;
-- 
2.43.0


From 2912b059359e36ff6b9f8f26f12ced00ddc3dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 18/85] fix: a macro which returns a symbol without a name is
 an error instead of a null dereference

---
 duckLisp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index b4e164e..4bf01a8 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -789,6 +789,13 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 		}
 		break;
 	case duckVM_object_type_symbol:
+		if (object->value.symbol.internalString == dl_null) {
+			e = dl_error_invalidValue;
+			eError = duckLisp_error_pushRuntime(duckLisp,
+			                                    DL_STR("objectToAST: Attempted to convert nameless symbol to expression."));
+			if (!e) e = eError;
+			break;
+		}
 		ast->value.identifier.value_length = object->value.symbol.internalString->value.internalString.value_length;
 		e = dl_malloc(duckLisp->memoryAllocation,
 		              (void **) &ast->value.identifier.value,
-- 
2.43.0


From 7511e4ded92cc78e4f0fad51548a7247452bc3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 19/85] fix: duckVM_setGlobal stores the value on top of the
 stack instead of dereferencing a null pointer

---
 duckVM.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 537584f..959785f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4854,10 +4854,13 @@ dl_error_t duckVM_pushGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
 
 /* Set the specified global variable to the value of the object on top of the stack. */
 dl_error_t duckVM_setGlobal(duckVM_t *duckVM, const dl_ptrdiff_t key) {
-	duckVM_object_t *object = dl_null;
-	dl_error_t e = stack_getTop(duckVM, object);
+	duckVM_object_t object;
+	duckVM_object_t *objectPointer = dl_null;
+	dl_error_t e = stack_getTop(duckVM, &object);
+	if (e) return e;
+	e = duckVM_gclist_pushObject(duckVM, &objectPointer, object);
 	if (e) return e;
-	return duckVM_global_set(duckVM, object, key);
+	return duckVM_global_set(duckVM, objectPointer, key);
 }
 
 
-- 
2.43.0


From b760161eaed57ae2668be963474a4318738e9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 20/85] fix: duckVM_pushFirst and duckVM_pushRest return their
 error instead of pushing an undefined object

---
 duckVM.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 959785f..eeb362c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6412,6 +6412,7 @@ dl_error_t duckVM_pushFirst(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &first);
 		if (e) break;
 	} while (0);
@@ -6516,6 +6517,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			break;
 		}
 		}
+		if (e) break;
 		e = duckVM_object_push(duckVM, &rest);
 		if (e) break;
 	} while (0);
-- 
2.43.0


From be31e06bc165372dcb1b013d74dafff16c53a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 21/85] fix: duckVM_pushFirst and duckVM_pushElement of a
 string respect its bounds and offset

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index eeb362c..943e9f8 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5171,7 +5171,10 @@ dl_error_t duckVM_string_getElement(duckVM_string_t string, dl_uint8_t *byte, dl
 	duckVM_internalString_t internalString;
 	dl_error_t e = duckVM_string_getInternalString(string, &internalString);
 	if (e) return e;
-	*byte = internalString.value[index];
+	if ((index < 0) || ((dl_size_t) index >= string.length - string.offset)) {
+		return dl_error_invalidValue;
+	}
+	*byte = internalString.value[string.offset + index];
 	return e;
 }
 
-- 
2.43.0


From 9d7a4e8104c71970260132f3d9bb4fef36afa58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:46 +0000
Subject: [PATCH 22/85] fix: the C API treats a vector truncated before its
 first element as empty

---
 duckVM.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 943e9f8..5bf2017 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5347,7 +5347,9 @@ dl_error_t duckVM_vector_getLength(duckVM_vector_t vector, dl_size_t *length) {
 	duckVM_internalVector_t internalVector;
 	dl_error_t e = duckVM_vector_getInternalVector(vector, &internalVector);
 	if (e) return e;
-	*length = internalVector.length - vector.offset;
+	*length = (((dl_size_t) vector.offset < internalVector.length)
+	           ? (internalVector.length - vector.offset)
+	           : 0);
 	return e;
 }
 
@@ -5525,7 +5527,8 @@ dl_error_t duckVM_isEmptyVector(duckVM_t *duckVM, dl_bool_t *result) {
 	if (object.type == duckVM_object_type_vector) {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
@@ -5577,7 +5580,8 @@ dl_error_t duckVM_isEmpty(duckVM_t *duckVM, dl_bool_t *result) {
 	case duckVM_object_type_vector: {
 		duckVM_object_t *internal_vector_object = object.value.vector.internal_vector;
 		if (internal_vector_object) {
-			*result = (0 == internal_vector_object->value.internal_vector.length);
+			*result = ((dl_size_t) object.value.vector.offset
+			           >= internal_vector_object->value.internal_vector.length);
 		}
 		else {
 			*result = dl_true;
@@ -6893,7 +6897,8 @@ dl_error_t duckVM_length(duckVM_t *duckVM, dl_size_t *length) {
 		case duckVM_object_type_vector: {
 			duckVM_vector_t vector = sequence.value.vector;
 			duckVM_object_t *internal_vector = vector.internal_vector;
-			local_length = (internal_vector
+			local_length = ((internal_vector
+			                 && ((dl_size_t) vector.offset < internal_vector->value.internal_vector.length))
 			                ? (internal_vector->value.internal_vector.length - vector.offset)
 			                : 0);
 			break;
-- 
2.43.0


From 2986e8500a010e0a4ce62d497f9ef226b660cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 23/85] fix: duckVM_pushRest of a sequence with one element
 pushes an empty sequence, and of an empty vector is an error

---
 duckVM.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 5bf2017..c0c6cff 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6484,7 +6484,8 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = vector.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= vector.internal_vector->value.internal_vector.length) {
+			if ((vector.internal_vector == dl_null)
+			    || ((dl_size_t) offset > vector.internal_vector->value.internal_vector.length)) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                             DL_STR("duckVM_pushRest: Vector is empty."));
@@ -6499,7 +6500,7 @@ dl_error_t duckVM_pushRest(duckVM_t *duckVM) {
 			dl_ptrdiff_t offset = string.offset;
 			rest = sequence;
 			offset++;
-			if ((dl_size_t) offset >= string.length) {
+			if ((dl_size_t) offset > string.length) {
 				e = dl_error_invalidValue;
 				eError = duckVM_error_pushRuntime(duckVM,
 				                                  DL_STR("duckVM_pushRest: String is empty."));
-- 
2.43.0


From d64ee3464b0e7bf1ec2ff9cd93a1202172aaa73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:56 +0000
Subject: [PATCH 24/85] fix: duckVM_pushElement of a list pushes the indexed
 element, and is an error past the end

---
 duckVM.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index c0c6cff..3706cf1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6692,6 +6692,13 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 		duckVM_object_t element;
 		e = dl_array_getTop(&duckVM->stack, &sequence);
 		if (e) break;
+		if (sequence_index < 0) {
+			e = dl_error_invalidValue;
+			eError = duckVM_error_pushRuntime(duckVM,
+			                                  DL_STR("duckVM_pushElement: Index is negative."));
+			if (!e) e = eError;
+			break;
+		}
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
@@ -6714,7 +6721,29 @@ dl_error_t duckVM_pushElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index) {
 				}
 			}
 			if (e) break;
-			element = *element_pointer;
+			if (element_pointer == dl_null) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_pushElement: Ran out of elements in list."));
+				if (!e) e = eError;
+				break;
+			}
+			if (duckVM_object_type_cons != element_pointer->type) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM,
+				                                  DL_STR("duckVM_pushElement: Ran out of elements in improper list."));
+				if (!e) e = eError;
+				break;
+			}
+			{
+				duckVM_object_t *car = element_pointer->value.cons.car;
+				if ((car == dl_null) || (car->type == duckVM_object_type_cons)) {
+					element = duckVM_object_makeList(car);
+				}
+				else {
+					element = *car;
+				}
+			}
 			break;
 		}
 		case duckVM_object_type_vector: {
-- 
2.43.0


From 51e65a6230b7e0d3f37f83b6e05e7bf674b05bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 25/85] fix: getting or setting an upvalue out of range is an
 error

---
 duckVM.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 3706cf1..d9e6627 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5260,6 +5260,8 @@ dl_error_t duckVM_upvalueArray_getUpvalue(duckVM_t *duckVM,
 
 	if (object == dl_null) return dl_error_nullPointer;
 
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) return dl_error_invalidValue;
+
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
 	/* Follow the chain of upvalues. */
@@ -5296,6 +5298,8 @@ dl_error_t duckVM_upvalueArray_setUpvalue(duckVM_t *duckVM,
 
 	if (object == dl_null) return dl_error_nullPointer;
 
+	if ((index < 0) || ((dl_size_t) index >= upvalueArray.length)) return dl_error_invalidValue;
+
 	duckVM_object_t *upvalueObject = upvalueArray.upvalues[index];
 
 	/* Follow the chain of upvalues. */
-- 
2.43.0


From 5e3ffefcd1d71167b17d299e1872908f3fa27cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 26/85] fix: duckVM_setElement of a list sets the indexed
 element, and an unsupported type is an error

---
 duckVM.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index d9e6627..f8946db 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6806,22 +6806,15 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 		if (e) break;
 		e = stack_get(duckVM, &sequence, stack_index);
 		if (e) break;
+		if (sequence_index < 0) {
+			e = dl_error_invalidValue;
+			eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_setElement: Index is negative."));
+			if (!e) e = eError;
+			break;
+		}
 		type = sequence.type;
 		switch (type) {
 		case duckVM_object_type_list: {
-			duckVM_list_t list = sequence.value.list;
-			if (list) {
-				list->value.cons.car = value_pointer;
-			}
-			else {
-				/* Nil */
-				e = dl_error_invalidValue;
-				eError = duckVM_error_pushRuntime(duckVM,
-				                                  DL_STR("duckVM_setElement: List is nil."));
-				break;
-			}
-			break;
-			/* This looks like a bug: */ }{
 			duckVM_object_t *element_pointer = sequence.value.list;
 			DL_DOTIMES(k, sequence_index) {
 				if (element_pointer) {
@@ -6886,6 +6879,7 @@ dl_error_t duckVM_setElement(duckVM_t *duckVM, dl_ptrdiff_t sequence_index, dl_p
 			break;
 		}
 		default: {
+			e = dl_error_invalidValue;
 			eError = duckVM_error_pushRuntime(duckVM,
 			                                  DL_STR("duckVM_setElement: Unsupported object type."));
 			if (eError) e = eError;
-- 
2.43.0


From 82e97473e21683f0609376ae4a9c46ecc709c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 27/85] fix: duckVM_setRest with a list makes a proper list

---
 duckVM.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index f8946db..b9a1df8 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6637,7 +6637,10 @@ dl_error_t duckVM_setRest(duckVM_t *duckVM, dl_ptrdiff_t stack_index) {
 		case duckVM_object_type_list: {
 			duckVM_list_t list = sequence.value.list;
 			if (list) {
-				list->value.cons.cdr = value_pointer;
+				/* A list has to be linked directly to be a proper list. */
+				list->value.cons.cdr = ((duckVM_object_type_list == value.type)
+				                        ? value.value.list
+				                        : value_pointer);
 			}
 			else {
 				e = dl_error_invalidValue;
-- 
2.43.0


From 5b9b2d4a8c695e385708d33d07d2a4286b5336c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 28/85] fix: duckVM_setCompositeFunction accepts stack indices
 relative to the top, like duckVM_setCompositeValue

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index b9a1df8..22d73e0 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6186,7 +6186,7 @@ dl_error_t duckVM_setCompositeFunction(duckVM_t *duckVM, dl_ptrdiff_t stack_inde
 		duckVM_object_t *heap_value = dl_null;
 		e = dl_array_getTop(&duckVM->stack, &value);
 		if (e) break;
-		e = dl_array_get(&duckVM->stack, &composite, stack_index);
+		e = stack_get(duckVM, &composite, stack_index);
 		if (e) break;
 		if (duckVM_object_type_composite != composite.type) {
 			e = dl_error_invalidValue;
-- 
2.43.0


From 7ae08b0a61c6c204a25a6e7dc81f0450db09dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 29/85] fix: duckVM_pushComposite keeps the slots of the
 composite visible to the collector

---
 duckVM.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 22d73e0..918d654 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6077,12 +6077,18 @@ dl_error_t duckVM_pushComposite(duckVM_t *duckVM, dl_size_t type) {
 		duckVM_object_t object;
 		nil.type = duckVM_object_type_list;
 		nil.value.list = dl_null;
-		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
-		if (e) break;
-		e = duckVM_object_makeComposite(duckVM, &object, type, nil_pointer, nil_pointer);
+		/* Allocate the composite first and make it visible to the collector before allocating its slots. */
+		e = duckVM_object_makeComposite(duckVM, &object, type, dl_null, dl_null);
 		if (e) break;
 		e = duckVM_object_push(duckVM, &object);
 		if (e) break;
+		e = duckVM_allocateHeapObject(duckVM, &nil_pointer, nil);
+		if (e) {
+			(void) duckVM_pop(duckVM);
+			break;
+		}
+		object.value.composite->value.internalComposite.value = nil_pointer;
+		object.value.composite->value.internalComposite.function = nil_pointer;
 	} while (0);
 	return e;
 }
-- 
2.43.0


From 2b7b1789e3da414d390dd723b7ef0e9ed4b912cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 30/85] fix: duckVM_pushVector initializes the elements to nil
 and reports its errors

---
 duckVM.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index 918d654..efe3e8c 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -6242,6 +6242,7 @@ dl_error_t duckVM_pushCons(duckVM_t *duckVM) {
 /* Push a vector with the specified length onto the stack with each element to nil. */
 dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 	do {
 		duckVM_object_t vector;
 		dl_array_t array;
@@ -6253,15 +6254,23 @@ dl_error_t duckVM_pushVector(duckVM_t *duckVM, dl_size_t length) {
 				if (e) break;
 			}
 			if (e) break;
-			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
-			if (e) break;
+			/* Make the vector visible to the collector before allocating its elements. */
 			e = duckVM_object_makeVector(duckVM, &vector, array);
 			if (e) break;
 			e = stack_push(duckVM, &vector);
 			if (e) break;
+			if (length == 0) break;
+			e = duckVM_allocateHeapObject(duckVM, &nil_pointer, duckVM_object_makeList(dl_null));
+			if (e) {
+				(void) duckVM_pop(duckVM);
+				break;
+			}
+			DL_DOTIMES(k, length) {
+				vector.value.vector.internal_vector->value.internal_vector.values[k] = nil_pointer;
+			}
 		} while (0);
-		e = dl_array_quit(&array);
-		if (e) break;
+		eError = dl_array_quit(&array);
+		if (!e) e = eError;
 	} while (0);
 	return e;
 }
-- 
2.43.0


From 1aa606cdcecd0ae9d2cb988bcf71bb05c676d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 31/85] fix: copying an empty string or symbol name gives
 length 0 with every allocator

---
 duckVM.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index efe3e8c..7c910f1 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -5091,7 +5091,7 @@ dl_error_t duckVM_object_getString(dl_memoryAllocation_t *memoryAllocation,
 	{
 		dl_ptrdiff_t offset = object.value.string.offset;
 		dl_size_t length = object.value.string.length;
-		if (length) {
+		if (length > (dl_size_t) offset) {
 			e = DL_MALLOC(memoryAllocation, string, length - offset, dl_uint8_t);
 			if (e) goto cleanup;
 
@@ -5981,14 +5981,17 @@ dl_error_t duckVM_copySymbolName(duckVM_t *duckVM, dl_uint8_t **name, dl_size_t
 		if (object.value.symbol.internalString != dl_null) {
 			e = duckVM_symbol_getInternalString(object.value.symbol, &internal_string);
 			if (e) break;
-			e = DL_MALLOC(duckVM->memoryAllocation, name, internal_string.value_length, dl_uint8_t);
-			if (e) break;
-			(void) dl_memcopy_noOverlap(*name, internal_string.value, internal_string.value_length);
+			*name = dl_null;
+			if (internal_string.value_length > 0) {
+				e = DL_MALLOC(duckVM->memoryAllocation, name, internal_string.value_length, dl_uint8_t);
+				if (e) break;
+				(void) dl_memcopy_noOverlap(*name, internal_string.value, internal_string.value_length);
+			}
 			*name_length = internal_string.value_length;
 		}
 		else {
 			*name = dl_null;
-			name_length = 0;
+			*name_length = 0;
 			/* OK: This is symbol "compression". */
 		}
 	} while (0);
-- 
2.43.0


From bd77aaa1a44d1a7d9eb10bae3590e39923204c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 32/85] fix: a call whose frame cannot be pushed is an error

---
 duckVM.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index 7c910f1..da9af48 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1605,7 +1605,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_call8:
 		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		ptrdiff2 = *(ip++);
-		call_stack_push(duckVM, ip, bytecode, dl_null);
+		e = call_stack_push(duckVM, ip, bytecode, dl_null);
 		if (e) break;
 		if (opcode == duckLisp_instruction_call32) {
 			if (ptrdiff1 & 0x80000000ULL) {
-- 
2.43.0


From 14f7431e6f9f8cf3d7593a67961f3e657ebd0b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 33/85] fix: a failed dl_realloc keeps the old block instead of
 losing it

---
 DuckLib/memory.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 110538b..c25cd27 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -944,10 +944,12 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 
 dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_size_t size) {
 	(void) memoryAllocation;
-	*(dl_uint8_t **) memory = realloc(*(dl_uint8_t **) memory, size);
-	if (*(dl_uint8_t **) memory == NULL) {
+	void *newMemory = realloc(*(dl_uint8_t **) memory, size);
+	if (newMemory == NULL) {
+		/* The old block is still valid. */
 		return dl_error_outOfMemory;
 	}
+	*(dl_uint8_t **) memory = newMemory;
 	return dl_error_ok;
 }
 
-- 
2.43.0


From bf07168c92f40caa276a45bafafd1671e296f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 34/85] fix: a failed heap allocation leaves no cell behind
 which the collector would free again

---
 duckVM.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index da9af48..8cf9e38 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -325,6 +325,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	dl_error_t eError = dl_error_ok;
 
 	duckVM_gclist_t *gclist = &duckVM->gclist;
+	duckVM_object_t *heapObject = dl_null;
 
 	// Try once
 	if (gclist->freeObjects_length == 0) {
@@ -346,7 +347,7 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 		}
 	}
 
-	duckVM_object_t *heapObject = gclist->freeObjects[--gclist->freeObjects_length];
+	heapObject = gclist->freeObjects[--gclist->freeObjects_length];
 	*heapObject = objectIn;
 	if (objectIn.type == duckVM_object_type_upvalueArray) {
 		if (objectIn.value.upvalue_array.length > 0) {
@@ -437,6 +438,11 @@ static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **o
 	*objectOut = heapObject;
 
  cleanup:
+	if (e && (heapObject != dl_null)) {
+		/* The object still refers to the payload of its source, so the collector must never free it. */
+		heapObject->type = duckVM_object_type_none;
+		gclist->freeObjects[gclist->freeObjects_length++] = heapObject;
+	}
 
 	return e;
 }
-- 
2.43.0


From 11b450c2a4c00df3a392efbd72332e39d72ef0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 35/85] fix: integer constants which need more than 32 bits are
 not truncated

---
 assembler.c | 24 +++++++++++++++++++++++-
 duckLisp.h  |  1 +
 duckVM.c    | 13 +++++++++++++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/assembler.c b/assembler.c
index 4132d82..19e4a60 100644
--- a/assembler.c
+++ b/assembler.c
@@ -537,10 +537,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 					currentInstruction.byte = duckLisp_instruction_pushInteger16;
 					byte_length = 2;
 				}
-				else {
+				else if (absolute < 0x80000000LU) {
 					currentInstruction.byte = duckLisp_instruction_pushInteger32;
 					byte_length = 4;
 				}
+				else {
+					currentInstruction.byte = duckLisp_instruction_pushInteger64;
+					byte_length = 8;
+				}
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) {
 					goto cleanup;
@@ -2877,6 +2881,7 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushInteger8, DL_STR("integer.8 1")},
 		{duckLisp_instruction_pushInteger16, DL_STR("integer.16 2")},
 		{duckLisp_instruction_pushInteger32, DL_STR("integer.32 4")},
+		{duckLisp_instruction_pushInteger64, DL_STR("integer.64 8")},
 		{duckLisp_instruction_pushDoubleFloat, DL_STR("double-float f")},
 		{duckLisp_instruction_pushIndex8, DL_STR("index.8 1")},
 		{duckLisp_instruction_pushIndex16, DL_STR("index.16 2")},
@@ -3139,6 +3144,23 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 					--format_length;
 					break;
 				}
+				case '8': {
+					e = dl_array_pushElement(&disassembly, " ");
+					if (e) goto cleanup;
+					DL_DOTIMES(m, 8) {
+						bytecode_index++;
+						dl_uint8_t code = bytecode[bytecode_index];
+						char hexChar = dl_nybbleToHexChar((code >> 4) & 0x0F);
+						e = dl_array_pushElement(&disassembly, &hexChar);
+						if (e) goto cleanup;
+						hexChar = dl_nybbleToHexChar(code & 0x0F);
+						e = dl_array_pushElement(&disassembly, &hexChar);
+						if (e) goto cleanup;
+					}
+					format++;
+					--format_length;
+					break;
+				}
 				case 'v': {
 					format++;
 					--format_length;
diff --git a/duckLisp.h b/duckLisp.h
index f84b804..a526fed 100644
--- a/duckLisp.h
+++ b/duckLisp.h
@@ -289,6 +289,7 @@ typedef enum {
 	duckLisp_instruction_pushInteger8,
 	duckLisp_instruction_pushInteger16,
 	duckLisp_instruction_pushInteger32,
+	duckLisp_instruction_pushInteger64,
 
 	duckLisp_instruction_pushDoubleFloat,
 
diff --git a/duckVM.c b/duckVM.c
index 8cf9e38..fd8d1c6 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -925,6 +925,19 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		}
 		break;
 
+	case duckLisp_instruction_pushInteger64:
+		size1 = 0;
+		DL_DOTIMES(n, 8) {
+			size1 = *(ip++) + (size1 << 8);
+		}
+		object1 = duckVM_object_makeInteger((dl_ptrdiff_t) size1);
+		e = stack_push(duckVM, &object1);
+		if (e) {
+			eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->push-integer: stack_push failed."));
+			if (!e) e = eError;
+		}
+		break;
+
 	case duckLisp_instruction_pushInteger32:
 		ptrdiff1 = *(ip++);
 		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
-- 
2.43.0


From 4de631bb00c2693114e6f6a3d920f509e2038c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 36/85] fix: the reader does not read past the end of the text

---
 DuckLib/string.c |  9 +++++++--
 duckLisp.c       |  6 ------
 parser.c         | 10 +++++-----
 3 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index de6bcea..8d3e352 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -256,6 +256,11 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 
 	*result = 0.0;
 
+	if ((dl_size_t) index >= string_length) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	if (string[index] == '-') {
 		index++;
 
@@ -324,7 +329,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			index++;
 		}
 
-		if (string[index] == '.') {
+		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
 			index++;
 
 			if ((dl_size_t) index >= string_length) {
@@ -351,7 +356,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	}
 
 	// …e3
-	if (dl_string_toLower(string[index]) == 'e') {
+	if (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) == 'e')) {
 		index++;
 
 		if ((dl_size_t) index >= string_length) {
diff --git a/duckLisp.c b/duckLisp.c
index 4bf01a8..295f23f 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2157,15 +2157,9 @@ dl_error_t duckLisp_loadString(duckLisp_t *duckLisp,
 	dl_ptrdiff_t index = -1;
 	duckLisp_ast_compoundExpression_t ast;
 	dl_array_t bytecodeArray;
-	dl_bool_t result = dl_false;
 
 	/**/ duckLisp_ast_compoundExpression_init(&ast);
 
-	// Trim whitespace from the beginning of the file.
-	do {
-		if (dl_string_isSpace(*source)) source++;
-	} while (result);
-
 	index = 0;
 
 	/* Parse. */
diff --git a/parser.c b/parser.c
index 594c512..1a93fd0 100644
--- a/parser.c
+++ b/parser.c
@@ -155,7 +155,7 @@ static dl_error_t parse_comment(duckLisp_t *duckLisp,
 	dl_ptrdiff_t start_index = *index;
 	dl_ptrdiff_t stop_index = start_index;
 
-	if (source[stop_index] != ';') {
+	if ((stop_index >= (dl_ptrdiff_t) source_length) || (source[stop_index] != ';')) {
 		return dl_error_invalidValue;
 	}
 
@@ -182,7 +182,7 @@ dl_error_t parse_irrelevant(duckLisp_t *duckLisp,
 		if (indexCopy >= (dl_ptrdiff_t) source_length) {
 			return dl_error_invalidValue;
 		}
-		while (dl_string_isSpace(source[indexCopy])) indexCopy++;
+		while ((indexCopy < (dl_ptrdiff_t) source_length) && dl_string_isSpace(source[indexCopy])) indexCopy++;
 		dl_error_t e = parse_comment(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
 		if (e) break;
 	}
@@ -850,7 +850,7 @@ static dl_error_t parse_int(duckLisp_t *duckLisp,
 			indexCopy++;
 			hexadecimal = dl_true;
 
-			if (!dl_string_isHexadecimalDigit(source[indexCopy])) {
+			if ((indexCopy >= (dl_ptrdiff_t) source_length) || !dl_string_isHexadecimalDigit(source[indexCopy])) {
 				eError = duckLisp_error_pushSyntax(duckLisp,
 				                                   DL_STR("Expected a digit in integer."),
 				                                   fileName,
@@ -1043,7 +1043,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 			indexCopy++;
 		}
 
-		if (source[indexCopy] == '.') {
+		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
 			indexCopy++;
 
@@ -1064,7 +1064,7 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 	}
 
 	/* …e3 */
-	if (dl_string_toLower(source[indexCopy]) == 'e') {
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && (dl_string_toLower(source[indexCopy]) == 'e')) {
 		hasDecimalPointOrExponent = dl_true;
 		indexCopy++;
 
-- 
2.43.0


From 58a76677a3735742f9d95269818cd9605ed0a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 37/85] fix: an unmatched parenthesis is reported instead of
 reading out of bounds

---
 parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 1a93fd0..5041e09 100644
--- a/parser.c
+++ b/parser.c
@@ -54,7 +54,7 @@ static dl_error_t duckLisp_error_pushSyntax(duckLisp_t *duckLisp,
 	}
 
 	/* This is inefficient. That should be OK as this is only run a few times max per compile. */
-	DL_DOTIMES(i, start_index) {
+	for (dl_ptrdiff_t i = 0; i < start_index; i++) {
 		if (source[i] == '\n') {
 			line++;
 			start_column = 0;
-- 
2.43.0


From 93cd7c9f4d70dbf6225abcfa99a0a9050e3b1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 38/85] fix: true and false are booleans at the end of the
 text, and do not split identifiers which start with them

---
 parser.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 5041e09..ac90a36 100644
--- a/parser.c
+++ b/parser.c
@@ -687,7 +687,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 	const dl_size_t sizeOfTrue = sizeof("true") - 1;
 	const dl_size_t sizeOfFalse = sizeof("false") - 1;
 
-	if (source_length <= indexCopy + sizeOfTrue) {
+	if (source_length < indexCopy + sizeOfTrue) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Encountered EOF"),
 		                                   fileName,
@@ -705,7 +705,7 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		stop_index += sizeOfTrue;
 	}
 	else {
-		if (source_length <= indexCopy + sizeOfFalse) {
+		if (source_length < indexCopy + sizeOfFalse) {
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("Encountered EOF"),
 			                                   fileName,
@@ -737,6 +737,12 @@ static dl_error_t parse_bool(duckLisp_t *duckLisp,
 		}
 	}
 
+	/* The token might be an identifier that starts with the name of a boolean. */
+	if ((stop_index < (dl_ptrdiff_t) source_length) && isIdentifierSymbol(source[stop_index])) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	duckLisp_ast_bool_t boolean;
 	e = dl_string_toBool(&boolean.value, &source[start_index], stop_index - start_index);
 	if (e) {
-- 
2.43.0


From e8d7f77e6dce8702f7c69ba7553422c47db385bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 39/85] fix: floats which end in a point, have many decimals,
 large exponents or a zero negative exponent, and identifiers which start with
 a float

---
 DuckLib/string.c | 31 ++++++++++---------------------
 parser.c         | 14 +++++++-------
 2 files changed, 17 insertions(+), 28 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 8d3e352..45f7ab9 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -251,6 +251,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 	dl_ptrdiff_t index = 0;
 	dl_bool_t tempBool;
 	dl_bool_t negative = dl_false;
+	double scale = 1.0;
 	dl_ptrdiff_t power = 0;
 	dl_bool_t power_negative = dl_false;
 
@@ -281,19 +282,19 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 			goto cleanup;
 		}
 
-		power = 10;
+		scale = 10.0;
 
 		if (!dl_string_isDigit(string[index])) {
 			e = dl_error_invalidValue;
 			goto cleanup;
 		}
 
-		*result += (double) (string[index] - '0') / (double) power;
+		*result += (double) (string[index] - '0') / scale;
 
 		index++;
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			scale = 10.0 * scale;
 
 			tempBool = dl_string_isDigit(string[index]);
 			if (!tempBool) {
@@ -301,7 +302,7 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / scale;
 			index++;
 		}
 	}
@@ -330,26 +331,18 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 		}
 
 		if (((dl_size_t) index < string_length) && (string[index] == '.')) {
+			// Running into the end of the string here is expected. 1. 234.e61  435. for example.
 			index++;
-
-			if ((dl_size_t) index >= string_length) {
-				// eError = duckLisp_error_push(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				// This is expected. 1. 234.e61  435. for example.
-				goto cleanup;
-			}
-
-			power = 1;
 		}
 
 		while (((dl_size_t) index < string_length) && (dl_string_toLower(string[index]) != 'e')) {
-			power = 10 * power;
+			scale = 10.0 * scale;
 			if (!dl_string_isDigit(string[index])) {
 				e = dl_error_invalidValue;
 				goto cleanup;
 			}
 
-			*result += (double) (string[index] - '0') / (double) power;
+			*result += (double) (string[index] - '0') / scale;
 
 			index++;
 		}
@@ -390,17 +383,13 @@ dl_error_t dl_string_toDouble(double *result, const dl_uint8_t *string, const dl
 				goto cleanup;
 			}
 
-			power = power * 10 + string[index] - '0';
+			// Larger exponents are out of range anyway.
+			if (power < 100000) power = power * 10 + string[index] - '0';
 
 			index++;
 		}
 
 		if (power_negative) {
-			if (power == 0) {
-				e = dl_error_invalidValue;
-				goto cleanup;
-			}
-
 			for (dl_ptrdiff_t i = 0; i < power; i++) {
 				*result /= 10.0;
 			}
diff --git a/parser.c b/parser.c
index ac90a36..1571d95 100644
--- a/parser.c
+++ b/parser.c
@@ -1051,14 +1051,8 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 
 		if ((indexCopy < (dl_ptrdiff_t) source_length) && (source[indexCopy] == '.')) {
 			hasDecimalPointOrExponent = dl_true;
+			/* Running into the end of the text here is expected. 1. 234.e61 435. for example. */
 			indexCopy++;
-
-			if (indexCopy >= (dl_ptrdiff_t) source_length) {
-				// eError = duckLisp_error_pushSyntax(duckLisp, DL_STR("Expected a digit after decimal point."), index);
-				// e = eError ? eError : dl_error_bufferOverflow;
-				/* This is expected. 1. 234.e61 435. for example. */
-				goto cleanup;
-			}
 		}
 
 		while ((indexCopy < (dl_ptrdiff_t) source_length)
@@ -1133,6 +1127,12 @@ static dl_error_t parse_float(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	/* The token might be an identifier that starts with a number. */
+	if ((indexCopy < (dl_ptrdiff_t) source_length) && isIdentifierSymbol(source[indexCopy])) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	stop_index = indexCopy;
 
 	e = dl_string_toDouble(&floatingPoint.value, &source[start_index], stop_index - start_index);
-- 
2.43.0


From cb77b87f6d51a19bc4a0ab4a2af7dd295a5dc0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 40/85] fix: a string may end at the end of the text

---
 parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 1571d95..04a8ca3 100644
--- a/parser.c
+++ b/parser.c
@@ -1212,6 +1212,7 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 	}
 
 	if (source[indexCopy] == '"') {
+		dl_bool_t closed = dl_false;
 		indexCopy++;
 
 		while (indexCopy < (dl_ptrdiff_t) source_length) {
@@ -1235,13 +1236,14 @@ static dl_error_t parse_string(duckLisp_t *duckLisp,
 			}
 			else if (source[indexCopy] == '"') {
 				indexCopy++;
+				closed = dl_true;
 				break;
 			}
 
 			indexCopy++;
 		}
 
-		if (indexCopy >= (dl_ptrdiff_t) source_length) {
+		if (!closed) {
 			e = dl_error_invalidValue;
 			eError = duckLisp_error_pushSyntax(duckLisp,
 			                                   DL_STR("String missing closing quote."),
-- 
2.43.0


From 57b5b60d7d3aec4606fc614003215e99ea19fa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 41/85] fix: a malformed literal expression is an error in
 linear time, one may end the text, and a bare # is an identifier

---
 parser.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/parser.c b/parser.c
index 04a8ca3..aac79c0 100644
--- a/parser.c
+++ b/parser.c
@@ -233,7 +233,7 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	expression.compoundExpressions_length = 0;
 
 	/* Basic syntax checks. Need space for two parentheses and the first character must be a parenthesis. */
-	if (indexCopy + 3 >= (dl_ptrdiff_t) source_length) {
+	if (indexCopy + 2 >= (dl_ptrdiff_t) source_length) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Not an expression: file too short."),
 		                                   fileName,
@@ -537,6 +537,12 @@ static dl_error_t parse_identifier(duckLisp_t *duckLisp,
 	}
 
 	tempBool = isIdentifierSymbol(source[indexCopy]);
+	/* "#(" starts a literal expression, which has already been rejected if it is malformed. */
+	if ((source[indexCopy] == '#')
+	    && (indexCopy + 1 < (dl_ptrdiff_t) source_length)
+	    && (source[indexCopy + 1] == '(')) {
+		tempBool = dl_false;
+	}
 	if (!tempBool) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Expected an alpha or allowed symbol in identifier."),
@@ -627,6 +633,12 @@ static dl_error_t parse_callback(duckLisp_t *duckLisp,
 	start_index++;
 	indexCopy++;
 
+	/* Without a name this is not a callback. */
+	if ((indexCopy >= (dl_ptrdiff_t) source_length) || !isIdentifierSymbol(source[indexCopy])) {
+		e = dl_error_invalidValue;
+		goto cleanup;
+	}
+
 	while ((indexCopy < (dl_ptrdiff_t) source_length)
 	       && (dl_string_isAlpha(source[indexCopy])
 	           || dl_string_isDigit(source[indexCopy])
-- 
2.43.0


From 3cd99358cce4914fcc8754a500c12b9cd076d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 42/85] fix: an integer which is out of range is an error, and
 0x without digits is not an integer

---
 DuckLib/string.c | 33 +++++++++++++++++++++++----------
 parser.c         | 14 ++++++++++++++
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/DuckLib/string.c b/DuckLib/string.c
index 45f7ab9..12b5915 100644
--- a/DuckLib/string.c
+++ b/DuckLib/string.c
@@ -98,6 +98,7 @@ dl_error_t dl_string_toPtrdiff(dl_ptrdiff_t *result, const dl_uint8_t *string, c
 	dl_bool_t tempBool;
 	dl_bool_t negative = dl_false;
 	dl_bool_t hexadecimal = dl_false;
+	dl_size_t magnitude = 0;
 
 	*result = 0;
 
@@ -130,6 +131,11 @@ dl_error_t dl_string_toPtrdiff(dl_ptrdiff_t *result, const dl_uint8_t *string, c
 		        || (string[index + 1] == 'X'))) {
 			hexadecimal = dl_true;
 			index += 2;
+
+			if ((dl_size_t) index >= string_length) {
+				e = dl_error_invalidValue;
+				goto cleanup;
+			}
 		}
 	}
 
@@ -146,23 +152,30 @@ dl_error_t dl_string_toPtrdiff(dl_ptrdiff_t *result, const dl_uint8_t *string, c
 		}
 
 		if (hexadecimal) {
-			*result = (*result * 16
-			           + (('0' <= string[index]) && (string[index] <= '9')
-			              ? string[index] - '0'
-			              : ('a' <= string[index]) && (string[index] <= 'f')
-			              ? string[index] - 'a' + 10
-			              : (string[index] - 'A' + 10)));
+			if (magnitude > (dl_size_t) -1 / 16) {
+				e = dl_error_bufferOverflow;
+				goto cleanup;
+			}
+			magnitude = (magnitude * 16
+			             + (('0' <= string[index]) && (string[index] <= '9')
+			                ? string[index] - '0'
+			                : ('a' <= string[index]) && (string[index] <= 'f')
+			                ? string[index] - 'a' + 10
+			                : (string[index] - 'A' + 10)));
 		}
 		else {
-			*result = *result * 10 + (string[index] - '0');
+			const dl_size_t digit = string[index] - '0';
+			if (magnitude > ((dl_size_t) -1 / 2 + negative - digit) / 10) {
+				e = dl_error_bufferOverflow;
+				goto cleanup;
+			}
+			magnitude = magnitude * 10 + digit;
 		}
 
 		index++;
 	}
 
-	if (negative) {
-		*result = -*result;
-	}
+	*result = (dl_ptrdiff_t) (negative ? 0 - magnitude : magnitude);
 
  cleanup:
 	return e;
diff --git a/parser.c b/parser.c
index aac79c0..7cd98e6 100644
--- a/parser.c
+++ b/parser.c
@@ -902,6 +902,20 @@ static dl_error_t parse_int(duckLisp_t *duckLisp,
 	stop_index = indexCopy;
 
 	e = dl_string_toPtrdiff(&integer.value, &source[start_index], stop_index - start_index);
+	if (e == dl_error_bufferOverflow) {
+		/* Definitely an error. Always push the error. */
+		eError = duckLisp_error_pushSyntax(duckLisp,
+		                                   DL_STR("Integer out of range."),
+		                                   fileName,
+		                                   fileName_length,
+		                                   source,
+		                                   source_length,
+		                                   start_index,
+		                                   indexCopy,
+		                                   dl_true);
+		if (eError) e = eError;
+		goto cleanup;
+	}
 	if (e) {
 		eError = duckLisp_error_pushSyntax(duckLisp,
 		                                   DL_STR("Could not convert token to int."),
-- 
2.43.0


From e5b769470f0493da2fa5d613833d148ad72bc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 43/85] fix: an expression which contains only whitespace or
 comments is the empty expression

---
 parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.c b/parser.c
index 7cd98e6..91100ba 100644
--- a/parser.c
+++ b/parser.c
@@ -294,6 +294,9 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	/* The expression might contain nothing but whitespace and comments. */
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
+
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
@@ -419,6 +422,9 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		goto cleanup;
 	}
 
+	/* The expression might contain nothing but whitespace and comments. */
+	(void) parse_irrelevant(dl_null, source, source_length, dl_null, &indexCopy, dl_false);
+
 	while (dl_true) {
 		duckLisp_ast_compoundExpression_t subCompoundExpression;
 		dl_ptrdiff_t subIndex = indexCopy;
-- 
2.43.0


From 411707e1ee2a1d5ca2947b65eb9668229b4cc113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:32 +0000
Subject: [PATCH 44/85] fix: an assignment to a global is not dropped when its
 key equals the stack index of the value

---
 emitters.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/emitters.c b/emitters.c
index 5e48a69..57fcbbb 100644
--- a/emitters.c
+++ b/emitters.c
@@ -768,8 +768,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 
-	if (destination_static_index == source_stack_index) goto cleanup;
-
 	argument0.type = duckLisp_instructionArgClass_type_index;
 	argument0.value.index = duckLisp_localsLength_get(compileState) - source_stack_index;
 	argument1.type = duckLisp_instructionArgClass_type_index;
@@ -781,7 +779,6 @@ dl_error_t duckLisp_emit_setStatic(duckLisp_t *duckLisp,
 	                                 argument0,
 	                                 argument1);
 	duckLisp_localsLength_decrement(compileState);
- cleanup:
 	return e;
 }
 
-- 
2.43.0


From 9fa61f75eeb464d08d730b86b2ed576a974665d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 45/85] fix: quote symbols in the result of comptime

---
 duckLisp.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 295f23f..0d779b1 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -796,6 +796,25 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 			if (!e) e = eError;
 			break;
 		}
+		if (!useExprs) {
+			/* The object is data, so the symbol has to be quoted: (__quote symbol) */
+			e = dl_malloc(duckLisp->memoryAllocation,
+			              (void **) &ast->value.expression.compoundExpressions,
+			              2 * sizeof(duckLisp_ast_compoundExpression_t));
+			if (e) break;
+			/**/ dl_memclear(ast->value.expression.compoundExpressions, 2 * sizeof(duckLisp_ast_compoundExpression_t));
+			ast->value.expression.compoundExpressions_length = 2;
+			ast->type = duckLisp_ast_type_expression;
+			duckLisp_ast_compoundExpression_t *quote = ast->value.expression.compoundExpressions;
+			e = dl_malloc(duckLisp->memoryAllocation,
+			              (void **) &quote->value.identifier.value,
+			              sizeof("__quote") - 1);
+			if (e) break;
+			/**/ dl_memcopy_noOverlap(quote->value.identifier.value, DL_STR("__quote"));
+			quote->value.identifier.value_length = sizeof("__quote") - 1;
+			quote->type = duckLisp_ast_type_identifier;
+			ast = &ast->value.expression.compoundExpressions[1];
+		}
 		ast->value.identifier.value_length = object->value.symbol.internalString->value.internalString.value_length;
 		e = dl_malloc(duckLisp->memoryAllocation,
 		              (void **) &ast->value.identifier.value,
-- 
2.43.0


From 0db8a678e4f1c98a34c34debf8d4e8acc06d8c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 46/85] fix: macros resolved to those of an earlier compilation

---
 duckLisp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 0d779b1..940b6b9 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2144,6 +2144,8 @@ dl_error_t duckLisp_subCompileState_quit(duckLisp_t *duckLisp, duckLisp_subCompi
 void duckLisp_compileState_init(duckLisp_t *duckLisp, duckLisp_compileState_t *compileState) {
 	/**/ duckLisp_subCompileState_init(duckLisp->memoryAllocation, &compileState->runtimeCompileState);
 	/**/ duckLisp_subCompileState_init(duckLisp->memoryAllocation, &compileState->comptimeCompileState);
+	/* The compile-time VM outlives the compile state, and keeps the objects of previous compilations on its stack. */
+	compileState->comptimeCompileState.locals_length = duckLisp->vm.stack.elements_length;
 	compileState->currentCompileState = &compileState->runtimeCompileState;
 }
 
-- 
2.43.0


From dd326b6f7f4401a4a0904a005550b6a88205c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 47/85] fix: comptime read the top of an empty stack when its
 body failed

---
 generators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index 58a4722..7c050aa 100644
--- a/generators.c
+++ b/generators.c
@@ -1262,7 +1262,6 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		}
 
 		e = duckVM_execute(&duckLisp->vm, bytecode.elements, bytecode.elements_length);
-		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 		eError = dl_array_pushElements(&duckLisp->errors,
 		                               duckLisp->vm.errors.elements,
 		                               duckLisp->vm.errors.elements_length);
@@ -1270,6 +1269,7 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		eError = dl_array_popElements(&duckLisp->vm.errors, dl_null, duckLisp->vm.errors.elements_length);
 		if (eError) e = eError;
 		if (e) goto cleanup;
+		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 
 		e = duckLisp_objectToAST(duckLisp, &returnCompoundExpression, &returnValue, dl_false);
 		if (e) goto cleanup;
-- 
2.43.0


From 17b42bbfd525183990159ddc448859a72ad04f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 48/85] fix: calling a callback by name did not check that its
 global still holds one

---
 duckVM.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index fd8d1c6..8e2e928 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1672,6 +1672,12 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				if (!e) e = eError;
 				break;
 			}
+			if (global->type != duckVM_object_type_function) {
+				e = dl_error_invalidValue;
+				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: Object is not a C callback."));
+				if (eError) e = eError;
+				break;
+			}
 			e = global->value.function.callback(duckVM);
 			if (e) {
 				eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_execute->c-call: C callback returned error."));
-- 
2.43.0


From 817a2c74b2ac9f2a3f5561b8ff916ca81b85646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 49/85] Add an allocation hook, guarded by
 DUCKVM_ALLOCATION_HOOK

---
 duckVM.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/duckVM.c b/duckVM.c
index 8e2e928..042950d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -320,10 +320,19 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 	return e;
 }
 
+#ifdef DUCKVM_ALLOCATION_HOOK
+/* Supplied by the verification harness, which uses it to decide when collections happen. */
+void duckVM_allocationHook(duckVM_t *duckVM);
+#endif
+
 static dl_error_t duckVM_gclist_pushObject(duckVM_t *duckVM, duckVM_object_t **objectOut, duckVM_object_t objectIn) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 
+#ifdef DUCKVM_ALLOCATION_HOOK
+	(void) duckVM_allocationHook(duckVM);
+#endif
+
 	duckVM_gclist_t *gclist = &duckVM->gclist;
 	duckVM_object_t *heapObject = dl_null;
 
-- 
2.43.0


From 6de8c29a8f4eb95518968b87bfc041a0bba67a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 50/85] fix: a macro which expands to a variable left no value
 in a body

---
 generators.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generators.c b/generators.c
index 7c050aa..5bd149f 100644
--- a/generators.c
+++ b/generators.c
@@ -3707,7 +3707,7 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	                                        &ast,
 	                                        index,
 	                                        dl_null,
-	                                        dl_false);
+	                                        dl_true);
 	if (e) goto cleanupAST;
 
 	/* HACK: We can't pass a compound expression up, but we can replace an expression. This is so the noscope generator
-- 
2.43.0


From 170366a4b02a7969e530816d8fe5f86b190173e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 51/85] fix: equal.16 decoded its operands twice

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index 042950d..a1aab9f 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -2873,6 +2873,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
+			parsedBytecode = dl_true;
 		}
 		// Fall through
 	case duckLisp_instruction_equal8:
-- 
2.43.0


From ff19d8b2b78245e657b99c564c1a94d2fca75009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 52/85] fix: release-upvalues did not encode or decode its
 count and indices beyond 255

---
 assembler.c | 29 +++++++++++++++--------------
 duckVM.c    |  7 ++++++-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/assembler.c b/assembler.c
index 19e4a60..6aeeb04 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2132,21 +2132,22 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			break;
 		}
 		case duckLisp_instructionClass_releaseUpvalues: {
-			byte_length = 1;
+			/* The count and every upvalue have to fit. */
+			dl_size_t maximum = instruction.args.elements_length;
 			DL_DOTIMES(k, instruction.args.elements_length) {
-				dl_size_t arg = args[k].value.integer;
-				if (arg < 0x00000100UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
-					byte_length = 1;
-				}
-				else if (arg < 0x00010000UL) {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
-					byte_length = 2;
-				}
-				else {
-					currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
-					byte_length = 4;
-				}
+				maximum = dl_max(maximum, (dl_size_t) args[k].value.integer);
+			}
+			if (maximum < 0x00000100UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues8;
+				byte_length = 1;
+			}
+			else if (maximum < 0x00010000UL) {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues16;
+				byte_length = 2;
+			}
+			else {
+				currentInstruction.byte = duckLisp_instruction_releaseUpvalues32;
+				byte_length = 4;
 			}
 			dl_ptrdiff_t index = 0;
 			// Number of upvalues
diff --git a/duckVM.c b/duckVM.c
index a1aab9f..0cffff8 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1303,9 +1303,14 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		break;
 
 	case duckLisp_instruction_releaseUpvalues32:
+		size1 = *(ip++);
+		size1 = *(ip++) + (size1 << 8);
+		/* Fall through */
 	case duckLisp_instruction_releaseUpvalues16:
+		size1 = *(ip++) + (size1 << 8);
+		/* Fall through */
 	case duckLisp_instruction_releaseUpvalues8:
-		size1 = *(ip++);
+		size1 = *(ip++) + (size1 << 8);
 
 		DL_DOTIMES(k, size1) {
 			ptrdiff1 = *(ip++);
-- 
2.43.0


From 162a83f8b99514f5398ec0ba0c8e159481e9577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 53/85] fix: string constants were cut off after 65535 bytes

---
 DuckLib/core.h | 1 +
 emitters.c     | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/DuckLib/core.h b/DuckLib/core.h
index 26a8a49..917f417 100644
--- a/DuckLib/core.h
+++ b/DuckLib/core.h
@@ -41,6 +41,7 @@ typedef int dl_int32_t;
 
 #define DL_UINT8_MAX    255U
 #define DL_UINT16_MAX 65535U
+#define DL_UINT32_MAX 4294967295U
 
 #define DL_INT8_MAX     127
 #define DL_INT16_MAX  32767
diff --git a/emitters.c b/emitters.c
index 57fcbbb..d966884 100644
--- a/emitters.c
+++ b/emitters.c
@@ -904,14 +904,14 @@ dl_error_t duckLisp_emit_pushString(duckLisp_t *duckLisp,
 
 	/* Write string length. */
 
-	if (string_length > DL_UINT16_MAX) {
+	if (string_length > DL_UINT32_MAX) {
 		eError = duckLisp_error_pushRuntime(duckLisp,
 		                                    DL_STR("String longer than DL_UINT_MAX. Truncating string to fit."));
 		if (eError) {
 			e = eError;
 			goto cleanup;
 		}
-		string_length = DL_UINT16_MAX;
+		string_length = DL_UINT32_MAX;
 	}
 
 	/* Push arguments into instruction. */
-- 
2.43.0


From 983c092e816819b803d25c330814d2494d4fbd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 54/85] fix: a vector form with close length but far elements
 was encoded with too few bytes

---
 assembler.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/assembler.c b/assembler.c
index 6aeeb04..bf64e26 100644
--- a/assembler.c
+++ b/assembler.c
@@ -1305,11 +1305,16 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_vector: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
-				if ((unsigned long) args[0].value.index < 0x100UL) {
+				/* The length and every element have to fit. */
+				dl_size_t maximum = 0;
+				DL_DOTIMES(k, instruction.args.elements_length) {
+					maximum = dl_max(maximum, (dl_size_t) args[k].value.index);
+				}
+				if (maximum < 0x100UL) {
 					currentInstruction.byte = duckLisp_instruction_vector8;
 					byte_length = 1;
 				}
-				else if ((unsigned int) args[0].value.index < 0x10000UL) {
+				else if (maximum < 0x10000UL) {
 					currentInstruction.byte = duckLisp_instruction_vector16;
 					byte_length = 2;
 				}
-- 
2.43.0


From 426aed526be9d3aff9c3d41011a583511988ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 55/85] fix: the number of arguments or parameters was silently
 reduced modulo 256

---
 assembler.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/assembler.c b/assembler.c
index bf64e26..96fa9ed 100644
--- a/assembler.c
+++ b/assembler.c
@@ -2240,6 +2240,12 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				index += byte_length;
 
 				// Arity
+				if ((args[1].value.integer < 0) || (args[1].value.integer > 0xFF)) {
+					e = dl_error_invalidValue;
+					eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Too many arguments in call or parameters in function."));
+					if (eError) e = eError;
+					goto cleanup;
+				}
 				byte_length = 1;
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
@@ -2287,6 +2293,12 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				index += byte_length;
 
 				// Arity
+				if ((args[1].value.integer < 0) || (args[1].value.integer > 0xFF)) {
+					e = dl_error_invalidValue;
+					eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Too many arguments in call or parameters in function."));
+					if (eError) e = eError;
+					goto cleanup;
+				}
 				byte_length = 1;
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
@@ -2450,6 +2462,12 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			else if ((instruction.instructionClass == duckLisp_instructionClass_pushClosure)
 			         || (instruction.instructionClass == duckLisp_instructionClass_pushVaClosure)) {
 				/* Arity */
+				if ((args[1].value.integer < 0) || (args[1].value.integer > 0xFF)) {
+					e = dl_error_invalidValue;
+					eError = duckLisp_error_pushRuntime(duckLisp, DL_STR("Too many arguments in call or parameters in function."));
+					if (eError) e = eError;
+					goto cleanup;
+				}
 				byte_length = 1;
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
-- 
2.43.0


From fed4ab0f8717d0ca46d66c01cfaa95193e1a9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 56/85] fix: set-vector-element and substring were encoded
 without room for their third operand

---
 assembler.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/assembler.c b/assembler.c
index 96fa9ed..1ac64c4 100644
--- a/assembler.c
+++ b/assembler.c
@@ -1440,12 +1440,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_setVecElt16;
 					byte_length = 2;
 				}
@@ -2087,12 +2089,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 			    && (args[2].type == duckLisp_instructionArgClass_type_index)) {
 				dl_ptrdiff_t index = 0;
 				if (((unsigned long) args[0].value.index < 0x100UL)
-				    && ((unsigned long) args[1].value.index < 0x100UL)) {
+				    && ((unsigned long) args[1].value.index < 0x100UL)
+				    && ((unsigned long) args[2].value.index < 0x100UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring8;
 					byte_length = 1;
 				}
 				else if (((unsigned int) args[0].value.index < 0x10000UL)
-				         && ((unsigned int) args[1].value.index < 0x10000UL)) {
+				         && ((unsigned int) args[1].value.index < 0x10000UL)
+				         && ((unsigned int) args[2].value.index < 0x10000UL)) {
 					currentInstruction.byte = duckLisp_instruction_substring16;
 					byte_length = 2;
 				}
-- 
2.43.0


From ca4f9b499e6f2f5a11d3e3d7ac5694fe067fd7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 57/85] fix: set-upvalue did not encode sources or upvalues
 beyond 255

---
 assembler.c | 25 ++++++++++++-------------
 duckVM.c    |  4 ++++
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/assembler.c b/assembler.c
index 1ac64c4..938e6c0 100644
--- a/assembler.c
+++ b/assembler.c
@@ -781,21 +781,12 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 		case duckLisp_instructionClass_setUpvalue: {
 			if (args[0].type == duckLisp_instructionArgClass_type_index) {
 				dl_ptrdiff_t offset = 0;
-				byte_length = 1;
-				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
-				if (e) goto cleanup;
-				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
-					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
-					                                                    >> 8*(byte_length - n - 1))
-					                                                   & 0xFFU);
-				}
-				offset += byte_length;
 				/* I'm not checking if it's negative since I'm lazy and that should never happen. */
-				if (args[0].value.index < 0x100LL) {
+				if ((args[0].value.index < 0x100LL) && (args[1].value.index < 0x100LL)) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue8;
 					byte_length = 1;
 				}
-				else if (args[0].value.index < 0x10000LL) {
+				else if ((args[0].value.index < 0x10000LL) && (args[1].value.index < 0x10000LL)) {
 					currentInstruction.byte = duckLisp_instruction_setUpvalue16;
 					byte_length = 2;
 				}
@@ -805,6 +796,14 @@ dl_error_t duckLisp_assemble(duckLisp_t *duckLisp,
 				}
 				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
 				if (e) goto cleanup;
+				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
+					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, n) = ((args[0].value.integer
+					                                                    >> 8*(byte_length - n - 1))
+					                                                   & 0xFFU);
+				}
+				offset += byte_length;
+				e = dl_array_pushElements(&currentArgs, dl_null, byte_length);
+				if (e) goto cleanup;
 				for (dl_ptrdiff_t n = 0; (dl_size_t) n < byte_length; n++) {
 					DL_ARRAY_GETADDRESS(currentArgs, dl_uint8_t, offset + n) = ((args[1].value.integer
 					                                                             >> 8*(byte_length - n - 1))
@@ -2927,8 +2926,8 @@ dl_error_t duckLisp_disassemble(dl_array_t *string,
 		{duckLisp_instruction_pushGlobal16, DL_STR("global.8 2")},
 		{duckLisp_instruction_pushGlobal32, DL_STR("global.8 4")},
 		{duckLisp_instruction_setUpvalue8, DL_STR("set-upvalue.8 1 1")},
-		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 1 2")},
-		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 1 4")},
+		{duckLisp_instruction_setUpvalue16, DL_STR("set-upvalue.16 2 2")},
+		{duckLisp_instruction_setUpvalue32, DL_STR("set-upvalue.32 4 4")},
 		{duckLisp_instruction_setGlobal8, DL_STR("set-global.8 1 1")},
 		{duckLisp_instruction_setGlobal16, DL_STR("set-global.16 2 2")},
 		{duckLisp_instruction_setGlobal32, DL_STR("set-global.32 4 4")},
diff --git a/duckVM.c b/duckVM.c
index 0cffff8..f45719d 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -1355,6 +1355,9 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 
 	case duckLisp_instruction_setUpvalue32:
 		ptrdiff1 = *(ip++);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
+		ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 		ptrdiff2 = *(ip++);
 		ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
 		ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
@@ -1364,6 +1367,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 	case duckLisp_instruction_setUpvalue16:
 		if (!parsedBytecode) {
 			ptrdiff1 = *(ip++);
+			ptrdiff1 = *(ip++) + (ptrdiff1 << 8);
 			ptrdiff2 = *(ip++);
 			ptrdiff2 = *(ip++) + (ptrdiff2 << 8);
 			parsedBytecode = dl_true;
-- 
2.43.0


From 5900b0524d1220caf6ca312506a290607a99fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 58/85] fix: the number of arguments of a call was reduced
 modulo 256 before it could be rejected

---
 emitters.c | 4 ++--
 emitters.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/emitters.c b/emitters.c
index d966884..9278969 100644
--- a/emitters.c
+++ b/emitters.c
@@ -1194,7 +1194,7 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity) {
+                                 dl_size_t arity) {
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 	/* Function index. */
@@ -1215,7 +1215,7 @@ dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity) {
+                               dl_size_t arity) {
 	duckLisp_instructionArgClass_t argument0 = {0};
 	duckLisp_instructionArgClass_t argument1 = {0};
 	/* Function index. */
diff --git a/emitters.h b/emitters.h
index f5d009a..1350968 100644
--- a/emitters.h
+++ b/emitters.h
@@ -358,13 +358,13 @@ dl_error_t duckLisp_emit_funcall(duckLisp_t *duckLisp,
                                  duckLisp_compileState_t *compileState,
                                  dl_array_t *assembly,
                                  dl_ptrdiff_t index,
-                                 dl_uint8_t arity);
+                                 dl_size_t arity);
 
 dl_error_t duckLisp_emit_apply(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
                                dl_array_t *assembly,
                                dl_ptrdiff_t index,
-                               dl_uint8_t arity);
+                               dl_size_t arity);
 
 dl_error_t duckLisp_emit_acall(duckLisp_t *duckLisp,
                                duckLisp_compileState_t *compileState,
-- 
2.43.0


From 6e173bd7579b7fd2d28d998f5866b6743cea7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 59/85] fix: freeing an empty AST is not an error, so that
 `read` reports an integer which is out of range to its caller

---
 parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.c b/parser.c
index 91100ba..45a1017 100644
--- a/parser.c
+++ b/parser.c
@@ -1360,6 +1360,8 @@ dl_error_t duckLisp_ast_compoundExpression_quit(dl_memoryAllocation_t *memoryAll
 	dl_error_t e = dl_error_ok;
 
 	switch (compoundExpression->type) {
+	case duckLisp_ast_type_none:
+		break;
 	case duckLisp_ast_type_string:
 		(void) ast_string_quit(memoryAllocation, &compoundExpression->value.string);
 		break;
-- 
2.43.0


From 426b3911dfecdf87ad3f237c29e67a7fff8f9890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 60/85] fix: compile-time code can return a vector, as
 documented

---
 duckLisp.c | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/duckLisp.c b/duckLisp.c
index 940b6b9..2b20780 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -825,6 +825,52 @@ dl_error_t duckLisp_objectToAST(duckLisp_t *duckLisp,
 		                          object->value.symbol.internalString->value.internalString.value_length);
 		ast->type = duckLisp_ast_type_identifier;
 		break;
+	case duckVM_object_type_vector:
+		if (!useExprs) {
+			/* The object is data: (__vector element…) */
+			duckVM_object_t *internalVector = object->value.vector.internal_vector;
+			const dl_size_t offset = object->value.vector.offset;
+			dl_size_t length = 0;
+			if (internalVector && (internalVector->value.internal_vector.length > offset)) {
+				length = internalVector->value.internal_vector.length - offset;
+			}
+			e = dl_malloc(duckLisp->memoryAllocation,
+			              (void **) &ast->value.expression.compoundExpressions,
+			              (1 + length) * sizeof(duckLisp_ast_compoundExpression_t));
+			if (e) break;
+			/**/ dl_memclear(ast->value.expression.compoundExpressions,
+			                 (1 + length) * sizeof(duckLisp_ast_compoundExpression_t));
+			ast->value.expression.compoundExpressions_length = 1 + length;
+			ast->type = duckLisp_ast_type_expression;
+			duckLisp_ast_compoundExpression_t *vector = ast->value.expression.compoundExpressions;
+			e = dl_malloc(duckLisp->memoryAllocation,
+			              (void **) &vector->value.identifier.value,
+			              sizeof("__vector") - 1);
+			if (e) break;
+			/**/ dl_memcopy_noOverlap(vector->value.identifier.value, DL_STR("__vector"));
+			vector->value.identifier.value_length = sizeof("__vector") - 1;
+			vector->type = duckLisp_ast_type_identifier;
+			DL_DOTIMES(i, length) {
+				duckVM_object_t *element = internalVector->value.internal_vector.values[offset + i];
+				if (element == dl_null) {
+					ast->value.expression.compoundExpressions[1 + i].type = duckLisp_ast_type_expression;
+				}
+				else {
+					e = duckLisp_objectToAST(duckLisp,
+					                         &ast->value.expression.compoundExpressions[1 + i],
+					                         element,
+					                         useExprs);
+					if (e) break;
+				}
+			}
+		}
+		else {
+			e = dl_error_invalidValue;
+			eError = duckLisp_error_pushRuntime(duckLisp,
+			                                    DL_STR("objectToAST: Attempted to convert vector to expression."));
+			if (eError) e = eError;
+		}
+		break;
 	case duckVM_object_type_function:
 		e = dl_error_invalidValue;
 		break;
-- 
2.43.0


From d62edac731402205acd5bb0e914b4dafde43a600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 61/85] fix: an error after a macro call in a body freed the
 expansion twice

---
 generators.c | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/generators.c b/generators.c
index 5bd149f..cc7197e 100644
--- a/generators.c
+++ b/generators.c
@@ -1021,14 +1021,13 @@ dl_error_t duckLisp_generator_noscope2(duckLisp_t *duckLisp,
 	subExpression.compoundExpressions_length = expression->compoundExpressions_length - 1;
 
 	e = duckLisp_generator_noscope(duckLisp, compileState, assembly, &subExpression);
-	if (e) goto cleanup;
 
+	/* Macro calls may have been replaced, even if there was an error later on. */
 	(void) dl_memcopy_noOverlap(&expression->compoundExpressions[1],
 	                            subExpression.compoundExpressions,
 	                            ((expression->compoundExpressions_length - 1)
 	                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
- cleanup:
 	eError = DL_FREE(duckLisp->memoryAllocation, &subExpression.compoundExpressions);
 	if (eError) e = eError;
 
@@ -1579,14 +1578,13 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, &bodyAssembly, &progn);
-			if (e) goto cleanupProgn;
 
+			/* Macro calls may have been replaced, even if there was an error later on. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup_gensym;
@@ -1920,8 +1918,9 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 	var.compoundExpressions[2].value.expression = lambda;
 	{
 		e = duckLisp_generator_createVar_raw(duckLisp, compileState, assembly, &var);
-		if (e) goto cleanup;
+		eError = e;
 
+		/* The body may have been replaced by a macro expansion, even if compilation failed. */
 		for (dl_ptrdiff_t i = 2; (dl_size_t) i < expression->compoundExpressions_length; i++) {
 			expression->compoundExpressions[i] = lambda.compoundExpressions[i - 1];
 		}
@@ -1931,6 +1930,8 @@ dl_error_t duckLisp_generator_defun(duckLisp_t *duckLisp,
 		if (e) goto cleanup;
 		e = DL_FREE(duckLisp->memoryAllocation, (void **) &lambda.compoundExpressions);
 		if (e) goto cleanup;
+		e = eError;
+		if (e) goto cleanup;
 
 		/* HACK */
 		/* `duckLisp_addInterpretedFunction` needs to know the position of the closure. */
@@ -2186,14 +2187,13 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn1;
 
+				/* Macro calls may have been replaced, even if there was an error later on. */
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-			cleanupProgn1:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 				if (eError) e = eError;
 				if (e) goto free_gensym_start;
@@ -2264,14 +2264,13 @@ dl_error_t duckLisp_generator_while(duckLisp_t *duckLisp,
 				progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 				e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-				if (e) goto cleanupProgn2;
 
+				/* Macro calls may have been replaced, even if there was an error later on. */
 				(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 				                            progn.compoundExpressions,
 				                            ((expression->compoundExpressions_length - 2)
 				                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-			cleanupProgn2:
 				eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 				if (eError) e = eError;
 				if (e) goto free_gensym_end;
@@ -2436,14 +2435,13 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
 
+			/* Macro calls may have been replaced, even if there was an error later on. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup;
@@ -2484,14 +2482,13 @@ dl_error_t duckLisp_generator_unless(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
 
+			/* Macro calls may have been replaced, even if there was an error later on. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto free_gensym_end;
@@ -2618,14 +2615,13 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn1;
 
+			/* Macro calls may have been replaced, even if there was an error later on. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn1:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto cleanup;
@@ -2676,14 +2672,13 @@ dl_error_t duckLisp_generator_when(duckLisp_t *duckLisp,
 			progn.compoundExpressions_length = expression->compoundExpressions_length - 2;
 
 			e = duckLisp_generator_expression(duckLisp, compileState, assembly, &progn);
-			if (e) goto cleanupProgn2;
 
+			/* Macro calls may have been replaced, even if there was an error later on. */
 			(void) dl_memcopy_noOverlap(&expression->compoundExpressions[2],
 			                            progn.compoundExpressions,
 			                            ((expression->compoundExpressions_length - 2)
 			                             * sizeof(duckLisp_ast_compoundExpression_t)));
 
-		cleanupProgn2:
 			eError = DL_FREE(duckLisp->memoryAllocation, &progn.compoundExpressions);
 			if (eError) e = eError;
 			if (e) goto free_gensym_end;
-- 
2.43.0


From 412801ce91fa976219a8a85beed95f68d1112864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 62/85] fix: the allocator read before its block table when the
 last block was released or resized

---
 DuckLib/memory.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index c25cd27..1931be9 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -550,7 +550,8 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 		
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
-		if (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1) {
+		if ((memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock != -1)
+		    && (memoryAllocation->blockList[memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock].nextBlock == -1)) {
 			memoryAllocation->used = (char *) memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].block - (char *) memoryAllocation->memory;
 		}
 		
@@ -778,7 +779,8 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 		
 	memoryAllocation->blockList[block].allocated = dl_false;
 
-	if (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1) {
+	if ((memoryAllocation->blockList[block].nextBlock != -1)
+	    && (memoryAllocation->blockList[memoryAllocation->blockList[block].nextBlock].nextBlock == -1)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[block].block - (char *) memoryAllocation->memory;
 	}
 	
@@ -828,7 +830,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
 	
-	if (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1) {
+	if ((memoryAllocation->blockList[currentBlock].nextBlock != -1)
+	    && (memoryAllocation->blockList[memoryAllocation->blockList[currentBlock].nextBlock].nextBlock == -1)) {
 		memoryAllocation->used = (char *) memoryAllocation->blockList[currentBlock].block - (char *) memoryAllocation->memory;
 	}
 	
-- 
2.43.0


From 7045d761669e47d34c9323796b6f52b5fab91603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 63/85] fix: a failure to grow the block table left the table
 marked as free memory

---
 DuckLib/memory.c | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 1931be9..e664d89 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -494,6 +494,29 @@ void dl_memory_mergeBlockBefore(dl_memoryAllocation_t *memoryAllocation, dl_bool
 	}
 }
 
+// Undo dl_memory_mergeBlockAfter and dl_memory_mergeBlockBefore. `original` is the descriptor as it was before the blocks
+// were merged. No descriptor may have been reused in the meantime.
+void dl_memory_unmergeBlocks(dl_memoryAllocation_t *memoryAllocation, dl_ptrdiff_t block, dl_memoryBlock_t original) {
+	dl_memoryBlock_t *blockList = memoryAllocation->blockList;
+
+	if (blockList[block].previousBlock != original.previousBlock) {
+		blockList[original.previousBlock].unlinked = dl_false;
+		if (blockList[original.previousBlock].previousBlock == -1) {
+			memoryAllocation->firstBlock = original.previousBlock;
+		}
+		else {
+			blockList[blockList[original.previousBlock].previousBlock].nextBlock = original.previousBlock;
+		}
+	}
+	if (blockList[block].nextBlock != original.nextBlock) {
+		blockList[original.nextBlock].unlinked = dl_false;
+		if (blockList[original.nextBlock].nextBlock != -1) {
+			blockList[blockList[original.nextBlock].nextBlock].previousBlock = original.nextBlock;
+		}
+	}
+	blockList[block] = original;
+}
+
 // We simply mark deleted block descriptors as unlinked because dl_memory_pushBlockEntry uses this function and we want to touch the table as little as possible.
 void dl_memory_mergeBlocks(dl_memoryAllocation_t *memoryAllocation, dl_bool_t *merged, dl_ptrdiff_t block) {
 	dl_memory_mergeBlockAfter(memoryAllocation, merged, block);
@@ -535,6 +558,7 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 	void *tempMemory = dl_null;
 	dl_ptrdiff_t extraBlock = -1;
 	dl_memoryBlock_t *blockListEntry = dl_null;
+	dl_memoryBlock_t originalEntry;
 	
 	// Use unlinked descriptors if possible.
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < memoryAllocation->blockList_length; i++) {
@@ -548,6 +572,7 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 	// If we still need descriptors, then realloc the table.
 	if (entries_left) {
 		
+		originalEntry = memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList];
 		memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].allocated = dl_false;
 		
 		if ((memoryAllocation->blockList[memoryAllocation->blockList_indexOfBlockList].nextBlock != -1)
@@ -577,7 +602,11 @@ dl_error_t dl_memory_reserveTableEntries(dl_memoryAllocation_t *memoryAllocation
 			// Find a larger memory block for the table.
 			error = dl_memory_findBlock(memoryAllocation, &newBlock, (memoryAllocation->blockList_length + entries_left) * sizeof(dl_memoryBlock_t),
 			                            memoryAllocation->fit);
-			if (error) goto cleanup;
+			if (error) {
+				// The table stays where it is.
+				dl_memory_unmergeBlocks(memoryAllocation, memoryAllocation->blockList_indexOfBlockList, originalEntry);
+				goto cleanup;
+			}
 			
 			// Copy block list to new location.
 			tempMemory = memoryAllocation->blockList[newBlock].block;
-- 
2.43.0


From 0b22a7c1f88b4b0dda631c89ace1fdf34fab698a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 64/85] fix: dl_realloc read past the old block, and a failed
 dl_realloc lost the block

---
 DuckLib/memory.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index e664d89..17c7f10 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -830,9 +830,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	dl_ptrdiff_t newBlock = -1;
 
 	dl_bool_t blockFits = dl_false;
-#ifdef MEMCHECK
+	dl_memoryBlock_t originalEntry;
 	dl_size_t oldSize;
-#endif
 	
 	if (*memory == dl_null) {
 		error = dl_malloc(memoryAllocation, memory, size);
@@ -852,9 +851,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 
-#ifdef MEMCHECK
-	oldSize = memoryAllocation->blockList[currentBlock].block_size;
-#endif
+	originalEntry = memoryAllocation->blockList[currentBlock];
+	oldSize = originalEntry.block_size;
 	
 	// Mark deleted just in case we find that we can expand our block.
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
@@ -872,11 +870,16 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		/* No error */ dl_memory_mergeBlockBefore(memoryAllocation, dl_null, currentBlock);
 	}
 	
+	/* If any blocks were merged, then there are descriptors left and the table isn't touched. */
 	memoryAllocation->blockList[currentBlock].allocated = dl_true;
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
 	if (error) {
 		goto l_cleanup;
 	}
+	if (memoryAllocation->blockList[currentBlock].block_size == oldSize) {
+		// The table may have been moved, so the block may have other neighbors now.
+		originalEntry = memoryAllocation->blockList[currentBlock];
+	}
 	memoryAllocation->blockList[currentBlock].allocated = dl_false;
 	
 	
@@ -884,6 +887,8 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	if (!blockFits) {
 		error = dl_memory_findBlock(memoryAllocation, &newBlock, size, memoryAllocation->fit);
 		if (error) {
+			// The block stays as it is.
+			dl_memory_unmergeBlocks(memoryAllocation, currentBlock, originalEntry);
 			goto l_cleanup;
 		}
 	}
@@ -899,11 +904,11 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		// Copy.
 #ifdef MEMCHECK
 		VALGRIND_MAKE_MEM_UNDEFINED(memoryAllocation->blockList[newBlock].block, size);
-		VALGRIND_MAKE_MEM_DEFINED(*memory, memoryAllocation->blockList[currentBlock].block_size);
+		VALGRIND_MAKE_MEM_DEFINED(*memory, oldSize);
 #endif /* MEMCHECK */
 		dl_memcopy(memoryAllocation->blockList[newBlock].block,
 		           *memory,
-		           dl_min(size, memoryAllocation->blockList[currentBlock].block_size));
+		           dl_min(size, oldSize));
 		if (error) {
 			goto l_cleanup;
 		}
@@ -929,6 +934,11 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 	
 	// Mark allocated.
 	memoryAllocation->blockList[newBlock].allocated = dl_true;
+
+	if (newBlock != currentBlock) {
+		// The table may have been moved away from beside the old block.
+		/* No error */ dl_memory_mergeBlocks(memoryAllocation, dl_null, currentBlock);
+	}
     
 	// Pass the memory.
 	*memory = memoryAllocation->blockList[newBlock].block;
-- 
2.43.0


From 5385cb0beff6fdc6ca3136073f011d5163b06590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 65/85] fix: next fit did not wrap around and followed unlinked
 blocks, and best and worst fit took the first block

---
 DuckLib/memory.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 17c7f10..967c783 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -371,32 +371,25 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 	dl_error_t error = dl_error_ok;
 	
 	dl_ptrdiff_t optimumBlock = -1;
+	dl_ptrdiff_t startBlock = memoryAllocation->firstBlock;
 	dl_ptrdiff_t currentBlock = -1;
 	dl_bool_t found = dl_false;
 	
-	if (fit == dl_memoryFit_next) {
-		currentBlock = memoryAllocation->blockList[memoryAllocation->mostRecentBlock].nextBlock;
-	}
-	else {
-		currentBlock = memoryAllocation->firstBlock;
+	if ((fit == dl_memoryFit_next)
+	    && !memoryAllocation->blockList[memoryAllocation->mostRecentBlock].unlinked
+	    && (memoryAllocation->blockList[memoryAllocation->mostRecentBlock].nextBlock != -1)) {
+		startBlock = memoryAllocation->blockList[memoryAllocation->mostRecentBlock].nextBlock;
 	}
 	
-	// Find the smallest of the empty blocks.
-	while (!found && (currentBlock != -1)) {
+	// Find the best of the empty blocks.
+	currentBlock = startBlock;
+	do {
 		if (!memoryAllocation->blockList[currentBlock].allocated && (memoryAllocation->blockList[currentBlock].block_size >= size)) {
 			if (optimumBlock == -1) {
 				optimumBlock = currentBlock;
-				found = dl_true;
+				found = (fit == dl_memoryFit_first) || (fit == dl_memoryFit_next);
 			}
 			else switch (fit) {
-			case dl_memoryFit_first:
-				optimumBlock = currentBlock;
-				break;
-			
-			// case dl_memoryFit_next:
-			// 	optimumBlock = currentBlock;
-			// 	break;
-			
 			case dl_memoryFit_best:
 				if (memoryAllocation->blockList[currentBlock].block_size < memoryAllocation->blockList[optimumBlock].block_size) {
 					optimumBlock = currentBlock;
@@ -415,12 +408,15 @@ dl_error_t dl_memory_findBlock(dl_memoryAllocation_t *memoryAllocation, dl_ptrdi
 			}
 		}
 		currentBlock = memoryAllocation->blockList[currentBlock].nextBlock;
-	}
+		// Next fit wraps around.
+		if (currentBlock == -1) currentBlock = memoryAllocation->firstBlock;
+	} while (!found && (currentBlock != startBlock));
 	
 	if (optimumBlock == -1) {
 		error = dl_error_outOfMemory;
 		goto l_cleanup;
 	}
+	memoryAllocation->mostRecentBlock = optimumBlock;
 	
 	error = dl_error_ok;
 	l_cleanup:
-- 
2.43.0


From 23754a564e40ccedf828bdcfaf9aee133f592cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:46 +0000
Subject: [PATCH 66/85] fix: the allocator granted requests of almost the
 largest size as empty blocks

---
 DuckLib/memory.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 967c783..c3d574e 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -744,6 +744,11 @@ dl_error_t dl_malloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl_
 		goto cleanup;
 	}
 
+	if (size > (dl_size_t) -1 - DL_ALIGNMENT) {
+		error = dl_error_outOfMemory;
+		goto cleanup;
+	}
+
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 
 	error = dl_memory_reserveTableEntries(memoryAllocation, 1);
@@ -839,6 +844,11 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		goto l_cleanup;
 	}
 	
+	if (size > (dl_size_t) -1 - DL_ALIGNMENT) {
+		error = dl_error_outOfMemory;
+		goto l_cleanup;
+	}
+
 	size += DL_ALIGNMENT - (size & (DL_ALIGNMENT - 1));
 	
 	error = dl_memory_pointerToBlock(*memoryAllocation, &currentBlock, memory);
-- 
2.43.0


From 6f46599e3aee73a3933db36b818198d81c7e6881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 67/85] fix: dl_memory_usage counted descriptors which aren't
 in use

---
 DuckLib/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index c3d574e..ff31908 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -966,7 +966,7 @@ void dl_memory_usage(dl_size_t *bytes, const dl_memoryAllocation_t memoryAllocat
 	const dl_size_t blockList_length = memoryAllocation.blockList_length;
 	dl_size_t sum = 0;
 	for (dl_ptrdiff_t i = 0; (dl_size_t) i < blockList_length; i++) {
-		if (blockList[i].allocated) {
+		if (!blockList[i].unlinked && blockList[i].allocated) {
 			sum += blockList[i].block_size;
 		}
 	}
-- 
2.43.0


From 2bb43a466ffa4c732828937a107a6aaf15646b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 68/85] fix: dl_realloc could leave adjacent free blocks
 unmerged

---
 DuckLib/memory.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index ff31908..6f3d723 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -945,6 +945,11 @@ dl_error_t dl_realloc(dl_memoryAllocation_t *memoryAllocation, void **memory, dl
 		// The table may have been moved away from beside the old block.
 		/* No error */ dl_memory_mergeBlocks(memoryAllocation, dl_null, currentBlock);
 	}
+	if ((memoryAllocation->blockList[newBlock].nextBlock != -1)
+	    && !memoryAllocation->blockList[memoryAllocation->blockList[newBlock].nextBlock].allocated) {
+		// Or from behind the rest of the new block.
+		/* No error */ dl_memory_mergeBlockAfter(memoryAllocation, dl_null, memoryAllocation->blockList[newBlock].nextBlock);
+	}
     
 	// Pass the memory.
 	*memory = memoryAllocation->blockList[newBlock].block;
-- 
2.43.0


From 8139b5d54237ead28aec8322eb73b99cd642482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:10 +0000
Subject: [PATCH 69/85] fix: dl_free rejected the null pointer in portable
 builds, so tries could not be freed

---
 DuckLib/memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DuckLib/memory.c b/DuckLib/memory.c
index 6f3d723..48c2adf 100644
--- a/DuckLib/memory.c
+++ b/DuckLib/memory.c
@@ -792,8 +792,8 @@ dl_error_t dl_free(dl_memoryAllocation_t *memoryAllocation, void **memory) {
 
 	dl_ptrdiff_t block = -1;
 
+	/* As with the native allocator, there is nothing to do. Tries and arrays rely on it. */
 	if (*memory == dl_null) {
-		error = dl_error_nullPointer;
 		goto l_cleanup;
 	}
 
-- 
2.43.0


From bc17dfcafd3003ed1022b098d01ba50b68c1bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:22 +0000
Subject: [PATCH 70/85] fix: heapsort of an empty array did not terminate

---
 DuckLib/sort.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DuckLib/sort.c b/DuckLib/sort.c
index 8cb341d..4785977 100644
--- a/DuckLib/sort.c
+++ b/DuckLib/sort.c
@@ -36,6 +36,8 @@ void heapify(void *array, dl_size_t length, dl_size_t size, int (*comparison)(co
 
 void heapsort(void *array, dl_size_t length, dl_size_t size, int (*comparison)(const void *l, const void *r, const void *context), const void *context) {
 
+	if (length == 0) return;
+
 	/**/ heapify(array, length, size, comparison, context);
 
 	for (dl_ptrdiff_t end = length - 1; end > 0; --end) {
-- 
2.43.0


From c69410b5bc2721303affe8f6f3f672bccd78b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 71/85] fix: a failing destructor of a user object ran again
 and kept other objects from being destroyed

---
 duckVM.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/duckVM.c b/duckVM.c
index f45719d..ea7e717 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -215,6 +215,8 @@ static dl_error_t duckVM_gclist_markObject(duckVM_gclist_t *gclist, duckVM_objec
 
 static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
+	dl_error_t destructorError = dl_error_ok;
 
 	/* Clear the in use flags. */
 	duckVM_gclist_t *gclistPointer = &duckVM->gclist;
@@ -309,14 +311,16 @@ static dl_error_t duckVM_gclist_garbageCollect(duckVM_t *duckVM) {
 			}
 			else if ((type == duckVM_object_type_user)
 			         && (object.value.user.destructor != dl_null)) {
-				e = object.value.user.destructor(gclistPointer, objectPointer);
-				if (e) goto cleanup;
+				/* Run the destructor once, even if it fails, and free the other objects regardless. */
 				objectPointer->value.user.destructor = dl_null;
+				eError = object.value.user.destructor(gclistPointer, objectPointer);
+				if (eError) destructorError = eError;
 			}
 		}
 	}
 
  cleanup:
+	if (!e) e = destructorError;
 	return e;
 }
 
-- 
2.43.0


From 9f3ff5677c4cd1e936c97b5cc7c725c186f47cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 72/85] fix: scopes, instructions and expansions were leaked
 when a compilation ended early

---
 duckLisp.c   |  7 ++++++-
 generators.c | 48 ++++++++++++++++++++++++++++--------------------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 2b20780..bc96c6d 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2180,7 +2180,12 @@ void duckLisp_subCompileState_init(dl_memoryAllocation_t *memoryAllocation,
 dl_error_t duckLisp_subCompileState_quit(duckLisp_t *duckLisp, duckLisp_subCompileState_t *subCompileState) {
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
-	e = dl_array_quit(&subCompileState->scope_stack);
+	DL_DOTIMES(i, subCompileState->scope_stack.elements_length) {
+		eError = scope_quit(duckLisp, &DL_ARRAY_GETADDRESS(subCompileState->scope_stack, duckLisp_scope_t, i));
+		if (eError) e = eError;
+	}
+	eError = dl_array_quit(&subCompileState->scope_stack);
+	if (eError) e = eError;
 	eError = duckLisp_assembly_quit(duckLisp, &subCompileState->assembly);
 	if (eError) e = eError;
 	return e;
diff --git a/generators.c b/generators.c
index cc7197e..a5423a6 100644
--- a/generators.c
+++ b/generators.c
@@ -1083,6 +1083,8 @@ dl_error_t duckLisp_consToExprAST(duckLisp_t *duckLisp,
 		              length,
 		              duckLisp_ast_compoundExpression_t);
 		if (e) goto cleanup;
+		/* Untouched elements have no type, so an incomplete AST can still be freed. */
+		/**/ dl_memclear(ast->value.expression.compoundExpressions, length * sizeof(duckLisp_ast_compoundExpression_t));
 		ast->value.expression.compoundExpressions_length = length;
 		ast->type = duckLisp_ast_type_expression;
 		dl_ptrdiff_t j = 0;
@@ -1152,6 +1154,7 @@ dl_error_t duckLisp_consToConsAST(duckLisp_t *duckLisp,
 		              (void **) &ast->value.expression.compoundExpressions,
 		              3 * sizeof(duckLisp_ast_compoundExpression_t));
 		if (e) goto cleanup;
+		/**/ dl_memclear(ast->value.expression.compoundExpressions, 3 * sizeof(duckLisp_ast_compoundExpression_t));
 		ast->value.expression.compoundExpressions_length = 3;
 		ast->type = duckLisp_ast_type_expression;
 
@@ -1218,6 +1221,7 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 	                   dl_array_strategy_double);
 	duckVM_object_t returnValue;
 	duckLisp_ast_compoundExpression_t returnCompoundExpression;
+	/**/ duckLisp_ast_compoundExpression_init(&returnCompoundExpression);
 	dl_uint8_t haltInstruction = duckLisp_instruction_halt;
 
 	duckLisp_subCompileState_t *lastSubCompileState = compileState->currentCompileState;
@@ -1235,6 +1239,8 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		                          compAssembly.elements,
 		                          compAssembly.elements_length);
 		if (e) goto cleanup;
+		/* The instructions belong to the main assembly now. */
+		compAssembly.elements_length = 0;
 
 		e = duckLisp_assemble(duckLisp,
 		                      compileState,
@@ -1271,15 +1277,16 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		returnValue = DL_ARRAY_GETTOPADDRESS(duckLisp->vm.stack, duckVM_object_t);
 
 		e = duckLisp_objectToAST(duckLisp, &returnCompoundExpression, &returnValue, dl_false);
-		if (e) goto cleanup;
+		if (e) goto cleanupAST;
 		/* Pop return value. */
 		e = duckVM_pop(&duckLisp->vm);
-		if (e) goto cleanup;
 
 		/**/ duckLisp_localsLength_decrement(compileState);
 
 		compileState->currentCompileState = lastSubCompileState;
 
+		if (e) goto cleanupAST;
+
 		e = duckLisp_compile_compoundExpression(duckLisp,
 		                                        compileState,
 		                                        assembly,
@@ -1289,16 +1296,17 @@ dl_error_t duckLisp_generator_comptime(duckLisp_t *duckLisp,
 		                                        dl_null,
 		                                        dl_null,
 		                                        dl_true);
-		if (e) goto cleanup;
 
-		e = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &returnCompoundExpression);
+	cleanupAST:
+		eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &returnCompoundExpression);
+		if (eError) e = eError;
 		if (e) goto cleanup;
 	}
 
  cleanup:
 	compileState->currentCompileState = lastSubCompileState;
 
-	eError = dl_array_quit(&compAssembly);
+	eError = duckLisp_assembly_quit(duckLisp, &compAssembly);
 	if (eError) e = eError;
 
 	eError = dl_array_quit(&bytecode);
@@ -1543,9 +1551,7 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 						e = duckLisp_error_pushRuntime(duckLisp,
 						                               DL_STR("lambda: "
 						                                      "\"&rest\" must be the second to last parameter."));
-						if (e) goto cleanup;
-						e = dl_error_invalidValue;
-						goto cleanup;
+						if (e) goto cleanup_gensym;
 						e = dl_error_invalidValue;
 						goto cleanup_gensym;
 					}
@@ -1627,6 +1633,8 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 		                          bodyAssembly.elements,
 		                          bodyAssembly.elements_length);
 		if (e) goto cleanup_gensym;
+		/* The instructions belong to the main assembly now. */
+		bodyAssembly.elements_length = 0;
 
 		{
 			/* This needs to be in the same scope or outer than the function arguments so that they don't get
@@ -1698,7 +1706,7 @@ dl_error_t duckLisp_generator_lambda_raw(duckLisp_t *duckLisp,
 		if (eError) e = eError;
 	}
 
-	eError = dl_array_quit(&bodyAssembly);
+	eError = duckLisp_assembly_quit(duckLisp, &bodyAssembly);
 	if (eError) e = eError;
 
 	eError = dl_array_quit(&eString);
@@ -3548,6 +3556,7 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	dl_array_t bytecode;  /* dl_array_t:dl_uint8_t */
 	duckVM_object_t return_value;
 	duckLisp_ast_compoundExpression_t ast;
+	/**/ duckLisp_ast_compoundExpression_init(&ast);
 	duckLisp_instruction_t haltInstruction = duckLisp_instruction_halt;
 	duckLisp_subCompileState_t *lastSubCompileState = compileState->currentCompileState;
 	dl_ptrdiff_t functionIndex = -1;
@@ -3641,12 +3650,11 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 		compileState->currentCompileState->locals_length = outerStartStack_length + 1;
 
 	cleanupArguments:
-		if (e) goto cleanupArrays;
-
 		if (quote.value.expression.compoundExpressions) {
-			e = DL_FREE(duckLisp->memoryAllocation, &quote.value.expression.compoundExpressions);
-			if (e) goto cleanupArrays;
+			eError = DL_FREE(duckLisp->memoryAllocation, &quote.value.expression.compoundExpressions);
+			if (eError) e = eError;
 		}
+		if (e) goto cleanupArrays;
 	}
 
 	/* Assemble. */
@@ -3682,10 +3690,10 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	/* Compile macro expansion. */
 
 	e = duckLisp_objectToAST(duckLisp, &ast, &return_value, dl_true);
-	if (e) goto cleanupArrays;
+	if (e) goto cleanupAST;
 	/* Pop return value. */
 	e = duckVM_pop(&duckLisp->vm);
-	if (e) goto cleanupArrays;
+	if (e) goto cleanupAST;
 
 	/* duckLisp_ast_print(duckLisp, ast); */
 
@@ -3709,16 +3717,16 @@ dl_error_t duckLisp_generator_macro(duckLisp_t *duckLisp,
 	   can inspect the returned expression and act if it sees a `__var`, `__defun`, or `__noscope`. */
 	if (ast.type == duckLisp_ast_type_expression) {
 		e = duckLisp_ast_expression_quit(duckLisp->memoryAllocation, expression);
-		if (e) goto cleanupAST;
 		*expression = ast.value.expression;
+		/* The expression owns the AST now. */
+		/**/ duckLisp_ast_compoundExpression_init(&ast);
+		if (e) goto cleanupAST;
 	}
 
  cleanupAST:
 
-	if (ast.type != duckLisp_ast_type_expression) {
-		eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &ast);
-		if (eError) e = eError;
-	}
+	eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &ast);
+	if (eError) e = eError;
 
  cleanupArrays:
 
-- 
2.43.0


From 697bc83c4653102d390ed288bd566d3377843a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 73/85] fix: closures of an aborted program lost their
 variables, and each macro stayed on the compile-time stack forever

---
 duckLisp.c |  9 +++++++--
 duckLisp.h |  3 +++
 duckVM.c   | 48 ++++++++++++++++++++++++++++++++++++++++--------
 duckVM.h   |  2 ++
 4 files changed, 52 insertions(+), 10 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index bc96c6d..8d77eef 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -2195,8 +2195,10 @@ dl_error_t duckLisp_subCompileState_quit(duckLisp_t *duckLisp, duckLisp_subCompi
 void duckLisp_compileState_init(duckLisp_t *duckLisp, duckLisp_compileState_t *compileState) {
 	/**/ duckLisp_subCompileState_init(duckLisp->memoryAllocation, &compileState->runtimeCompileState);
 	/**/ duckLisp_subCompileState_init(duckLisp->memoryAllocation, &compileState->comptimeCompileState);
-	/* The compile-time VM outlives the compile state, and keeps the objects of previous compilations on its stack. */
-	compileState->comptimeCompileState.locals_length = duckLisp->vm.stack.elements_length;
+	/* The compile-time VM outlives the compile state. */
+	compileState->comptimeStack_length = duckLisp->vm.stack.elements_length;
+	compileState->comptimeCallStack_length = duckLisp->vm.call_stack.elements_length;
+	compileState->comptimeCompileState.locals_length = compileState->comptimeStack_length;
 	compileState->currentCompileState = &compileState->runtimeCompileState;
 }
 
@@ -2206,6 +2208,9 @@ dl_error_t duckLisp_compileState_quit(duckLisp_t *duckLisp, duckLisp_compileStat
 	compileState->currentCompileState = dl_null;
 	e = duckLisp_subCompileState_quit(duckLisp, &compileState->comptimeCompileState);
 	eError = duckLisp_subCompileState_quit(duckLisp, &compileState->runtimeCompileState);
+	if (!e) e = eError;
+	/* Nothing can refer to the compile-time variables and macros by name anymore. */
+	eError = duckVM_unwind(&duckLisp->vm, compileState->comptimeStack_length, compileState->comptimeCallStack_length);
 	return (e ? e : eError);
 }
 
diff --git a/duckLisp.h b/duckLisp.h
index a526fed..87d4ba3 100644
--- a/duckLisp.h
+++ b/duckLisp.h
@@ -137,6 +137,9 @@ typedef struct duckLisp_compileState_s {
 	duckLisp_subCompileState_t runtimeCompileState;
 	duckLisp_subCompileState_t comptimeCompileState;
 	duckLisp_subCompileState_t *currentCompileState;
+	/* Lengths of the stacks of the compile-time VM before the compilation. */
+	dl_size_t comptimeStack_length;
+	dl_size_t comptimeCallStack_length;
 } duckLisp_compileState_t;
 
 #ifdef USE_DATALOGGING
diff --git a/duckVM.c b/duckVM.c
index ea7e717..bcf4057 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -4876,15 +4876,47 @@ dl_error_t duckVM_allocateHeapObject(duckVM_t *duckVM, duckVM_object_t **heapObj
 	return duckVM_gclist_pushObject(duckVM, heapObjectOut, objectIn);
 }
 
-dl_error_t duckVM_softReset(duckVM_t *duckVM) {
+/* Discard everything above the given lengths from the stack and from the call stack. Closures which outlive the stack
+   keep the variables that they have captured. */
+dl_error_t duckVM_unwind(duckVM_t *duckVM, dl_size_t stack_length, dl_size_t callStack_length) {
 	dl_error_t e = dl_error_ok;
-	e = stack_pop_multiple(duckVM, duckVM->stack.elements_length);
-	if (e) goto cleanup;
-	e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, duckVM->call_stack.elements_length);
-	if (e) goto cleanup;
-	e = dl_array_popElements(&duckVM->call_stack, dl_null, duckVM->call_stack.elements_length);
-	if (e) goto cleanup;
- cleanup:
+	const duckVM_object_t nil = duckVM_object_makeList(dl_null);
+
+	if (callStack_length < duckVM->call_stack.elements_length) {
+		const dl_size_t pops = duckVM->call_stack.elements_length - callStack_length;
+		e = dl_array_popElements(&duckVM->upvalue_array_call_stack, dl_null, pops);
+		if (e) goto cleanup;
+		e = dl_array_popElements(&duckVM->call_stack, dl_null, pops);
+		if (e) goto cleanup;
+	}
+	if (stack_length < duckVM->stack.elements_length) {
+		/* The captured objects are moved to the heap, so make room by dropping all the others first. */
+		for (dl_size_t i = stack_length; i < duckVM->stack.elements_length; i++) {
+			if (DL_ARRAY_GETADDRESS(duckVM->upvalue_stack, duckVM_object_t *, i) == dl_null) {
+				DL_ARRAY_GETADDRESS(duckVM->stack, duckVM_object_t, i) = nil;
+			}
+		}
+		while (!e && (stack_length < duckVM->stack.elements_length)) {
+			duckVM_object_t *upvalue = DL_ARRAY_GETTOPADDRESS(duckVM->upvalue_stack, duckVM_object_t *);
+			if (upvalue != dl_null) {
+				duckVM_object_t *object = dl_null;
+				dl_error_t eError = duckVM_gclist_pushObject(duckVM,
+				                                             &object,
+				                                             DL_ARRAY_GETTOPADDRESS(duckVM->stack, duckVM_object_t));
+				if (!eError) {
+					upvalue->value.upvalue.type = duckVM_upvalue_type_heap_object;
+					upvalue->value.upvalue.value.heap_object = object;
+				}
+			}
+			e = stack_pop_multiple(duckVM, 1);
+		}
+	}
+
+ cleanup: return e;
+}
+
+dl_error_t duckVM_softReset(duckVM_t *duckVM) {
+	dl_error_t e = duckVM_unwind(duckVM, 0, 0);
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("duckVM_softReset: Failed."));
 		if (!e) e = eError;
diff --git a/duckVM.h b/duckVM.h
index 0097f3d..a7ad2df 100644
--- a/duckVM.h
+++ b/duckVM.h
@@ -248,6 +248,8 @@ dl_error_t duckVM_popAll(duckVM_t *duckVM);
 dl_error_t duckVM_garbageCollect(duckVM_t *duckVM);
 /* Reset the VM, but retain global variables and the contents of the heap. */
 dl_error_t duckVM_softReset(duckVM_t *duckVM);
+/* Discard everything above the given lengths from the stack and from the call stack. */
+dl_error_t duckVM_unwind(duckVM_t *duckVM, dl_size_t stack_length, dl_size_t callStack_length);
 
 
 /* Functions intended for C callbacks */
-- 
2.43.0


From d311542b2e9ce42fa13ac5b617b9ae3503395e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 74/85] fix: the collector could free what the read callback
 was building

---
 duckLisp.c | 59 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index 8d77eef..ac2af69 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -904,9 +904,14 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 	case duckLisp_ast_type_expression:
 		/* Fall through */
 	case duckLisp_ast_type_literalExpression: {
-		duckVM_object_t *tailPointer = dl_null;
+		/* The list is built on the stack, where the garbage collector can see it. */
+		e = duckVM_pushNil(duckVM);
+		if (e) break;
 		DL_DOTIMES(j, ast.value.expression.compoundExpressions_length) {
 			duckVM_object_t head;
+			/* stack: tail */
+			e = duckVM_pushCons(duckVM);
+			if (e) break;
 			e = duckLisp_astToObject(duckLisp,
 			                         duckVM,
 			                         &head,
@@ -915,15 +920,30 @@ dl_error_t duckLisp_astToObject(duckLisp_t *duckLisp,
 			                           - 1
 			                           - j]));
 			if (e) break;
-			duckVM_object_t *headPointer;
-			e = duckVM_allocateHeapObject(duckVM, &headPointer, head);
+			e = duckVM_object_push(duckVM, &head);
+			if (e) break;
+			/* stack: tail (()) head */
+			e = duckVM_setFirst(duckVM, -2);
+			if (e) break;
+			e = duckVM_pop(duckVM);
+			if (e) break;
+			/* stack: tail (head) */
+			e = duckVM_push(duckVM, -2);
+			if (e) break;
+			e = duckVM_setRest(duckVM, -2);
+			if (e) break;
+			e = duckVM_pop(duckVM);
+			if (e) break;
+			/* stack: tail (head . tail) */
+			e = duckVM_copyFromTop(duckVM, -2);
 			if (e) break;
-			duckVM_object_t tail = duckVM_object_makeCons(headPointer, tailPointer);
-			e = duckVM_allocateHeapObject(duckVM, &tailPointer, tail);
+			e = duckVM_pop(duckVM);
 			if (e) break;
+			/* stack: (head . tail) */
 		}
-		object->type = duckVM_object_type_list;
-		object->value.list = tailPointer;
+		if (e) break;
+		e = duckVM_object_pop(duckVM, object);
+		if (e) break;
 		break;
 	}
 	case duckLisp_ast_type_identifier:
@@ -1635,27 +1655,36 @@ dl_error_t duckLisp_callback_read(duckVM_t *duckVM) {
 			if (e) goto cleanupString;
 		}
 
+		e = duckVM_object_push(duckVM, &astObject);
+		if (e) goto cleanupString;
+		/* stack: ast */
 		e = duckVM_pushCons(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) */
+		/* stack: ast (()) */
 		e = duckVM_pushInteger(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (()) 0 */
+		/* stack: ast (()) 0 */
 		e = duckVM_setInteger(duckVM, status);
 		if (e) goto cleanupString;
-		/* stack: (()) status */
+		/* stack: ast (()) status */
 		e = duckVM_setRest(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) status */
+		/* stack: ast (() . status) status */
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
-		/* stack: (() . status) */
-		e = duckVM_object_push(duckVM, &astObject);
+		/* stack: ast (() . status) */
+		e = duckVM_push(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (() . status) ast */
+		/* stack: ast (() . status) ast */
 		e = duckVM_setFirst(duckVM, -2);
 		if (e) goto cleanupString;
-		/* stack: (ast . status) ast */
+		/* stack: ast (ast . status) ast */
+		e = duckVM_pop(duckVM);
+		if (e) goto cleanupString;
+		/* stack: ast (ast . status) */
+		e = duckVM_copyFromTop(duckVM, -2);
+		if (e) goto cleanupString;
+		/* stack: (ast . status) (ast . status) */
 		e = duckVM_pop(duckVM);
 		if (e) goto cleanupString;
 		/* stack: (ast . status) */
-- 
2.43.0


From 3ce2f821b985b0e0ed2612ae9821230918c0123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 75/85] fix: funcall without a function crashed the compiler

---
 generators.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generators.c b/generators.c
index a5423a6..e85962b 100644
--- a/generators.c
+++ b/generators.c
@@ -3337,6 +3337,9 @@ dl_error_t duckLisp_generator_funcall2(duckLisp_t *duckLisp,
 	dl_ptrdiff_t innerStartStack_length;
 	dl_ptrdiff_t outerStartStack_length;
 
+	e = duckLisp_checkArgsAndReportError(duckLisp, *expression, 2, dl_true);
+	if (e) goto cleanup;
+
 	e = duckLisp_compile_compoundExpression(duckLisp,
 	                                        compileState,
 	                                        assembly,
-- 
2.43.0


From cba3bf3e23ff6766c285f3d1a2fc314c5706198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 76/85] fix: expressions which couldn't be read completely were
 leaked

---
 parser.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/parser.c b/parser.c
index 45a1017..719a186 100644
--- a/parser.c
+++ b/parser.c
@@ -337,7 +337,11 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 		               &expression.compoundExpressions,
 		               expressionMemorySize,
 		               duckLisp_ast_compoundExpression_t);
-		if (e) goto cleanup;
+		if (e) {
+			eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &subCompoundExpression);
+			if (eError) e = eError;
+			goto cleanup;
+		}
 
 		expression.compoundExpressions[expression.compoundExpressions_length] = subCompoundExpression;
 		expression.compoundExpressions_length++;
@@ -350,6 +354,11 @@ static dl_error_t parse_literalExpression(duckLisp_t *duckLisp,
 	*index = indexCopy;
 
  cleanup:
+	if (e) {
+		eError = duckLisp_ast_expression_quit(duckLisp->memoryAllocation, &expression);
+		if (eError) e = eError;
+		(void) ast_expression_init(&expression);
+	}
 	compoundExpression->type = duckLisp_ast_type_literalExpression;
 	compoundExpression->value.expression = expression;
 
@@ -465,7 +474,11 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 		               &expression.compoundExpressions,
 		               expressionMemorySize,
 		               duckLisp_ast_compoundExpression_t);
-		if (e) goto cleanup;
+		if (e) {
+			eError = duckLisp_ast_compoundExpression_quit(duckLisp->memoryAllocation, &subCompoundExpression);
+			if (eError) e = eError;
+			goto cleanup;
+		}
 
 		expression.compoundExpressions[expression.compoundExpressions_length] = subCompoundExpression;
 		expression.compoundExpressions_length++;
@@ -478,6 +491,11 @@ static dl_error_t parse_expression(duckLisp_t *duckLisp,
 	*index = indexCopy;
 
  cleanup:
+	if (e) {
+		eError = duckLisp_ast_expression_quit(duckLisp->memoryAllocation, &expression);
+		if (eError) e = eError;
+		(void) ast_expression_init(&expression);
+	}
 	compoundExpression->type = duckLisp_ast_type_expression;
 	compoundExpression->value.expression = expression;
 
-- 
2.43.0


From 452472f89bdc8768bc5313779c1d0413d943118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:43 +0000
Subject: [PATCH 77/85] fix: running out of memory left the stacks of the
 machine out of step, so that it could not be reset

---
 duckVM.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/duckVM.c b/duckVM.c
index bcf4057..dd9aba2 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -522,6 +522,10 @@ static dl_error_t stack_push(duckVM_t *duckVM, duckVM_object_t *object) {
 	e = dl_array_pushElement(&duckVM->stack, object);
 	if (e) goto cleanup;
 	e = dl_array_pushElement(&duckVM->upvalue_stack, dl_null);
+	if (e) {
+		/* Both stacks have to have the same length. */
+		(void) dl_array_popElement(&duckVM->stack, dl_null);
+	}
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("stack_push: Failed."));
@@ -588,7 +592,10 @@ static dl_error_t call_stack_push(duckVM_t *duckVM,
 	if (e) goto cleanup;
 	e = dl_array_pushElement(&duckVM->upvalue_array_call_stack,
 	                         (upvalueArray == dl_null) ? dl_null : &upvalueArray->value.upvalue_array);
-	if (e) goto cleanup;
+	if (e) {
+		/* Both stacks have to grow together. */
+		(void) dl_array_popElement(&duckVM->call_stack, dl_null);
+	}
  cleanup:
 	if (e) {
 		dl_error_t eError = duckVM_error_pushRuntime(duckVM, DL_STR("call_stack_push: Failed."));
@@ -4770,6 +4777,15 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 		goto cleanup;
 	}
  cleanup:
+	if (e) {
+		/* Both stacks have to have the same length, even if the instruction could only push on one of them. */
+		while (duckVM->stack.elements_length > duckVM->upvalue_stack.elements_length) {
+			(void) dl_array_popElement(&duckVM->stack, dl_null);
+		}
+		while (duckVM->upvalue_stack.elements_length > duckVM->stack.elements_length) {
+			(void) dl_array_popElement(&duckVM->upvalue_stack, dl_null);
+		}
+	}
 	*ipPtr = ip;
 	duckVM->currentBytecode = bytecode;
 	return e;
-- 
2.43.0


From 3cc62fe8581fbc9578fd03d2ae3963f5eb7549c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:16 +0000
Subject: [PATCH 78/85] fix: comptime and noscope without forms were errors in
 portable builds

---
 generators.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/generators.c b/generators.c
index e85962b..ac6ac44 100644
--- a/generators.c
+++ b/generators.c
@@ -1009,11 +1009,15 @@ dl_error_t duckLisp_generator_noscope2(duckLisp_t *duckLisp,
 	dl_error_t eError = dl_error_ok;
 
 	duckLisp_ast_expression_t subExpression;
-	e = DL_MALLOC(duckLisp->memoryAllocation,
-	              &subExpression.compoundExpressions,
-	              expression->compoundExpressions_length - 1,
-	              duckLisp_ast_compoundExpression_t);
-	if (e) return e;  /* sic. */
+	subExpression.compoundExpressions = dl_null;
+	/* Allocating nothing may be an error. */
+	if (expression->compoundExpressions_length > 1) {
+		e = DL_MALLOC(duckLisp->memoryAllocation,
+		              &subExpression.compoundExpressions,
+		              expression->compoundExpressions_length - 1,
+		              duckLisp_ast_compoundExpression_t);
+		if (e) return e;  /* sic. */
+	}
 	(void) dl_memcopy_noOverlap(subExpression.compoundExpressions,
 	                            &expression->compoundExpressions[1],
 	                            ((expression->compoundExpressions_length - 1)
-- 
2.43.0


From 9ec359b91cd66608a74f0842b39e18fdc337438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:49 +0000
Subject: [PATCH 79/85] fix: a literal expression whose first element isn't a
 name crashed when parentheses were inferred

---
 parenthesis-inferrer.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index dfd82d8..024cb62 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1565,8 +1565,11 @@ static dl_error_t infer_expression(inferrerState_t *state,
 
 	if (compoundExpression->type == duckLisp_ast_type_literalExpression) {
 		/* Don't type-check. */
-		e = infer_callback(state, head, dl_false);
-		if (e) goto cleanup;
+		/* The head of a literal expression can be anything. */
+		if (head->type == duckLisp_ast_type_callback) {
+			e = infer_callback(state, head, dl_false);
+			if (e) goto cleanup;
+		}
 		/* Run argument inference */
 
 		e = inferArguments(state, fileName, fileName_length, expression, 1, dl_false);
-- 
2.43.0


From d0a1e95173a951c17148ad001f85106f3df5cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:49 +0000
Subject: [PATCH 80/85] fix: a malformed nested type in a declaration crashed
 the inferrer

---
 parenthesis-inferrer.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index 024cb62..db89ff9 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -701,6 +701,8 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 	dl_error_t e = dl_error_ok;
 	dl_error_t eError = dl_error_ok;
 
+	(void) inferrerTypeSignature_init(inferrerTypeSignature);
+
 	switch (compoundExpression.type) {
 	case duckLisp_ast_type_identifier:
 		/* Fall through */
@@ -741,6 +743,7 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 		                     state->memoryAllocation,
 		                     sizeof(inferrerTypeSignature_t),
 		                     dl_array_strategy_double);
+		inferrerTypeSignature_t *restSignature = dl_null;
 		dl_bool_t variadic = dl_false;
 		dl_ptrdiff_t variadic_arg = 0;
 		DL_DOTIMES(j, expression.compoundExpressions_length) {
@@ -760,12 +763,11 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 				variadic_arg++;
 				e = inferrerTypeSignature_fromAst(state, &subInferrerTypeSignature, expression.compoundExpressions[j]);
 				if (e) goto expressionCleanup;
-				e = DL_MALLOC(state->memoryAllocation,
-				              &inferrerTypeSignature->value.expression.restSignature,
-				              1,
-				              inferrerTypeSignature_t);
+				e = DL_MALLOC(state->memoryAllocation, &restSignature, 1, inferrerTypeSignature_t);
 				if (e) goto expressionCleanup;
-				*inferrerTypeSignature->value.expression.restSignature = subInferrerTypeSignature;
+				*restSignature = subInferrerTypeSignature;
+				/* `restSignature` owns it now. */
+				(void) inferrerTypeSignature_init(&subInferrerTypeSignature);
 				continue;
 			}
 			if ((expression.compoundExpressions[j].type == duckLisp_ast_type_identifier)
@@ -799,6 +801,8 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 			if (e) goto expressionCleanup;
 			e = dl_array_pushElement(&subInferrerTypeSignaturesArray, &subInferrerTypeSignature);
 			if (e) goto expressionCleanup;
+			/* The array owns it now. */
+			(void) inferrerTypeSignature_init(&subInferrerTypeSignature);
 		}
 
 		inferrerTypeSignature->type = inferrerTypeSignature_type_expression;
@@ -806,8 +810,22 @@ static dl_error_t inferrerTypeSignature_fromAst(inferrerState_t *state,
 		(inferrerTypeSignature
 		 ->value.expression.positionalSignatures_length) = subInferrerTypeSignaturesArray.elements_length;
 		inferrerTypeSignature->value.expression.variadic = variadic;
+		inferrerTypeSignature->value.expression.restSignature = restSignature;
 		expressionCleanup:
 		if (e) {
+			DL_DOTIMES(j, subInferrerTypeSignaturesArray.elements_length) {
+				eError = inferrerTypeSignature_quit(&DL_ARRAY_GETADDRESS(subInferrerTypeSignaturesArray,
+				                                                         inferrerTypeSignature_t,
+				                                                         j),
+				                                    state->memoryAllocation);
+				if (eError) e = eError;
+			}
+			if (restSignature != dl_null) {
+				eError = inferrerTypeSignature_quit(restSignature, state->memoryAllocation);
+				if (eError) e = eError;
+				eError = DL_FREE(state->memoryAllocation, &restSignature);
+				if (eError) e = eError;
+			}
 			eError = dl_array_quit(&subInferrerTypeSignaturesArray);
 			if (eError) e = eError;
 			eError = inferrerTypeSignature_quit(&subInferrerTypeSignature, state->memoryAllocation);
-- 
2.43.0


From a2daf061d1f365c5a9347050480944a3f18ea756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 81/85] fix: declarations and scripts which fail were leaked by
 the inferrer

---
 parenthesis-inferrer.c | 59 ++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index db89ff9..368ab13 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1006,14 +1006,17 @@ static dl_error_t addDeclaration(inferrerState_t *state,
 
 	inferrerType_t type;
 	inferrerScope_t scope;
+	dl_bool_t scopePopped = dl_false;
 	(void) inferrerType_init(&type);
 
-	e = popDeclarationScope(state, &scope);
-	if (e) goto cleanup;
-
+	/* This takes ownership of the bytecode. */
 	type.bytecode = bytecode;
 	type.bytecode_length = bytecode_length;
 
+	e = popDeclarationScope(state, &scope);
+	if (e) goto cleanup;
+	scopePopped = dl_true;
+
 	e = inferrerTypeSignature_fromAst(state, &type.type, typeAst);
 	if (e) goto cleanup;
 	if ((type.type.type == inferrerTypeSignature_type_symbol) && (bytecode_length > 0)) {
@@ -1025,15 +1028,23 @@ static dl_error_t addDeclaration(inferrerState_t *state,
 		goto cleanup;
 	}
 
-	e = dl_trie_insert(&scope.identifiersTrie, name, name_length, scope.types.elements_length);
-	if (e) goto cleanup;
 	e = dl_array_pushElement(&scope.types, &type);
 	if (e) goto cleanup;
-
-	e = pushDeclarationScope(state, &scope);
+	/* The scope owns it now. */
+	(void) inferrerType_init(&type);
+	e = dl_trie_insert(&scope.identifiersTrie, name, name_length, scope.types.elements_length - 1);
 	if (e) goto cleanup;
 
- cleanup: return e;
+ cleanup:
+	if (e) {
+		eError = inferrerType_quit(&type, state->memoryAllocation);
+		if (eError) e = eError;
+	}
+	if (scopePopped) {
+		eError = pushDeclarationScope(state, &scope);
+		if (eError) e = eError;
+	}
+	return e;
 }
 
 static dl_error_t compileAndAddDeclaration(inferrerState_t *state,
@@ -1044,6 +1055,7 @@ static dl_error_t compileAndAddDeclaration(inferrerState_t *state,
                                            const duckLisp_ast_compoundExpression_t typeAst,
                                            const duckLisp_ast_compoundExpression_t scriptAst) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 	(void) fileName;
 	(void) fileName_length;
 
@@ -1056,8 +1068,8 @@ static dl_error_t compileAndAddDeclaration(inferrerState_t *state,
 
 		(void) duckLisp_compileState_init(&state->duckLisp, &compileState);
 		e = duckLisp_compileAST(&state->duckLisp, &compileState, &bytecodeArray, scriptAst, dl_false);
-		if (e) goto cleanup;
-		e = duckLisp_compileState_quit(&state->duckLisp, &compileState);
+		eError = duckLisp_compileState_quit(&state->duckLisp, &compileState);
+		if (eError) e = eError;
 		if (e) goto cleanup;
 
 		bytecode = bytecodeArray.elements;
@@ -1406,7 +1418,7 @@ static dl_error_t inferArgument(inferrerState_t *state,
 					          &newLength,
 					          parenthesized,
 					          infer);
-					if (e) goto cleanup;
+					if (e) goto expressionCleanup;
 				}
 
 				/* This part does whatever inference the script didn't do. */
@@ -1707,6 +1719,9 @@ static dl_error_t callback_declareIdentifier(duckVM_t *vm) {
 	duckVM_object_t typeObject;
 	vmContext_t context;
 	inferrerState_t *state = dl_null;
+	dl_uint8_t *string = dl_null;
+	duckLisp_ast_compoundExpression_t typeAst;
+	(void) duckLisp_ast_compoundExpression_init(&typeAst);
 
 	e = dl_array_getTop(vm->inferrerContext, &context);
 	if (e) goto cleanup;
@@ -1737,13 +1752,11 @@ static dl_error_t callback_declareIdentifier(duckVM_t *vm) {
 		goto cleanup;
 	}
 
-	duckLisp_ast_compoundExpression_t typeAst;
 	e = duckLisp_objectToAST(&state->duckLisp, &typeAst, &typeObject, dl_true);
 	if (e) goto cleanup;
 
 	{
 		/* stack: identifier */
-		dl_uint8_t *string = dl_null;
 		dl_size_t length = 0;
 		if (identifierObject_type == duckVM_object_type_symbol) {
 			e = duckVM_copySymbolName(vm, &string, &length);
@@ -1759,19 +1772,23 @@ static dl_error_t callback_declareIdentifier(duckVM_t *vm) {
 		/* stack: _ */
 		e = addDeclaration(state, string, length, typeAst, dl_null, 0);
 		if (e) goto cleanup;
-		e = DL_FREE(vm->memoryAllocation, &string);
-		if (e) goto cleanup;
 	}
 	/* stack: _ */
 
-	e = duckLisp_ast_compoundExpression_quit(state->memoryAllocation, &typeAst);
-	if (e) goto cleanup;
-
 	e = duckVM_pushNil(vm);
 	if (e) goto cleanup;
 	/* stack: () */
 
- cleanup: return e;
+ cleanup:
+	if (string != dl_null) {
+		eError = DL_FREE(vm->memoryAllocation, &string);
+		if (eError) e = eError;
+	}
+	if (state != dl_null) {
+		eError = duckLisp_ast_compoundExpression_quit(state->memoryAllocation, &typeAst);
+		if (eError) e = eError;
+	}
+	return e;
 }
 
 static dl_error_t callback_inferAndGetNextArgument(duckVM_t *vm) {
@@ -2135,12 +2152,8 @@ dl_error_t duckLisp_inferParentheses(dl_memoryAllocation_t *memoryAllocation,
  cleanup:
 	eError = dl_array_pushElements(errors, state.duckLisp.errors.elements, state.duckLisp.errors.elements_length);
 	if (eError) e = eError;
-	state.duckLisp.errors.elements = dl_null;
-	state.duckLisp.errors.elements_length = 0;
 	eError = dl_array_pushElements(errors, state.duckVM.errors.elements, state.duckVM.errors.elements_length);
 	if (eError) e = eError;
-	state.duckVM.errors.elements = dl_null;
-	state.duckVM.errors.elements_length = 0;
 
 	eError = inferrerState_quit(&state);
 	if (eError) e = eError;
-- 
2.43.0


From e8a44c4d8310ba5feadc879950407920375b07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:29 +0000
Subject: [PATCH 82/85] fix: inference of a rest argument with a nested type
 didn't terminate

---
 parenthesis-inferrer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parenthesis-inferrer.c b/parenthesis-inferrer.c
index 368ab13..16359aa 100644
--- a/parenthesis-inferrer.c
+++ b/parenthesis-inferrer.c
@@ -1229,6 +1229,7 @@ static dl_error_t inferIncrementally(inferrerState_t *state,
 				e = dl_error_invalidValue;
 				eError = duckLisp_error_pushInference(state, DL_STR("Nested expression types are not yet supported."));
 				if (eError) e = eError;
+				goto cleanup;
 			}
 		}
 		else {
@@ -1273,6 +1274,7 @@ static dl_error_t inferIncrementally(inferrerState_t *state,
 						eError = duckLisp_error_pushInference(state,
 						                                      DL_STR("Nested expression types are not yet supported."));
 						if (eError) e = eError;
+						goto cleanup;
 					}
 				}
 			}
-- 
2.43.0


From 3115483d4ed1d4463d7cf1acb7e87dba1d37d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 83/85] fix: adding to a trie hid that memory ran out, or lost
 entries

---
 DuckLib/trie.c | 76 ++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 33 deletions(-)

diff --git a/DuckLib/trie.c b/DuckLib/trie.c
index 9ca3f95..39317bc 100644
--- a/DuckLib/trie.c
+++ b/DuckLib/trie.c
@@ -171,8 +171,9 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 				                          &key[name_index],
 				                          key_length - name_index,
 				                          index);
-				if (*success) break;
+				if (e || *success) break;
 			}
+			if (e) break;
 			if (!*success) {
 				/* No child nodes match at all, so create a new one. */
 				e = dl_trie_pushNode(trie, node, &key[name_index], key_length - name_index, index);
@@ -184,28 +185,32 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 		/* Correct, but key is too short for this node. */
 		else if ((dl_size_t) name_index == key_length) {
 			/* Split. */
-			/* Save current node. (Save the children!) */
-			dl_trie_node_t tempNode = *node;
-			/* Reinitialize the node. Put the index here. */
-			/**/ dl_trie_init_node(node,
+			/* The current node and its children stay untouched until nothing can fail anymore. */
+			dl_trie_node_t newNode;
+			/* Put the index here. */
+			/**/ dl_trie_init_node(&newNode,
 			                       index,
 			                       dl_null,
 			                       0,
 			                       dl_null,
 			                       dl_null);
-			/* Push the saved node into the newly initialized node. */
+			/* Make room for the current node in the new node. */
 			e = dl_trie_pushNode(trie,
-			                     node,
+			                     &newNode,
 			                     &(*node_name)[name_index],
 			                     *node_name_length - name_index,
-			                     tempNode.index);
-			if (e) break;
-			node->value.nodes[0] = tempNode;
-
-			e = dl_realloc(trie->memoryAllocation,
-			               (void **) node_name,
-			               name_index * sizeof(dl_uint8_t));
-			if (e) break;
+			                     node->index);
+			if (!e) {
+				e = dl_realloc(trie->memoryAllocation,
+				               (void **) node_name,
+				               name_index * sizeof(dl_uint8_t));
+			}
+			if (e) {
+				(void) dl_trie_quit_node(trie, &newNode);
+				break;
+			}
+			newNode.value.nodes[0] = *node;
+			*node = newNode;
 			/* Trim current node's name to match key. */
 			*node_name_length = name_index;
 
@@ -216,37 +221,42 @@ static dl_error_t dl_trie_insert_helper(dl_trie_t *trie,
 		else if (key[name_index] != (*node_name)[name_index]) {  /* Exit point */
 			if (name_index != 0) {
 				/* Split. */
-				dl_trie_node_t tempNode = *node;
-				dl_trie_init_node(node,
+				/* The current node and its children stay untouched until nothing can fail anymore. */
+				dl_trie_node_t newNode;
+				dl_trie_init_node(&newNode,
 				                  -1,
 				                  dl_null,
 				                  0,
 				                  dl_null,
 				                  dl_null);
 				e = dl_trie_pushNode(trie,
-				                     node,
+				                     &newNode,
 				                     &(*node_name)[name_index],
 				                     *node_name_length - name_index,
 				                     100);  /* Index doesn't seem to matter here. */
-				if (e) break;
 
 				/* Add node. */
-				e = dl_trie_pushNode(trie,
-				                     node,
-				                     &key[name_index],
-				                     key_length - name_index,
-				                     index);
-				if (e) break;
-				/* Next node. */
-				// node = &node->value.nodes[0];
-				/* Splice to finish split. */
-				node->value.nodes[0] = tempNode;
+				if (!e) {
+					e = dl_trie_pushNode(trie,
+					                     &newNode,
+					                     &key[name_index],
+					                     key_length - name_index,
+					                     index);
+				}
 
 				/* Delete the redundant end of the original node's key. */
-				e = dl_realloc(trie->memoryAllocation,
-				               (void **) node_name,
-				               name_index * sizeof(dl_uint8_t));
-				if (e) break;
+				if (!e) {
+					e = dl_realloc(trie->memoryAllocation,
+					               (void **) node_name,
+					               name_index * sizeof(dl_uint8_t));
+				}
+				if (e) {
+					(void) dl_trie_quit_node(trie, &newNode);
+					break;
+				}
+				/* Splice to finish split. */
+				newNode.value.nodes[0] = *node;
+				*node = newNode;
 				*node_name_length = name_index;
 
 				*success = dl_true;
-- 
2.43.0


From 5c8bcefdbb28394924290701307b5187c59bb03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:54 +0000
Subject: [PATCH 84/85] fix: running out of memory while a name was added left
 dangling entries in its scope or the table of symbols

---
 duckLisp.c   | 55 ++++++++++++++++++++++++++++++++--------------------
 generators.c | 28 ++++++--------------------
 2 files changed, 40 insertions(+), 43 deletions(-)

diff --git a/duckLisp.c b/duckLisp.c
index ac2af69..1fdecfb 100644
--- a/duckLisp.c
+++ b/duckLisp.c
@@ -203,17 +203,25 @@ dl_error_t duckLisp_symbol_create(duckLisp_t *duckLisp, const dl_uint8_t *name,
 	dl_ptrdiff_t key = duckLisp_symbol_nameToValue(duckLisp, name, name_length);
 	if (key == -1) {
 		duckLisp_ast_identifier_t tempIdentifier;
-		e = dl_trie_insert(&duckLisp->symbols_trie,
-		                   name,
-		                   name_length,
-		                   duckLisp->symbols_array.elements_length);
-		if (e) goto l_cleanup;
 		tempIdentifier.value_length = name_length;
 		e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, name_length);
 		if (e) goto l_cleanup;
 		/**/ dl_memcopy_noOverlap(tempIdentifier.value, name, name_length);
 		e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
-		if (e) goto l_cleanup;
+		if (e) {
+			(void) dl_free(duckLisp->memoryAllocation, (void **) &tempIdentifier.value);
+			goto l_cleanup;
+		}
+		e = dl_trie_insert(&duckLisp->symbols_trie,
+		                   name,
+		                   name_length,
+		                   duckLisp->symbols_array.elements_length - 1);
+		if (e) {
+			/* The name isn't known, so the value must not be used either. */
+			--duckLisp->symbols_array.elements_length;
+			(void) dl_free(duckLisp->memoryAllocation, (void **) &tempIdentifier.value);
+			goto l_cleanup;
+		}
 	}
 
  l_cleanup:
@@ -719,6 +727,7 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
                                    dl_uint8_t *name,
                                    const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -726,11 +735,11 @@ dl_error_t duckLisp_register_label(duckLisp_t *duckLisp,
 	if (e) goto l_cleanup;
 
 	e = dl_trie_insert(&scope.labels_trie, name, name_length, subCompileState->label_number);
-	if (e) goto l_cleanup;
-	subCompileState->label_number++;
+	if (!e) subCompileState->label_number++;
 
-	e = scope_setTop(subCompileState, &scope);
-	if (e) goto l_cleanup;
+	/* A failed insertion may have moved the nodes too. */
+	eError = scope_setTop(subCompileState, &scope);
+	if (eError) e = eError;
 
  l_cleanup:
 
@@ -2326,6 +2335,7 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
                                     const dl_uint8_t *name,
                                     const dl_size_t name_length) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2334,10 +2344,10 @@ dl_error_t duckLisp_scope_addObject(duckLisp_t *duckLisp,
 	if (e) goto cleanup;
 
 	e = dl_trie_insert(&scope.locals_trie, name, name_length, duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
 
-	e = scope_setTop(compileState->currentCompileState, &scope);
-	if (e) goto cleanup;
+	/* A failed insertion may have moved the nodes too. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (eError) e = eError;
 
  cleanup:
 
@@ -2368,6 +2378,7 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
                                            duckLisp_compileState_t *compileState,
                                            const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 
@@ -2380,13 +2391,13 @@ dl_error_t duckLisp_addInterpretedFunction(duckLisp_t *duckLisp,
 	                   name.value,
 	                   name.value_length,
 	                   duckLisp_localsLength_get(compileState));
-	if (e) goto cleanup;
-
-	e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
-	if (e) goto cleanup;
+	if (!e) {
+		e = dl_trie_insert(&scope.functions_trie, name.value, name.value_length, duckLisp_functionType_ducklisp);
+	}
 
-	e = scope_setTop(compileState->currentCompileState, &scope);
-	if (e) goto cleanup;
+	/* A failed insertion may have moved the nodes too. */
+	eError = scope_setTop(compileState->currentCompileState, &scope);
+	if (eError) e = eError;
 
  cleanup: return e;
 }
@@ -2396,6 +2407,7 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
                                             duckLisp_compileState_t *compileState,
                                             const duckLisp_ast_identifier_t name) {
 	dl_error_t e = dl_error_ok;
+	dl_error_t eError = dl_error_ok;
 
 	duckLisp_scope_t scope;
 	duckLisp_subCompileState_t *originalSubCompileState = compileState->currentCompileState;
@@ -2410,9 +2422,10 @@ dl_error_t duckLisp_addInterpretedGenerator(duckLisp_t *duckLisp,
 		                   name.value,
 		                   name.value_length,
 		                   duckLisp_functionType_macro);
-		if (e) goto cleanup;
 
-		e = scope_setTop(compileState->currentCompileState, &scope);
+		/* A failed insertion may have moved the nodes too. */
+		eError = scope_setTop(compileState->currentCompileState, &scope);
+		if (eError) e = eError;
 		if (e) goto cleanup;
 	}
 	if (compileState->currentCompileState == &compileState->runtimeCompileState) {
diff --git a/generators.c b/generators.c
index ac6ac44..ebabfef 100644
--- a/generators.c
+++ b/generators.c
@@ -624,7 +624,6 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 	dl_array_t tempString;
 	dl_ptrdiff_t temp_index;
 	/**/ dl_array_init(&tempString, duckLisp->memoryAllocation, sizeof(char), dl_array_strategy_double);
-	duckLisp_ast_identifier_t tempIdentifier;
 
 	/*
 	  Recursively convert to a tree made of lists.
@@ -665,16 +664,9 @@ dl_error_t duckLisp_generator_quote_helper(duckLisp_t *duckLisp,
 		if (temp_index < 0) {
 			/* It's not. Intern it. */
 			temp_index = duckLisp->symbols_array.elements_length;
-			e = dl_trie_insert(&duckLisp->symbols_trie,
-			                   tree->value.identifier.value,
-			                   tree->value.identifier.value_length,
-			                   duckLisp->symbols_array.elements_length);
-			if (e) goto cleanup;
-			tempIdentifier.value_length = tree->value.identifier.value_length;
-			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, tempIdentifier.value_length);
-			if (e) goto cleanup;
-			/**/ dl_memcopy_noOverlap(tempIdentifier.value, tree->value.identifier.value, tempIdentifier.value_length);
-			e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+			e = duckLisp_symbol_create(duckLisp,
+			                           tree->value.identifier.value,
+			                           tree->value.identifier.value_length);
 			if (e) goto cleanup;
 		}
 		/* Push symbol */
@@ -752,7 +744,6 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 	dl_ptrdiff_t temp_index = -1;
 	dl_uint8_t *functionName = expression->compoundExpressions[0].value.identifier.value;
 	dl_size_t functionName_length = expression->compoundExpressions[0].value.identifier.value_length;
-	duckLisp_ast_identifier_t tempIdentifier;
 
 	/*
 	  Recursively convert to a tree made of lists.
@@ -796,16 +787,9 @@ dl_error_t duckLisp_generator_quote(duckLisp_t *duckLisp,
 		if (temp_index < 0) {
 			// It's not. Intern it.
 			temp_index = duckLisp->symbols_array.elements_length;
-			e = dl_trie_insert(&duckLisp->symbols_trie,
-			                   tree->value.identifier.value,
-			                   tree->value.identifier.value_length,
-			                   duckLisp->symbols_array.elements_length);
-			if (e) goto cleanup;
-			tempIdentifier.value_length = tree->value.identifier.value_length;
-			e = dl_malloc(duckLisp->memoryAllocation, (void **) &tempIdentifier.value, tempIdentifier.value_length);
-			if (e) goto cleanup;
-			/**/ dl_memcopy_noOverlap(tempIdentifier.value, tree->value.identifier.value, tempIdentifier.value_length);
-			e = dl_array_pushElement(&duckLisp->symbols_array, (void *) &tempIdentifier);
+			e = duckLisp_symbol_create(duckLisp,
+			                           tree->value.identifier.value,
+			                           tree->value.identifier.value_length);
 			if (e) goto cleanup;
 		}
 		// Push symbol
-- 
2.43.0


From 0187308e7704b78d09d328dece1ab759fa89b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 85/85] fix: a string constant for which there was no memory
 became an invalid object

---
 duckVM.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/duckVM.c b/duckVM.c
index dd9aba2..0c767a9 100644
--- a/duckVM.c
+++ b/duckVM.c
@@ -919,6 +919,7 @@ int duckVM_executeInstruction(duckVM_t *duckVM,
 				 = duckVM_error_pushRuntime(duckVM,
 				                            DL_STR("duckVM_execute->push-string: duckVM_object_makeString failed.")));
 				if (!e) e = eError;
+				break;
 			}
 			e = stack_push(duckVM, &object1);
 			if (e) {
-- 
2.43.0

