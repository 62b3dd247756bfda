From abbaf8978ed8f800879099e3438968cb5b21b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 01/54] fix: logical operators must not truncate their operands

&& and || stored the converted operands in nkbool, so any value whose low
eight bits are zero (256, 65536, ...) counted as false.
---
 src/nkopcode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index 4997d01..e992cda 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -966,8 +966,8 @@ void nkiOpcode_and(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
     nkiVmStackPushInt(vm, in1 && in2);
 }
 
@@ -975,8 +975,8 @@ void nkiOpcode_or(struct NKVM *vm)
 {
     // Do NOT try to inline these function calls in this expression. C
     // shortcutting will ruin your day.
-    nkbool in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
-    nkbool in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in1 = nkiValueToInt(vm, nkiVmStackPop(vm));
+    nkint32_t in2 = nkiValueToInt(vm, nkiVmStackPop(vm));
     nkiVmStackPushInt(vm, in1 || in2);
 }
 
-- 
2.43.0


From 625e23f87147213dabeac182c47cf443a92d55ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 02/54] fix: signed overflow in script integer arithmetic is
 undefined behaviour

Addition, subtraction, multiplication and negation now wrap through unsigned
arithmetic, at run time and in constant folding.
---
 src/nkopcode.c | 14 +++++++-------
 src/nkopt.c    | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index e992cda..fee389d 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -56,8 +56,8 @@ void nkiOpcode_add(struct NKVM *vm)
 
             nkiVmStackPushInt(
                 vm,
-                in1->intData +
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData +
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -164,8 +164,8 @@ void nkiOpcode_subtract(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData -
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData -
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -200,8 +200,8 @@ void nkiOpcode_multiply(struct NKVM *vm)
         case NK_VALUETYPE_INT:
             nkiVmStackPushInt(
                 vm,
-                in1->intData *
-                nkiValueToInt(vm, in2));
+                (nkint32_t)((nkuint32_t)in1->intData *
+                    (nkuint32_t)nkiValueToInt(vm, in2)));
             break;
 
         case NK_VALUETYPE_FLOAT:
@@ -325,7 +325,7 @@ void nkiOpcode_negate(struct NKVM *vm)
         case NK_VALUETYPE_INT: {
             nkiVmStackPushInt(
                 vm,
-                -(in1->intData));
+                (nkint32_t)(-(nkuint32_t)in1->intData));
         } break;
 
         case NK_VALUETYPE_FLOAT: {
diff --git a/src/nkopt.c b/src/nkopt.c
index 8507c0e..e15e744 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -85,28 +85,28 @@ struct NKExpressionAstNode *nkiCompilerMakeImmediateExpressionNode(
     return newNode;
 }
 
-#define NK_APPLY_MATH()                                                 \
+#define NK_APPLY_MATH(opType)                                              \
     do {                                                                \
         switch((*node)->opOrValue->type) {                              \
                                                                         \
             case NK_TOKENTYPE_PLUS:                                     \
                 /* Addition. */                                         \
-                val = c0Val + c1Val;                                    \
+                val = (opType)c0Val + (opType)c1Val;                    \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MINUS:                                    \
                 if(!(*node)->children[1]) {                             \
                     /* Unary negation. */                               \
-                    val = -c0Val;                                       \
+                    val = -(opType)c0Val;                               \
                 } else {                                                \
                     /* Subtraction. */                                  \
-                    val = c0Val - c1Val;                                \
+                    val = (opType)c0Val - (opType)c1Val;                \
                 }                                                       \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_MULTIPLY:                                 \
                 /* Multiplication. */                                   \
-                val = c0Val * c1Val;                                    \
+                val = (opType)c0Val * (opType)c1Val;                    \
                 break;                                                  \
                                                                         \
             case NK_TOKENTYPE_DIVIDE:                                   \
@@ -188,7 +188,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_INTCHARSNEED];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(nkuint32_t);
 
                     // TODO: Use sprintf_s on non-DOS systems.
 
@@ -211,7 +211,7 @@ void nkiCompilerOptimizeConstants(
                     char tmp[NK_PRINTF_FLOATCHARSNEEDED + 1];
 
                     // Do the actual operation.
-                    NK_APPLY_MATH();
+                    NK_APPLY_MATH(float);
 
                     // We aren't using sprintf_s here for DOS
                     // compatibility.
-- 
2.43.0


From 35b39eaafd4721cdad7add2f8885d4c4f35399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 03/54] fix: constant folding changed the value of float and
 mixed expressions

The folded value went through "%f", which loses everything below 1e-6, and
mixed operands were converted from their text instead of their value
(5 + 0.99999999 gave 5 folded and 6 unfolded, 1.0 + 4294967297 the reverse).
---
 src/nkopt.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/nkopt.c b/src/nkopt.c
index e15e744..267fc37 100644
--- a/src/nkopt.c
+++ b/src/nkopt.c
@@ -65,6 +65,24 @@ nkbool nkiCompilerIsImmediateValue(struct NKExpressionAstNode *node)
     return nkfalse;
 }
 
+// These must give exactly the value the literal has when it is emitted
+// as an instruction, converted the way the instructions convert it.
+static nkint32_t nkiCompilerImmediateToInt(struct NKExpressionAstNode *node)
+{
+    if(node->opOrValue->type == NK_TOKENTYPE_FLOAT) {
+        return (nkint32_t)(float)atof(node->opOrValue->str);
+    }
+    return (nkint32_t)atol(node->opOrValue->str);
+}
+
+static float nkiCompilerImmediateToFloat(struct NKExpressionAstNode *node)
+{
+    if(node->opOrValue->type == NK_TOKENTYPE_FLOAT) {
+        return (float)atof(node->opOrValue->str);
+    }
+    return (float)(nkint32_t)atol(node->opOrValue->str);
+}
+
 struct NKExpressionAstNode *nkiCompilerMakeImmediateExpressionNode(
     struct NKVM *vm,
     enum NKTokenType type,
@@ -179,8 +197,8 @@ void nkiCompilerOptimizeConstants(
                 case NK_TOKENTYPE_INTEGER: {
 
                     // Fetch original values.
-                    nkint32_t c0Val = (*node)->children[0] ? atol((*node)->children[0]->opOrValue->str) : 0;
-                    nkint32_t c1Val = (*node)->children[1] ? atol((*node)->children[1]->opOrValue->str) : 0;
+                    nkint32_t c0Val = (*node)->children[0] ? nkiCompilerImmediateToInt((*node)->children[0]) : 0;
+                    nkint32_t c1Val = (*node)->children[1] ? nkiCompilerImmediateToInt((*node)->children[1]) : 0;
                     nkint32_t val = 0;
 
                     // Using the same size we use for the floating
@@ -205,8 +223,8 @@ void nkiCompilerOptimizeConstants(
                 case NK_TOKENTYPE_FLOAT: {
 
                     // Fetch original values.
-                    float c0Val = (*node)->children[0] ? atof((*node)->children[0]->opOrValue->str) : 0;
-                    float c1Val = (*node)->children[1] ? atof((*node)->children[1]->opOrValue->str) : 0;
+                    float c0Val = (*node)->children[0] ? nkiCompilerImmediateToFloat((*node)->children[0]) : 0;
+                    float c1Val = (*node)->children[1] ? nkiCompilerImmediateToFloat((*node)->children[1]) : 0;
                     float val = 0;
                     char tmp[NK_PRINTF_FLOATCHARSNEEDED + 1];
 
@@ -220,7 +238,9 @@ void nkiCompilerOptimizeConstants(
                     // non-DOS systems.
 
                     // Set the string for the result.
-                    sprintf(tmp, "%f", val);
+                    // (Nine significant digits are enough to
+                    // read the same value back.)
+                    sprintf(tmp, "%.9g", val);
                     newNode->opOrValue->str = nkiStrdup(vm, tmp);
 
                     // Replace the original node.
-- 
2.43.0


From d06b35d78eadb9ebd761c25a4f908a320e3de15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 04/54] fix: functions declared inside other functions could
 not refer to themselves

The documentation promises that a function's name exists in the scope of the
function itself, but only global functions could recurse by name.
---
 src/nkcompil.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 78d3843..ede5988 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -707,6 +707,7 @@ nkbool nkiCompilerCompileFunctionDefinition(
     struct NKCompilerStateContext *savedContext;
     struct NKCompilerStateContext *searchContext;
     struct NKCompilerStateContextVariable *varTmp;
+    nkuint32_t functionIdPosition;
     nkuint32_t functionArgumentCount = 0;
 
     NKVMInternalFunctionID functionId;
@@ -786,6 +787,7 @@ nkbool nkiCompilerCompileFunctionDefinition(
 
     // Add the function id itself as a variable inside the function
     // (because it's on the stack anyway).
+    functionIdPosition = cs->context->stackFrameOffset - 1;
     varTmp = nkiCompilerAddVariable(cs, "_functionId", nktrue, nktrue);
     // Thanks AFL!
     if(varTmp) {
@@ -833,6 +835,25 @@ nkbool nkiCompilerCompileFunctionDefinition(
         }
     }
 
+    // The function's own name is visible inside of it. Functions at
+    // global scope can just use the global variable, but the others
+    // can't see the scope they're declared in, so give the function
+    // id a second name there. (Unless an argument hides it.)
+    if(functionName && savedContext->parent) {
+        for(varTmp = cs->context->variables; varTmp; varTmp = varTmp->next) {
+            if(!nkiStrcmp(varTmp->name, functionName)) {
+                break;
+            }
+        }
+        if(!varTmp) {
+            varTmp = nkiCompilerAddVariable(cs, functionName, nktrue, nktrue);
+            if(varTmp) {
+                varTmp->doNotPopWhenOutOfScope = nktrue;
+                varTmp->position = functionIdPosition;
+            }
+        }
+    }
+
     // Store the functionArgumentCount on the function object.
     functionObject->argumentCount = functionArgumentCount;
 
-- 
2.43.0


From 2b81acd79ec627b8262ef8d92ea42b0cb3405892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 05/54] fix: shrinking corrupted suspended stacks and object
 keys

Moving table entries only rewrote references on the current stack, so the
stacks of suspended (or resuming) contexts kept stale ids, and objects used as
keys stayed in the hash bucket of their old id.
---
 src/nkshrink.c | 80 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/nkshrink.c b/src/nkshrink.c
index 53d6e84..01378b9 100644
--- a/src/nkshrink.c
+++ b/src/nkshrink.c
@@ -43,6 +43,44 @@
 
 #include "nkcommon.h"
 
+// Rewrite references to a moved table entry on one stack.
+static void nkiVmShrinkRewriteStack(
+    struct NKVMStack *stack, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
+    for(i = 0; i < stack->size; i++) {
+        if(stack->values[i].type == type &&
+            stack->values[i].basicHashValue == oldSlot)
+        {
+            stack->values[i].basicHashValue = newSlot;
+        }
+    }
+}
+
+// Rewrite references to a moved table entry on the root stack and the
+// stacks of all coroutines, whether they're running or suspended.
+static void nkiVmShrinkRewriteAllStacks(
+    struct NKVM *vm, enum NKValueType type,
+    nkuint32_t oldSlot, nkuint32_t newSlot)
+{
+    nkuint32_t i;
+
+    nkiVmShrinkRewriteStack(
+        &vm->rootExecutionContext.stack, type, oldSlot, newSlot);
+
+    for(i = 0; i < vm->objectTable.capacity; i++) {
+        struct NKVMObject *ob = vm->objectTable.objectTable[i];
+        if(ob && ob->externalData &&
+            ob->externalDataType.id == vm->internalObjectTypes.coroutine.id)
+        {
+            nkiVmShrinkRewriteStack(
+                &((struct NKVMExecutionContext *)ob->externalData)->stack,
+                type, oldSlot, newSlot);
+        }
+    }
+}
+
 void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
 {
     assert(vm->objectTable.capacity > newSlot);
@@ -58,13 +96,8 @@ void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
         nkuint32_t i;
 
         // Rewrite all stack references.
-        for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-            if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_OBJECTID) {
-                if(vm->currentExecutionContext->stack.values[i].objectId == oldSlot) {
-                    vm->currentExecutionContext->stack.values[i].objectId = newSlot;
-                }
-            }
-        }
+        nkiVmShrinkRewriteAllStacks(
+            vm, NK_VALUETYPE_OBJECTID, oldSlot, newSlot);
 
         // Rewrite all static references.
         for(i = 0; i <= vm->staticAddressMask; i++) {
@@ -81,14 +114,26 @@ void nkiVmMoveObject(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
             if(ob) {
                 nkuint32_t k;
                 for(k = 0; k < nkiVMObjectHashBucketCount; k++) {
-                    struct NKVMObjectElement *el;
-                    for(el = ob->hashBuckets[k]; el; el = el->next) {
-                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
-                            el->key.objectId = newSlot;
-                        }
+                    struct NKVMObjectElement **elPtr = &ob->hashBuckets[k];
+                    while(*elPtr) {
+                        struct NKVMObjectElement *el = *elPtr;
                         if(el->value.type == NK_VALUETYPE_OBJECTID && el->value.objectId == oldSlot) {
                             el->value.objectId = newSlot;
                         }
+                        if(el->key.type == NK_VALUETYPE_OBJECTID && el->key.objectId == oldSlot) {
+                            // The hash changes along with the ID, so
+                            // this belongs in another bucket now.
+                            struct NKVMObjectElement **newBucket;
+                            *elPtr = el->next;
+                            el->key.objectId = newSlot;
+                            newBucket = &ob->hashBuckets[
+                                nkiValueHash(vm, &el->key) &
+                                (nkiVMObjectHashBucketCount - 1)];
+                            el->next = *newBucket;
+                            *newBucket = el;
+                        } else {
+                            elPtr = &el->next;
+                        }
                     }
                 }
             }
@@ -111,13 +156,8 @@ void nkiVmMoveString(struct NKVM *vm, nkuint32_t oldSlot, nkuint32_t newSlot)
     vm->stringTable.stringTable[oldSlot] = NULL;
 
     // Rewrite all stack references.
-    for(i = 0; i < vm->currentExecutionContext->stack.size; i++) {
-        if(vm->currentExecutionContext->stack.values[i].type == NK_VALUETYPE_STRING) {
-            if(vm->currentExecutionContext->stack.values[i].stringTableEntry == oldSlot) {
-                vm->currentExecutionContext->stack.values[i].stringTableEntry = newSlot;
-            }
-        }
-    }
+    nkiVmShrinkRewriteAllStacks(
+        vm, NK_VALUETYPE_STRING, oldSlot, newSlot);
 
     // Rewrite all static references.
     for(i = 0; i <= vm->staticAddressMask; i++) {
@@ -264,7 +304,7 @@ void nkiVmShrink(struct NKVM *vm)
     // their stacks too.
     for(i = 0; i < vm->objectTable.capacity; i++) {
         struct NKVMObject *ob = vm->objectTable.objectTable[i];
-        if(ob && ob->externalDataType.id ==
+        if(ob && ob->externalData && ob->externalDataType.id ==
             vm->internalObjectTypes.coroutine.id)
         {
             struct NKVMExecutionContext *context =
-- 
2.43.0


From dc7d727b71a420c7b8ebf81ca1435a284972da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 06/54] fix: is_finished() inside a function corrupted the
 function's stack frame

The instruction pops its argument and pushes its result, so it leaves the
stack size unchanged, but the compiler counted one extra slot. Any local
declared after it read the wrong slot, and return popped too much.
---
 src/nkvm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index e6cd7ee..896978e 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -127,7 +127,7 @@ static void nkiVmInitOpcodeTable(void)
     NK_SETUP_OP(NK_OP_COROUTINE_CREATE,       nkiOpcode_coroutineCreate,        1);
     NK_SETUP_OP(NK_OP_COROUTINE_YIELD,        nkiOpcode_coroutineYield,         0);
     NK_SETUP_OP(NK_OP_COROUTINE_RESUME,       nkiOpcode_coroutineResume,        -1);
-    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    1);
+    NK_SETUP_OP(NK_OP_COROUTINE_ISFINISHED,   nkiOpcode_coroutineIsFinished,    0);
 
     NK_SETUP_OP(NK_OP_PUSHNIL,                nkiOpcode_pushNil,                1);
 
-- 
2.43.0


From 175076e54b207c8a91dbde5d32275dd6353d8953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 07/54] fix: allocator replacement callbacks never received the
 host's context pointer

---
 src/nkx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index d50e0e1..3c9dd4c 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -78,6 +78,8 @@ struct NKVM *nkxVmCreateEx(
     nkiMemset(vm, 0, sizeof(*vm));
     vm->mallocReplacement = params->mallocReplacement;
     vm->freeReplacement = params->freeReplacement;
+    vm->mallocAndFreeReplacementUserData =
+        params->mallocAndFreeReplacementUserData;
 
     NK_SET_FAILURE_RECOVERY(vm);
 
-- 
2.43.0


From ede6df773660603cdcfa2a34e11cf598436e1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 08/54] fix: deleting a VM after an allocation failure bypassed
 the host's free function

---
 src/nkvm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index 896978e..4d031eb 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -290,7 +290,9 @@ void nkiVmDestroy(struct NKVM *vm)
 #if NK_EXTRA_FANCY_LEAK_TRACKING_LINUX
             free(vm->allocations->stackTrace);
 #endif
-            free(vm->allocations);
+            vm->freeReplacement(
+                vm->allocations,
+                vm->mallocAndFreeReplacementUserData);
             vm->allocations = next;
         }
 
-- 
2.43.0


From cd2a1d0922c7abb658233766f3f8c9c4f7d3a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 09/54] fix: deleting a VM could fail to allocate memory and
 then leak or abort

The forced garbage collection in nkiVmDestroy needs memory. When it
failed, the rest of the cleanup was skipped: everything leaked, and the
assertion on outstanding allocations fired. Every object is cleaned up
right afterwards anyway, so no collection is needed.
---
 src/nkvm.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index 4d031eb..8491861 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -308,10 +308,11 @@ void nkiVmDestroy(struct NKVM *vm)
 
         NK_SET_FAILURE_RECOVERY_VOID();
 
-        // Nuke the entire static address space and stack, then force
-        // a final garbage collection pass before we start making the
-        // VM unusable, so that GC callbacks get hit for external data
-        // and that stuff can clean up in a conventional manner.
+        // Nuke the entire static address space and stack before we
+        // start making the VM unusable. Note that this does not run a
+        // final garbage collection pass, because collecting needs
+        // memory that we might not get. Cleaning all the objects
+        // below hits the callbacks for external data anyway.
         nkiVmStackClear(
             vm, &vm->rootExecutionContext.stack,
             nkfalse);
@@ -319,7 +320,7 @@ void nkiVmDestroy(struct NKVM *vm)
             vm->staticSpace, 0,
             (vm->staticAddressMask + 1) * sizeof(struct NKValue));
 
-        nkiVmGarbageCollect(vm);
+        vm->currentExecutionContext = &vm->rootExecutionContext;
 
         nkiVmObjectTableCleanAllObjects(vm);
 
-- 
2.43.0


From fe6fb0be5a0f808fb1181f804f86175817181606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:09 +0000
Subject: [PATCH 10/54] fix: restoring a save lost which internal functions
 belong to native functions

Every name search cleared the entries in front of the match, including
the ones restored before, so native functions no longer compared equal
to themselves after loading.
---
 src/nksave.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 4fa3d9c..a7f9205 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -797,6 +797,14 @@ nkbool nkiSerializeFunctionTable_inner(
 {
     nkuint32_t i;
 
+    // Clear out the internal function values, in case we don't
+    // actually find something for some of them.
+    if(!writeMode) {
+        for(i = 0; i < vm->externalFunctionCount; i++) {
+            vm->externalFunctionTable[i].internalFunctionId.id = NK_INVALID_VALUE;
+        }
+    }
+
     for(i = 0; i < tmpExternalFunctionCount; i++) {
 
         struct NKVMExternalFunction tmpExternalFunc = {0};
@@ -819,11 +827,6 @@ nkbool nkiSerializeFunctionTable_inner(
 
             for(n = 0; n < vm->externalFunctionCount; n++) {
 
-                // Clear out the internal function value,
-                // in case we don't actually find
-                // something.
-                vm->externalFunctionTable[n].internalFunctionId.id = NK_INVALID_VALUE;
-
                 if(!nkiStrcmp(tmpExternalFunc.name, vm->externalFunctionTable[n].name)) {
                     functionIdMapping[i].id = n;
                     vm->externalFunctionTable[n].internalFunctionId =
-- 
2.43.0


From 949a0303fa87674dd3dc0f6b0b0151c32331eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:56 +0000
Subject: [PATCH 11/54] fix: resuming or querying a coroutine object without a
 context crashed

---
 src/nkopcode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index fee389d..6dbe7ac 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1285,7 +1285,7 @@ void nkiOpcode_coroutineResume(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
-        if(context->coroutineState == NK_COROUTINE_INVALID) {
+        if(!context || context->coroutineState == NK_COROUTINE_INVALID) {
             nkiAddError(vm, "Tried to resume an invalid coroutine.");
             return;
         }
@@ -1350,6 +1350,11 @@ void nkiOpcode_coroutineIsFinished(struct NKVM *vm)
             (struct NKVMExecutionContext *)nkxVmObjectGetExternalData(
                 vm, &coroutine);
 
+        if(!context) {
+            nkiAddError(vm, "Tried to check for a finished coroutine on an invalid coroutine.");
+            return;
+        }
+
         returnValue.type = NK_VALUETYPE_INT;
         returnValue.intData = 0;
 
-- 
2.43.0


From e53a58a0c0d885448f44673fd3b26324e80339f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:56 +0000
Subject: [PATCH 12/54] fix: loaded collection counters could switch off the
 instruction limit, and saving changed the interval

---
 src/nksave.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index a7f9205..00f6918 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -774,13 +774,26 @@ nkbool nkiSerializeGcState(
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.lastGCPass);
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcInterval);
 
-    // gcInterval needs a hard limit here because the instruction
-    // count limit is only enforced on garbage collection intervals.
-    if(vm->gcInfo.gcInterval > 65536) {
-        vm->gcInfo.gcInterval = 65536;
+    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcCountdown);
+
+    // gcInterval and gcCountdown need hard limits here because the
+    // instruction count limit is only enforced on garbage collection
+    // intervals. (Only for data we loaded. Saving must not change
+    // anything.)
+    if(!writeMode) {
+        if(vm->gcInfo.gcInterval > 65536) {
+            vm->gcInfo.gcInterval = 65536;
+        }
+        if(!vm->gcInfo.gcInterval) {
+            vm->gcInfo.gcInterval = 1;
+        }
+        if(!vm->gcInfo.gcCountdown ||
+            vm->gcInfo.gcCountdown > vm->gcInfo.gcInterval)
+        {
+            vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
+        }
     }
 
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcCountdown);
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectInterval);
     NKI_SERIALIZE_BASIC(nkuint32_t, vm->gcInfo.gcNewObjectCountdown);
 
-- 
2.43.0


From 6be2c2d523d8b7dfa97ced23cdafa9a91230262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:56 +0000
Subject: [PATCH 13/54] fix: a failed load left tables that did not match their
 sizes

---
 src/nksave.c | 107 +++++++++++++++++++++++++++++----------------------
 src/nkvm.c   |   1 +
 src/nkx.c    |   7 ++++
 3 files changed, 69 insertions(+), 46 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index 00f6918..bd4eb82 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -293,7 +293,7 @@ nkbool nkiSerializeObjectTable(
 
     // Ensure capacity is a power of two.
     NKI_SERIALIZE_BASIC(nkuint32_t, capacity);
-    if(!nkiIsPow2(capacity)) {
+    if(!capacity || !nkiIsPow2(capacity)) {
         nkiAddError(vm, "Object table capacity is not a power of two.");
         return nkfalse;
     }
@@ -310,17 +310,18 @@ nkbool nkiSerializeObjectTable(
 
     } else {
 
-        // Reallocate the object table if we're reading.
-        nkiFree(vm, vm->objectTable.objectTable);
-        vm->objectTable.objectTable = NULL;
-
-        vm->objectTable.objectTable =
+        // Reallocate the object table if we're reading. Don't touch
+        // the existing table until we know we have a replacement that
+        // matches the capacity.
+        struct NKVMObject **newTable =
             (struct NKVMObject **)nkiMallocArray(
                 vm, sizeof(struct NKVMObject *), capacity);
         nkiMemset(
-            vm->objectTable.objectTable, 0,
+            newTable, 0,
             sizeof(struct NKVMObject *) * capacity);
 
+        nkiFree(vm, vm->objectTable.objectTable);
+        vm->objectTable.objectTable = newTable;
         vm->objectTable.capacity = capacity;
 
         // Free the holes.
@@ -426,24 +427,29 @@ nkbool nkiSerializeStringTable(
 
     NKI_SERIALIZE_BASIC(nkuint32_t, capacity);
 
+    // Thanks AFL! (Check this before we throw away the table we have.)
+    if(!capacity || !nkiIsPow2(capacity)) {
+        nkiAddError(vm, "String table capacity is not a power of two.");
+        return nkfalse;
+    }
+
     // Destroy and recreate the string table with the specified
     // capacity, if we're in READ mode.
     if(!writeMode) {
-        nkiVmStringTableDestroy(vm);
-        vm->stringTable.capacity = capacity;
-
         // Thanks AFL! String table size can cause a 32-bit integer
         // overflow after being multiplied by the size of the string
         // pointer. (FIXME: We might not need this after the addition
         // of nkiMallocArray.)
-        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= vm->stringTable.capacity) {
+        if(~(nkuint32_t)0 / sizeof(struct NKVMString*) <= capacity) {
             nkiAddError(vm, "String table too large.");
             return nkfalse;
         }
 
+        nkiVmStringTableDestroy(vm);
         vm->stringTable.stringTable =
             (struct NKVMString **)nkiMallocArray(
-                vm, sizeof(struct NKVMString*), vm->stringTable.capacity);
+                vm, sizeof(struct NKVMString*), capacity);
+        vm->stringTable.capacity = capacity;
 
         // Note: Memset takes a size_t here, which on 64-bit bit can
         // take higher values than our nkuint32_t type passed into
@@ -454,12 +460,6 @@ nkbool nkiSerializeStringTable(
             vm->stringTable.capacity * sizeof(struct NKVMString*));
     }
 
-    // Thanks AFL!
-    if(!nkiIsPow2(vm->stringTable.capacity)) {
-        nkiAddError(vm, "String table capacity is not a power of two.");
-        return nkfalse;
-    }
-
     {
         nkuint32_t actualCount = 0;
 
@@ -596,7 +596,8 @@ nkbool nkiSerializeStringTable(
 nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer, void *userdata, nkbool writeMode)
 {
     // Find the actual end of the instruction buffer.
-    nkuint32_t instructionLimitSearch = vm->instructionAddressMask;
+    nkuint32_t instructionAddressMask = vm->instructionAddressMask;
+    nkuint32_t instructionLimitSearch = instructionAddressMask;
     if(writeMode) {
         while(instructionLimitSearch && vm->instructions[instructionLimitSearch].opcode == NK_OP_NOP) {
             instructionLimitSearch--;
@@ -611,38 +612,44 @@ nkbool nkiSerializeInstructions(struct NKVM *vm, NKVMSerializationWriter writer,
     // something like a literal value instead of a real opcode, and if
     // we cut off the address mask before it, that would read the
     // wrong value.
-    NKI_SERIALIZE_BASIC(nkuint32_t, vm->instructionAddressMask);
+    NKI_SERIALIZE_BASIC(nkuint32_t, instructionAddressMask);
 
     // Thanks AFL! Instruction address mask of 2^32-1 means that the
     // actual allocation is 2^32, which overflows to zero, and we're
     // left in a situation where we think we have a giant instruction
     // buffer when we really have a NULL pointer.
-    if(vm->instructionAddressMask == ~(nkuint32_t)0) {
+    if(instructionAddressMask == ~(nkuint32_t)0) {
         nkiAddError(vm, "Instruction address mask is too large.");
         return nkfalse;
     }
 
-    if(!nkiIsPow2(vm->instructionAddressMask + 1)) {
+    if(!nkiIsPow2(instructionAddressMask + 1)) {
         nkiAddError(vm, "Instruction address mask is not a power of two minus one.");
         return nkfalse;
     }
 
-    if(instructionLimitSearch > vm->instructionAddressMask) {
+    if(instructionLimitSearch > instructionAddressMask) {
         nkiAddError(vm, "Too many instructions for given instruction address mask.");
         return nkfalse;
     }
 
     // Recreate the entire instruction space if we're reading.
     if(!writeMode) {
-        nkiFree(vm, vm->instructions);
 
         // Thanks AFL!
-        vm->instructions = (struct NKInstruction *)nkiMallocArray(
-            vm,
-            sizeof(struct NKInstruction),
-            vm->instructionAddressMask + 1);
+        struct NKInstruction *newInstructions =
+            (struct NKInstruction *)nkiMallocArray(
+                vm,
+                sizeof(struct NKInstruction),
+                instructionAddressMask + 1);
 
-        nkiMemset(vm->instructions, 0, sizeof(struct NKInstruction) * (vm->instructionAddressMask + 1));
+        nkiMemset(newInstructions, 0, sizeof(struct NKInstruction) * (instructionAddressMask + 1));
+
+        // Don't touch the existing buffer or mask until we know we
+        // have a replacement that matches.
+        nkiFree(vm, vm->instructions);
+        vm->instructions = newInstructions;
+        vm->instructionAddressMask = instructionAddressMask;
     }
 
     // Load/save the actual instructions themselves.
@@ -673,15 +680,20 @@ nkbool nkiSerializeStatics(struct NKVM *vm, NKVMSerializationWriter writer, void
         return nkfalse;
     }
 
-    vm->staticAddressMask = staticAddressMask;
-
     // Make new static space for read mode.
     if(!writeMode) {
+        struct NKValue *newStaticSpace =
+            (struct NKValue *)nkiMallocArray(
+                vm, sizeof(struct NKValue), staticAddressMask + 1);
+        nkiMemset(
+            newStaticSpace, 0,
+            sizeof(struct NKValue) * (staticAddressMask + 1));
+
+        // Don't touch the existing space or mask until we know we
+        // have a replacement that matches.
         nkiFree(vm, vm->staticSpace);
-        // Set to NULL first in case nkiMallocArray throws an error.
-        vm->staticSpace = NULL;
-        vm->staticSpace = (struct NKValue *)nkiMallocArray(
-            vm, sizeof(struct NKValue), vm->staticAddressMask + 1);
+        vm->staticSpace = newStaticSpace;
+        vm->staticAddressMask = staticAddressMask;
     }
 
     // Read/write the static space.
@@ -722,6 +734,12 @@ nkbool nkiSerializeStack(
         return nkfalse;
     }
 
+    // Thanks AFL! (Check this before we touch the stack we have.)
+    if(stackCapacity < stackSize) {
+        nkiAddError(vm, "Stack size exceeds stack capacity.");
+        return nkfalse;
+    }
+
     stack->indexMask = stack->capacity - 1;
 
     // Make new stack space for read mode.
@@ -750,11 +768,6 @@ nkbool nkiSerializeStack(
             sizeof(struct NKValue) * (stack->capacity));
     }
 
-    // Thanks AFL!
-    if(stack->capacity < stack->size) {
-        return nkfalse;
-    }
-
     NKI_SERIALIZE_DATA(
         stack->values,
         sizeof(struct NKValue) * (stack->size));
@@ -959,6 +972,7 @@ nkbool nkiSerializeGlobalsList(
         }
         nkiFree(vm, vm->globalVariables);
         vm->globalVariables = NULL;
+        vm->globalVariableCount = 0;
     }
 
     NKI_SERIALIZE_BASIC(nkuint32_t, globalVariableCount);
@@ -974,13 +988,13 @@ nkbool nkiSerializeGlobalsList(
         // was one.
         nkiMemset(vm->globalVariables, 0,
             sizeof(vm->globalVariables[0]) * globalVariableCount);
-
-        vm->globalVariableCount = globalVariableCount;
     }
 
-    // Load/save each global name and index.
-    for(i = 0; i < vm->globalVariableCount; i++) {
+    // Load/save each global name and index. When loading, only count
+    // the entries that have a name.
+    for(i = 0; i < globalVariableCount; i++) {
         NKI_SERIALIZE_STRING(vm->globalVariables[i].name);
+        vm->globalVariableCount = writeMode ? globalVariableCount : i + 1;
         NKI_SERIALIZE_BASIC(nkuint32_t, vm->globalVariables[i].staticPosition);
     }
 
@@ -1278,12 +1292,13 @@ nkbool nkiSerializeSourceFileList(
         }
 
         vm->sourceFileList = sourceFileList;
-        vm->sourceFileCount = sourceFileCount;
     }
 
-    // Fill the list or write it out.
+    // Fill the list or write it out. When loading, only count the
+    // entries that have a name.
     for(i = 0; i < sourceFileCount; i++) {
         NKI_SERIALIZE_STRING(sourceFileList[i]);
+        vm->sourceFileCount = writeMode ? sourceFileCount : i + 1;
     }
 
     return nktrue;
diff --git a/src/nkvm.c b/src/nkvm.c
index 8491861..b1b7117 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -614,6 +614,7 @@ void nkiVmClearSourceFileList(struct NKVM *vm)
         }
         nkiFree(vm, vm->sourceFileList);
         vm->sourceFileList = NULL;
+        vm->sourceFileCount = 0;
     }
 }
 
diff --git a/src/nkx.c b/src/nkx.c
index 3c9dd4c..37400ec 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -626,6 +626,13 @@ nkbool nkxVmSerialize(struct NKVM *vm, NKVMSerializationWriter writer, void *use
     nkbool ret = nkfalse;
     NK_SET_FAILURE_RECOVERY(ret);
     ret = nkiVmSerialize(vm, writer, userdata, writeMode);
+
+    // A VM that we only managed to load a part of is not in any state
+    // to run, so make sure it has an error.
+    if(!ret && !writeMode && !nkiVmHasErrors(vm)) {
+        nkiAddError(vm, "Failed to load VM state.");
+    }
+
     NK_CLEAR_FAILURE_RECOVERY();
     return ret;
 }
-- 
2.43.0


From 198a928a4b1091bb16b43f22e55ef09ae0e9a9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:56 +0000
Subject: [PATCH 14/54] fix: a VM with errors could still execute instructions

---
 src/nkvm.c |  5 +++++
 src/nkx.c  | 10 +++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index b1b7117..7924a92 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -428,6 +428,11 @@ void nkiVmIterate(struct NKVM *vm)
 
 nkbool nkiVmExecuteProgram(struct NKVM *vm)
 {
+    // Don't run anything more if something already went wrong.
+    if(nkiVmHasErrors(vm)) {
+        return nkfalse;
+    }
+
     while(vm->instructions[
             vm->currentExecutionContext->instructionPointer &
             vm->instructionAddressMask].opcode != NK_OP_END)
diff --git a/src/nkx.c b/src/nkx.c
index 37400ec..714a8a9 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -141,6 +141,11 @@ void nkxVmIterate(struct NKVM *vm, nkuint32_t count)
     NK_SET_FAILURE_RECOVERY_VOID();
     for(i = 0; i < count; i++) {
 
+        // Check for errors.
+        if(nkxVmHasErrors(vm)) {
+            break;
+        }
+
         // Check for end-of-program.
         if(vm->instructions[
                 vm->currentExecutionContext->instructionPointer &
@@ -150,11 +155,6 @@ void nkxVmIterate(struct NKVM *vm, nkuint32_t count)
             break;
         }
 
-        // Check for errors.
-        if(nkxVmHasErrors(vm)) {
-            break;
-        }
-
         nkiVmIterate(vm);
 
     }
-- 
2.43.0


From f79165a14d95a0a58fd0f59776b453239e07b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:51 +0000
Subject: [PATCH 15/54] fix: setting up an external function again leaked its
 argument types

---
 src/nkx.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index 714a8a9..17d7220 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -440,22 +440,28 @@ static void nkiSetupExternalFunction_addArgs(
     nkuint32_t argumentCount)
 {
     NK_FAILURE_RECOVERY_DECL();
+    enum NKValueType *argTypes = NULL;
+    NKVMExternalDataTypeID *argExternalTypes = NULL;
     NK_SET_FAILURE_RECOVERY_VOID();
 
-    if(func->argTypes) {
-        nkiFree(vm, func->argTypes);
-    }
-
-    func->argTypes = (enum NKValueType *)nkiMallocArray(
+    // Get the new arrays before we replace whatever was set up for
+    // this function before.
+    argTypes = (enum NKValueType *)nkiMallocArray(
         vm,
         sizeof(*func->argTypes),
         argumentCount);
 
-    func->argExternalTypes = (NKVMExternalDataTypeID *)nkiMallocArray(
+    argExternalTypes = (NKVMExternalDataTypeID *)nkiMallocArray(
         vm,
         sizeof(*func->argExternalTypes),
         argumentCount);
 
+    nkiFree(vm, func->argTypes);
+    nkiFree(vm, func->argExternalTypes);
+    func->argTypes = argTypes;
+    func->argExternalTypes = argExternalTypes;
+    func->argumentCount = argumentCount;
+
     // Clear out the value types to wildcards that just accept
     // anything.
     {
@@ -488,15 +494,18 @@ NKVMExternalFunctionID nkxVmSetupExternalFunction(
     }
 
     funcOb = &vm->externalFunctionTable[id.id];
-    funcOb->argumentCount = argumentCount;
 
-    if(argumentCount != NK_INVALID_VALUE) {
+    if(argumentCount == NK_INVALID_VALUE) {
+
+        funcOb->argumentCount = argumentCount;
+
+    } else {
 
         nkiSetupExternalFunction_addArgs(vm,
             funcOb,
             argumentCount);
 
-        if(funcOb->argTypes && funcOb->argExternalTypes) {
+        if(!nkxVmHasAllocationFailure(vm)) {
 
             nkuint32_t i;
 
-- 
2.43.0


From e3510dd1d11d9f138be2b57346536319324bc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:57 +0000
Subject: [PATCH 16/54] fix: two API calls reported errors without being able
 to survive an allocation failure

---
 src/nkx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index 17d7220..758a5f4 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -419,7 +419,12 @@ void nkxVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
 
 nkuint32_t nkxVmObjectGetExternalHandleCount(struct NKVM *vm, struct NKValue *value)
 {
-    return nkiVmObjectGetExternalHandleCount(vm, value);
+    nkuint32_t ret = 0;
+    NK_FAILURE_RECOVERY_DECL();
+    NK_SET_FAILURE_RECOVERY(0);
+    ret = nkiVmObjectGetExternalHandleCount(vm, value);
+    NK_CLEAR_FAILURE_RECOVERY();
+    return ret;
 }
 
 void nkxSetUserData(struct NKVM *vm, void *userData)
@@ -993,7 +998,7 @@ nkbool nkxSerializerGetWriteMode(struct NKVM *vm)
 nkbool nkxSerializeData(struct NKVM *vm, void *data, nkuint32_t size)
 {
     if(!vm->serializationState.writer) {
-        nkiAddError(vm, "Attempted to access serialization writer outside of serialization.");
+        nkxAddError(vm, "Attempted to access serialization writer outside of serialization.");
         return nkfalse;
     }
 
-- 
2.43.0


From e30b42d5166a89d9d78912efd1f48601ef1de41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:30 +0000
Subject: [PATCH 17/54] fix: asking a VM whose creation failed whether its
 program ended crashed

---
 src/nkx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 758a5f4..d9218fa 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -1135,6 +1135,11 @@ void nkxValueSetFunction(struct NKVM *vm, struct NKValue *value, NKVMInternalFun
 
 nkbool nkxVmProgramHasEnded(struct NKVM *vm)
 {
+    // VM creation may have failed before there was anything to run.
+    if(!vm->instructions || !vm->currentExecutionContext) {
+        return nktrue;
+    }
+
     return vm->instructions[
         vm->currentExecutionContext->instructionPointer &
         vm->instructionAddressMask].opcode == NK_OP_END;
-- 
2.43.0


From 6016904d59c5235472951c6032d8cbd4bafa362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 18/54] fix: an allocation failure while building the globals
 list left unusable entries

---
 src/nkcompil.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index ede5988..6400ea9 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1113,21 +1113,23 @@ void nkiCompilerGenerateGlobalVariables(
         }
         nkiFree(cs->vm, cs->vm->globalVariables);
         cs->vm->globalVariables = NULL;
+        cs->vm->globalVariableCount = 0;
     }
 
     // Allocate that.
     cs->vm->globalVariables =
         (struct NKGlobalVariableRecord *)nkiMallocArray(
             cs->vm, sizeof(struct NKGlobalVariableRecord), count);
-    cs->vm->globalVariableCount = count;
 
-    // Now run through it all again and actually assign data.
+    // Now run through it all again and actually assign data. Only
+    // count complete entries, in case an allocation fails halfway.
     var = cs->context->variables;
     count = 0;
     while(var) {
         cs->vm->globalVariables[count].staticPosition = var->position;
         cs->vm->globalVariables[count].name = nkiStrdup(cs->vm, var->name);
         count++;
+        cs->vm->globalVariableCount = count;
         var = var->next;
     }
 }
-- 
2.43.0


From 286bf021209f27f8a4fbe3b915ba2708484b544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:07 +0000
Subject: [PATCH 19/54] fix: an allocation failure while registering a type
 left a type without a name

---
 src/nkvm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index 7924a92..fc8c99f 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -483,19 +483,19 @@ NKVMExternalDataTypeID nkiVmRegisterExternalType(
 
     ret.id = vm->externalTypeCount;
 
-    // Note: Increment after reallocation to maintain correct state at
-    // all times, in case of alloc failure.
+    // Note: Increment after reallocation and name allocation to
+    // maintain correct state at all times, in case of alloc failure.
     vm->externalTypes = (struct NKVMExternalType *)nkiReallocArray(
         vm, vm->externalTypes,
         sizeof(*(vm->externalTypes)),
         vm->externalTypeCount + 1);
-    vm->externalTypeCount++;
 
     nkiMemset(
         &vm->externalTypes[ret.id], 0,
         sizeof(vm->externalTypes[ret.id]));
 
     vm->externalTypes[ret.id].name = nkiStrdup(vm, name);
+    vm->externalTypeCount++;
     vm->externalTypes[ret.id].serializationCallback =
         serializationCallback;
     vm->externalTypes[ret.id].cleanupCallback =
-- 
2.43.0


From 01a6b8052f92ca5079df18d5e8cabc8c0bffec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 20/54] fix: compiling an unreadable script file (a directory)
 wrote out of bounds

---
 src/nkx.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index d9218fa..20dab34 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -260,6 +260,7 @@ nkbool nkxCompilerCompileScriptFile(
 {
     struct NKVM *vm = cs->vm;
     FILE *in = fopen(scriptFilename, "rb");
+    long fileLength = -1;
     nkuint32_t len;
     char *buf;
     nkbool success;
@@ -273,9 +274,23 @@ nkbool nkxCompilerCompileScriptFile(
     }
 
     // Read file length.
-    fseek(in, 0, SEEK_END);
-    len = ftell(in);
-    fseek(in, 0, SEEK_SET);
+    if(fseek(in, 0, SEEK_END) == 0) {
+        fileLength = ftell(in);
+    }
+
+    // Not a regular file, or too big to address.
+    if(fileLength < 0 ||
+       fileLength >= (long)(NK_UINT_MAX >> 1) ||
+       fseek(in, 0, SEEK_SET) != 0)
+    {
+        NK_FAILURE_RECOVERY_DECL();
+        fclose(in);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Cannot read script file.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
+    len = fileLength;
 
     buf = (char *)malloc(len + 1);
     if(!buf) {
@@ -283,7 +298,15 @@ nkbool nkxCompilerCompileScriptFile(
         nkiErrorStateSetAllocationFailFlag(vm);
         return nkfalse;
     }
-    fread(buf, len, 1, in);
+    if(fread(buf, 1, len, in) != len) {
+        NK_FAILURE_RECOVERY_DECL();
+        free(buf);
+        fclose(in);
+        NK_SET_FAILURE_RECOVERY(nkfalse);
+        nkiCompilerAddError(cs, "Cannot read script file.");
+        NK_CLEAR_FAILURE_RECOVERY();
+        return nkfalse;
+    }
     buf[len] = 0;
 
     fclose(in);
-- 
2.43.0


From c19e6a33dc364701a0da021c998511ac82de4333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 21/54] fix: allocating an array of zero-sized elements divided
 by zero

---
 src/nkmem.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nkmem.c b/src/nkmem.c
index 40173cb..9d6315b 100644
--- a/src/nkmem.c
+++ b/src/nkmem.c
@@ -290,7 +290,7 @@ char *nkiStrdup(struct NKVM *vm, const char *str)
 // function to wrap all of them safely.
 void *nkiMallocArray(struct NKVM *vm, nkuint32_t size, nkuint32_t count)
 {
-    if(count >= ~(nkuint32_t)0 / size) {
+    if(size && count >= ~(nkuint32_t)0 / size) {
         nkiErrorStateSetAllocationFailFlag(vm);
         NK_CATASTROPHE();
         assert(0);
@@ -303,7 +303,7 @@ void *nkiMallocArray(struct NKVM *vm, nkuint32_t size, nkuint32_t count)
 // Thanks AFL! Looks like we needed one for realloc, too.
 void *nkiReallocArray(struct NKVM *vm, void *data, nkuint32_t size, nkuint32_t count)
 {
-    if(count >= ~(nkuint32_t)0 / size) {
+    if(size && count >= ~(nkuint32_t)0 / size) {
         nkiErrorStateSetAllocationFailFlag(vm);
         NK_CATASTROPHE();
         assert(0);
-- 
2.43.0


From 11181fe5c2c12e1695f03aecda1b1f3e3a49c11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:11 +0000
Subject: [PATCH 22/54] fix: releasing a handle that is not held corrupted the
 handle count

---
 src/nkobjs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 8384f1a..1eda653 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -345,6 +345,7 @@ void nkiVmObjectReleaseHandle(struct NKVM *vm, struct NKValue *value)
     if(ob->externalHandleCount == 0) {
         nkiAddError(
             vm, "Tried to release handle for object with no external handles.");
+        return;
     }
 
     ob->externalHandleCount--;
-- 
2.43.0


From a18e447b04deb4ccf23d589c998e681ae0a57c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 23/54] fix: the stack limit was only applied when the stack's
 allocation doubled

---
 src/nksave.c  |  7 ++++---
 src/nkstack.c | 16 +++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/nksave.c b/src/nksave.c
index bd4eb82..f1985f6 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -721,9 +721,10 @@ nkbool nkiSerializeStack(
         return nkfalse;
     }
 
-    // Check stack capacity limit.
-    if(stackCapacity > vm->limits.maxStackSize) {
-        nkiAddError(vm, "Stack capacity is too large for limit.");
+    // Check stack size limit. (Saving a VM with more values than a
+    // limit that was set later is fine.)
+    if(!writeMode && stackSize > vm->limits.maxStackSize) {
+        nkiAddError(vm, "Stack size is too large for limit.");
         return nkfalse;
     }
 
diff --git a/src/nkstack.c b/src/nkstack.c
index dc9fffc..5b60c70 100644
--- a/src/nkstack.c
+++ b/src/nkstack.c
@@ -76,6 +76,15 @@ struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
         stack->capacity = 1;
     }
 
+    // The limit applies to every pushed value, not just the ones that
+    // happen to need a bigger (power of two) allocation.
+    if(stack->size >= vm->limits.maxStackSize) {
+        nkiAddError(
+            vm,
+            "Reached stack capacity limit.");
+        return &stack->values[0];
+    }
+
     // Grow the stack if necessary.
     if(stack->size == stack->capacity) {
 
@@ -108,13 +117,6 @@ struct NKValue *nkiVmStackPush_internal(struct NKVM *vm)
             return &stack->values[0];
         }
 
-        if(newStackCapacity > vm->limits.maxStackSize) {
-            nkiAddError(
-                vm,
-                "Reached stack capacity limit.");
-            return &stack->values[0];
-        }
-
         newStackIndexMask <<= 1;
         newStackIndexMask |= 1;
         stack->values = (struct NKValue *)nkiReallocArray(
-- 
2.43.0


From 64e66b6789178d1587a730c51edf23172567c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 24/54] fix: exceeding the field limit added the field anyway
 without counting it

---
 src/nkobjs.c | 13 ++++++-------
 src/nksave.c |  6 ++++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 1eda653..54748d5 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -249,6 +249,12 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
             return NULL;
         }
 
+        // Check the limit before touching the object.
+        if(ob->size >= vm->limits.maxFieldsPerObject) {
+            nkiAddError(vm, "Reached object field count limit.");
+            return NULL;
+        }
+
         el = (struct NKVMObjectElement *)nkiMalloc(
             vm, sizeof(struct NKVMObjectElement));
         nkiMemset(el, 0, sizeof(struct NKVMObjectElement));
@@ -257,13 +263,6 @@ struct NKValue *nkiVmObjectFindOrAddEntry(
         *obList = el;
 
         ob->size++;
-        if(!ob->size || ob->size > vm->limits.maxFieldsPerObject) {
-            ob->size--;
-
-            nkiAddError(vm, "Reached object field count limit.");
-
-            return NULL;
-        }
     }
 
     return &el->value;
diff --git a/src/nksave.c b/src/nksave.c
index f1985f6..62255e8 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -265,10 +265,12 @@ nkbool nkiSerializeObject(
 
             value = nkiVmObjectFindOrAddEntry(vm, object, &key, nkfalse);
 
-            if(value) {
-                NKI_SERIALIZE_BASIC(struct NKValue, *value);
+            if(!value) {
+                return nkfalse;
             }
 
+            NKI_SERIALIZE_BASIC(struct NKValue, *value);
+
         }
 
     }
-- 
2.43.0


From 0c7c5e039f791b7364a9450e43704cb9052e64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 25/54] fix: a garbage collection interval of zero switched off
 the instruction limit

---
 src/nkx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nkx.c b/src/nkx.c
index 20dab34..3815b01 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -761,6 +761,11 @@ nkuint32_t nkxGetMaxAllocatedMemory(struct NKVM *vm)
 
 void nkxSetGarbageCollectionInterval(struct NKVM *vm, nkuint32_t gcInterval)
 {
+    // An interval of zero would never come around.
+    if(!gcInterval) {
+        gcInterval = 1;
+    }
+
     if(vm->gcInfo.gcCountdown > gcInterval) {
         vm->gcInfo.gcCountdown = gcInterval;
     }
-- 
2.43.0


From 3c311129932a3681af26c2895bce1bb79e90a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:50 +0000
Subject: [PATCH 26/54] fix: stepping a program that has ended counted towards
 the instruction limit

---
 src/nkx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nkx.c b/src/nkx.c
index 3815b01..33ef073 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -151,7 +151,11 @@ void nkxVmIterate(struct NKVM *vm, nkuint32_t count)
                 vm->currentExecutionContext->instructionPointer &
                 vm->instructionAddressMask].opcode == NK_OP_END)
         {
-            nkiVmIterate(vm);
+            // Let the end instruction do its sanity check, but don't
+            // count it as executed. Otherwise stepping a program that
+            // has already ended could hit the instruction limit.
+            nkiOpcode_end(vm);
+            vm->currentExecutionContext->instructionPointer++;
             break;
         }
 
-- 
2.43.0


From af0996d884b0e803b2505d03d7d12a094fe77365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 27/54] fix: yielding out of a function called by native code
 ran the rest of the program inside the call

---
 src/nkfunc.c   | 6 ++++++
 src/nkopcode.c | 4 ++++
 src/nkvm.h     | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index 00339f6..1fa61c0 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -81,8 +81,11 @@ void nkiVmCallFunction(
         // can restore it after we're done with this artificially
         // injected function call.
         nkuint32_t oldInstructionPtr = vm->currentExecutionContext->instructionPointer;
+        struct NKVMExecutionContext *oldNativeCallContext = vm->nativeCallContext;
         nkuint32_t i;
 
+        vm->nativeCallContext = vm->currentExecutionContext;
+
         // Push the function ID itself onto the stack.
         *nkiVmStackPush_internal(vm) = *functionValue;
 
@@ -109,6 +112,7 @@ void nkiVmCallFunction(
         // associated with. Or an error.
         nkiOpcode_call(vm);
         if(vm->errorState.firstError) {
+            vm->nativeCallContext = oldNativeCallContext;
             return;
         }
 
@@ -133,6 +137,8 @@ void nkiVmCallFunction(
             nkiVmIterate(vm);
         }
 
+        vm->nativeCallContext = oldNativeCallContext;
+
         // Save return value.
         if(returnValue) {
             *returnValue = *nkiVmStackPop(vm);
diff --git a/src/nkopcode.c b/src/nkopcode.c
index 6dbe7ac..adafe2b 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -1239,6 +1239,10 @@ void nkiOpcode_coroutineYield(struct NKVM *vm)
 
         nkiAddError(vm, "Tried to yield from the root execution context.");
 
+    } else if(vm->currentExecutionContext == vm->nativeCallContext) {
+
+        nkiAddError(vm, "Tried to yield across a native function call.");
+
     } else {
 
         // Retrieve return value from the coroutine execution context.
diff --git a/src/nkvm.h b/src/nkvm.h
index efaad10..58b7ef7 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -190,6 +190,11 @@ struct NKVM
     struct NKVMExecutionContext rootExecutionContext;
     struct NKVMExecutionContext *currentExecutionContext;
 
+    // The context the innermost unfinished nkiVmCallFunction() was
+    // made in, if there is one. It can't yield until that call is
+    // done, because the native code that made the call is waiting.
+    struct NKVMExecutionContext *nativeCallContext;
+
     // Static data.
     struct NKValue *staticSpace;
     nkuint32_t staticAddressMask;
-- 
2.43.0


From 84251752d853ec4cc3e04a1d20dd488f62f6fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:38 +0000
Subject: [PATCH 28/54] fix: a coroutine made from a native function ran at
 creation, and resuming it ran the program again

---
 src/nkopcode.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/nkopcode.c b/src/nkopcode.c
index adafe2b..d4df8a8 100644
--- a/src/nkopcode.c
+++ b/src/nkopcode.c
@@ -630,6 +630,18 @@ void nkiOpcode_call(struct NKVM *vm)
             return;
         }
 
+        // A coroutine is being created for this function. It's not
+        // supposed to run until the coroutine is resumed, so leave
+        // the call ready on the stack, with any callable objects
+        // already resolved.
+        if(vm->currentExecutionContext->coroutineState == NK_COROUTINE_CREATED) {
+            struct NKValue *functionValue = nkiVmStackPeek(
+                vm, vm->currentExecutionContext->stack.size - (argumentCount + 2));
+            functionValue->type = NK_VALUETYPE_FUNCTIONID;
+            functionValue->functionId = functionId;
+            return;
+        }
+
         // Fill in important stuff here.
         data.vm = vm;
         data.argumentCount = argumentCount;
@@ -1319,6 +1331,21 @@ void nkiOpcode_coroutineResume(struct NKVM *vm)
                 // don't want to push anything onto its stack yet.
                 context->coroutineState = NK_COROUTINE_RUNNING;
 
+                // If it's a native function then nothing of it has
+                // been executed yet, and there is nothing to execute
+                // after it.
+                if(context->instructionPointer == NK_INVALID_VALUE) {
+
+                    nkiOpcode_call(vm);
+
+                    if(!vm->errorState.firstError) {
+                        val = *nkiVmStackPop(vm);
+                        context->coroutineState = NK_COROUTINE_FINISHED;
+                        nkiVmPopExecutionContext(vm);
+                        *nkiVmStackPush_internal(vm) = val;
+                    }
+                }
+
             } else if(context->coroutineState == NK_COROUTINE_RUNNING) {
 
                 // The coroutine has already been running, so the last
-- 
2.43.0


From aa6787acd8facedb932d1df438f4e2e528adf8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:43 +0000
Subject: [PATCH 29/54] fix: collecting the error text took time quadratic in
 the number of errors

---
 src/nkerror.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nkerror.c b/src/nkerror.c
index 1ad84b4..82aff35 100644
--- a/src/nkerror.c
+++ b/src/nkerror.c
@@ -223,8 +223,13 @@ void nkiGetErrorText(struct NKVM *vm, char *buffer)
 
         while(error) {
 
+            // Move to the end of what we have so far, so we don't
+            // have to search for it again from the start of the
+            // buffer for every error.
             nkiStrcat(buffer, error->errorText);
+            buffer += nkiStrlen(buffer);
             nkiStrcat(buffer, "\n");
+            buffer++;
             error = error->next;
 
         }
-- 
2.43.0


From bba6a118dbbe332688969ab9d4707434069e42e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:26 +0000
Subject: [PATCH 30/54] fix: every var and return statement used up a level of
 the compiler's recursion limit

---
 src/nkcompil.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 6400ea9..2c43acc 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -424,11 +424,17 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
 
         case NK_TOKENTYPE_VAR:
             // "var" = Variable declaration.
-            return nkiCompilerCompileVariableDeclaration(cs);
+            if(!nkiCompilerCompileVariableDeclaration(cs)) {
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_RETURN:
             // "return" = Return statement.
-            return nkiCompilerCompileReturnStatement(cs);
+            if(!nkiCompilerCompileReturnStatement(cs)) {
+                return nkfalse;
+            }
+            break;
 
         case NK_TOKENTYPE_CURLYBRACE_OPEN:
             // Curly braces mean we need to parse a block.
-- 
2.43.0


From ebd897e64909159327db4f47ded23e5df75d09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:58 +0000
Subject: [PATCH 31/54] fix: a script that failed to compile left variables and
 compiler state behind, and could be reported as compiled

---
 src/nkcompil.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 2c43acc..ab359b9 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1207,6 +1207,13 @@ nkbool nkiCompilerCompileScript(
     struct NKTokenList tokenList;
     nkbool success;
 
+    // Compiler state to go back to if this fails.
+    struct NKCompilerStateContext *oldContext = cs->context;
+    nkuint32_t oldRecursionCount = cs->recursionCount;
+    nkuint32_t oldStackFrameOffset = cs->context->stackFrameOffset;
+    struct NKCompilerStateContextVariable *oldVariables =
+        cs->context->variables;
+
     if(!nkiCompilerPushRecursion(cs)) {
         return nkfalse;
     }
@@ -1240,6 +1247,33 @@ nkbool nkiCompilerCompileScript(
     nkiCompilerDestroyTokenList(cs->vm, &tokenList);
 
     nkiCompilerPopRecursion(cs);
+
+    // Some errors don't stop the compiler right away.
+    if(nkiVmHasErrors(cs->vm)) {
+        success = nkfalse;
+    }
+
+    // Don't let anything of a script that failed to compile get in
+    // the way of something that gets compiled after the errors have
+    // been cleared.
+    if(!success) {
+
+        while(cs->context != oldContext) {
+            nkiCompilerPopContext(cs);
+        }
+
+        while(cs->context->variables != oldVariables) {
+            struct NKCompilerStateContextVariable *var =
+                cs->context->variables;
+            cs->context->variables = var->next;
+            nkiFree(cs->vm, var->name);
+            nkiFree(cs->vm, var);
+        }
+
+        cs->context->stackFrameOffset = oldStackFrameOffset;
+        cs->recursionCount = oldRecursionCount;
+    }
+
     return success;
 }
 
-- 
2.43.0


From ca5d636ac535ba4cba6673dafe20e90e14090bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 32/54] fix: errors in a script's first line and in for loop
 increments reported the wrong position

---
 src/nkcompil.c | 88 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 23 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index ab359b9..0d1a6a0 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -929,6 +929,32 @@ nkbool nkiCompilerCompileFunctionDefinition(
     return ret;
 }
 
+static void nkiCompilerAddPositionMarker(
+    struct NKCompilerState *cs,
+    nkuint32_t lineNumber,
+    nkuint32_t actualLineNumber,
+    nkuint32_t fileIndex)
+{
+    struct NKVMFilePositionMarker newMarker;
+
+    cs->currentLineNumber = lineNumber;
+    cs->currentFileIndex = fileIndex;
+    cs->currentActualLineNumber = actualLineNumber;
+
+    newMarker.fileIndex = fileIndex;
+    newMarker.lineNumber = lineNumber;
+    newMarker.instructionIndex = cs->instructionWriteIndex;
+    newMarker.actualLineNumber = actualLineNumber;
+
+    cs->vm->positionMarkerList =
+        (struct NKVMFilePositionMarker*)nkiReallocArray(
+            cs->vm, cs->vm->positionMarkerList,
+            sizeof(struct NKVMFilePositionMarker),
+            cs->vm->positionMarkerCount + 1);
+
+    cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+}
+
 struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
 {
     if(cs->currentToken) {
@@ -938,24 +964,11 @@ struct NKToken *nkiCompilerNextToken(struct NKCompilerState *cs)
             if((nkint32_t)cs->currentLineNumber != cs->currentToken->lineNumber ||
                 cs->currentFileIndex != cs->currentToken->fileIndex)
             {
-                struct NKVMFilePositionMarker newMarker;
-
-                cs->currentLineNumber = cs->currentToken->lineNumber;
-                cs->currentFileIndex = cs->currentToken->fileIndex;
-                cs->currentActualLineNumber = cs->currentToken->actualLineNumber;
-
-                newMarker.fileIndex = cs->currentToken->fileIndex;
-                newMarker.lineNumber = cs->currentToken->lineNumber;
-                newMarker.instructionIndex = cs->instructionWriteIndex;
-                newMarker.actualLineNumber = cs->currentToken->actualLineNumber;
-
-                cs->vm->positionMarkerList =
-                    (struct NKVMFilePositionMarker*)nkiReallocArray(
-                        cs->vm, cs->vm->positionMarkerList,
-                        sizeof(struct NKVMFilePositionMarker),
-                        cs->vm->positionMarkerCount + 1);
-
-                cs->vm->positionMarkerList[cs->vm->positionMarkerCount++] = newMarker;
+                nkiCompilerAddPositionMarker(
+                    cs,
+                    cs->currentToken->lineNumber,
+                    cs->currentToken->actualLineNumber,
+                    cs->currentToken->fileIndex);
             }
         }
     }
@@ -1234,10 +1247,18 @@ nkbool nkiCompilerCompileScript(
     // Compile.
 
     cs->currentToken = tokenList.first;
-    cs->currentLineNumber =
-        cs->currentToken ? cs->currentToken->lineNumber : 0;
-    cs->currentFileIndex =
-        cs->currentToken ? cs->currentToken->fileIndex : NK_INVALID_VALUE;
+    cs->currentLineNumber = 0;
+    cs->currentFileIndex = NK_INVALID_VALUE;
+
+    // Whatever this script starts with is at the position of its
+    // first token, and not at the end of the previous script.
+    if(cs->currentToken) {
+        nkiCompilerAddPositionMarker(
+            cs,
+            cs->currentToken->lineNumber,
+            cs->currentToken->actualLineNumber,
+            cs->currentToken->fileIndex);
+    }
 
     success = nkiCompilerCompileBlock(cs, nktrue);
 
@@ -1548,6 +1569,9 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     nkuint32_t skipAddressWritePtr = 0;
     nkuint32_t loopStartAddress = 0;
     struct NKExpressionAstNode *incrementExpression = NULL;
+    nkuint32_t incrementLineNumber = 0;
+    nkuint32_t incrementActualLineNumber = 0;
+    nkuint32_t incrementFileIndex = NK_INVALID_VALUE;
 
     if(!nkiCompilerPushRecursion(cs)) {
         return nkfalse;
@@ -1602,6 +1626,9 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
 
     // Parse the increment expression, but don't emit yet (we'll do
     // this at the end, before the jump back).
+    incrementLineNumber = cs->currentLineNumber;
+    incrementActualLineNumber = cs->currentActualLineNumber;
+    incrementFileIndex = cs->currentFileIndex;
     incrementExpression = nkiCompilerCompileExpressionWithoutEmit(cs, nktrue);
 
     // Skip ")"
@@ -1622,7 +1649,13 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     }
     nkiCompilerPopContext(cs);
 
-    // Emit the increment expression.
+    // Emit the increment expression. It's not where the compiler
+    // currently is in the source.
+    nkiCompilerAddPositionMarker(
+        cs,
+        incrementLineNumber,
+        incrementActualLineNumber,
+        incrementFileIndex);
     if(!nkiCompilerEmitExpression(cs, incrementExpression)) {
         nkiCompilerDeleteExpressionNode(cs->vm, incrementExpression);
         nkiCompilerPopContextCount(cs, 2);
@@ -1631,6 +1664,15 @@ nkbool nkiCompilerCompileForStatement(struct NKCompilerState *cs)
     }
     nkiCompilerAddInstructionSimple(cs, NK_OP_POP, nktrue);
 
+    // Back to the current position.
+    if(cs->currentToken) {
+        nkiCompilerAddPositionMarker(
+            cs,
+            cs->currentToken->lineNumber,
+            cs->currentToken->actualLineNumber,
+            cs->currentToken->fileIndex);
+    }
+
     // Emit jump back to start.
     nkiCompilerEmitJump(cs, loopStartAddress);
 
-- 
2.43.0


From e93b039bbe7202e8e0ea28eee77d84c713c76720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:37 +0000
Subject: [PATCH 33/54] fix: clearing an error discarded code that functions of
 the failed line were still using

---
 src/nkcompil.c | 20 ++++++++++++++++++++
 src/nkcompil.h |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index 0d1a6a0..a7420cc 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -1102,6 +1102,7 @@ struct NKCompilerState *nkiCompilerCreate(
     cs->currentActualLineNumber = 0;
 
     cs->staticVariableCount = 0;
+    cs->finalizedWriteIndex = 0;
 
     nkiCompilerPushContext(cs);
 
@@ -1182,6 +1183,10 @@ void nkiCompilerPartiallyFinalize(
         nkiCompilerAddInstructionSimple(cs, NK_OP_END, nkfalse);
         cs->instructionWriteIndex = oldWriteIndex;
     }
+
+    // Anything up to here may be executed from now on, and things
+    // that outlive it, like function values, may refer to it.
+    cs->finalizedWriteIndex = cs->instructionWriteIndex;
 }
 
 void nkiCompilerFinalize(
@@ -1766,6 +1771,21 @@ void nkiCompilerClearReplErrorState(
     struct NKCompilerState *cs,
     nkuint32_t instructionPointerReset)
 {
+    // Never discard code that has already been made executable, even
+    // if it caused the error. Functions from it may still be in use.
+    if(instructionPointerReset < cs->finalizedWriteIndex) {
+        instructionPointerReset = cs->finalizedWriteIndex;
+    }
+
+    // Forget about the source positions of the discarded code.
+    while(cs->vm->positionMarkerCount &&
+        cs->vm->positionMarkerList[
+            cs->vm->positionMarkerCount - 1].instructionIndex >=
+        instructionPointerReset)
+    {
+        cs->vm->positionMarkerCount--;
+    }
+
     // Reset instruction write index.
     cs->instructionWriteIndex = instructionPointerReset;
     cs->vm->instructions[cs->instructionWriteIndex].opcode = NK_OP_END;
diff --git a/src/nkcompil.h b/src/nkcompil.h
index 36d8e46..4dac5d5 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -99,6 +99,10 @@ struct NKCompilerState
     nkuint32_t recursionCount;
 
     nkuint32_t staticVariableCount;
+
+    /// Everything before this has been made executable by a (partial)
+    /// finalize.
+    nkuint32_t finalizedWriteIndex;
 };
 
 extern nkint32_t nkiCompilerStackOffsetTable[NK_OPCODE_PADDEDCOUNT];
-- 
2.43.0


From c0ea1c0c6c3b9100ce56471fe77a34556feb5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 34/54] fix: looking for a global variable that does not exist
 raised an error

---
 src/nkcompil.c | 23 ++++++++++++++---------
 src/nkcompil.h |  8 ++++++++
 src/nkx.c      |  2 +-
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/nkcompil.c b/src/nkcompil.c
index a7420cc..79ce2c8 100644
--- a/src/nkcompil.c
+++ b/src/nkcompil.c
@@ -512,28 +512,33 @@ nkbool nkiCompilerCompileStatement(struct NKCompilerState *cs)
     return nktrue;
 }
 
-struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
+struct NKCompilerStateContextVariable *nkiCompilerFindVariable(
     struct NKCompilerState *cs,
     const char *name)
 {
     struct NKCompilerStateContext *ctx = cs->context;
-    struct NKCompilerStateContextVariable *var = NULL;
 
     while(ctx) {
-        var = ctx->variables;
+        struct NKCompilerStateContextVariable *var = ctx->variables;
         while(var) {
             if(!nkiStrcmp(var->name, name)) {
-                // Found it.
-                ctx = NULL;
-                break;
+                return var;
             }
             var = var->next;
         }
-        if(!var) {
-            ctx = ctx->parent;
-        }
+        ctx = ctx->parent;
     }
 
+    return NULL;
+}
+
+struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
+    struct NKCompilerState *cs,
+    const char *name)
+{
+    struct NKCompilerStateContextVariable *var =
+        nkiCompilerFindVariable(cs, name);
+
     if(!var) {
         struct NKDynString *dynStr =
             nkiDynStrCreate(cs->vm, "Cannot find variable: ");
diff --git a/src/nkcompil.h b/src/nkcompil.h
index 4dac5d5..9190347 100644
--- a/src/nkcompil.h
+++ b/src/nkcompil.h
@@ -162,6 +162,14 @@ struct NKValue *nkiCompilerCreateGlobalVariable(
     struct NKCompilerState *cs,
     const char *name);
 
+/// Find a variable that is visible from the current context. Returns
+/// NULL if there is none.
+struct NKCompilerStateContextVariable *nkiCompilerFindVariable(
+    struct NKCompilerState *cs,
+    const char *name);
+
+/// Same as nkiCompilerFindVariable(), but adds an error if there is
+/// none.
 struct NKCompilerStateContextVariable *nkiCompilerLookupVariable(
     struct NKCompilerState *cs,
     const char *name);
diff --git a/src/nkx.c b/src/nkx.c
index 33ef073..08ad073 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -196,7 +196,7 @@ struct NKValue *nkxVmFindGlobalVariable(
         NK_SET_FAILURE_RECOVERY(NULL);
         {
             struct NKCompilerStateContextVariable *var =
-                nkiCompilerLookupVariable(cs, name);
+                nkiCompilerFindVariable(cs, name);
             if(var) {
                 ret = &vm->staticSpace[var->position & vm->staticAddressMask];
             }
-- 
2.43.0


From bc56001c2ef348c79c6315a7f4d634463ee9a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:52 +0000
Subject: [PATCH 35/54] fix: an unterminated string in a preprocessor directive
 was read past the end of the script

---
 src/nktoken.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 9590642..76a0749 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -320,32 +320,32 @@ nkbool nkiCompilerGetPreprocessorTokens(
             tokenStart = k;
 
             // Attempt to parse a quoted string.
-            while(1) {
+            while(str[k] && str[k] != '\n' && (skipNext || str[k] != '"')) {
 
                 if(str[k] == '\\') {
-
                     skipNext = !skipNext;
-
-                } else if(str[k] == '"') {
-
-                    if(!skipNext) {
-
-                        // Skip final '"'.
-                        tokenEnd = k;
-                        k++;
-                        break;
-
-                    }
-
                 } else {
-
                     skipNext = nkfalse;
-
                 }
 
                 k++;
             }
 
+            if(str[k] != '"') {
+
+                nkiAddErrorEx(
+                    vm, lineNumber, fileIndex,
+                    "Unterminated string in preprocessor directive.");
+
+                nkiCompilerFreeStringList(vm, tokens, tokenCount);
+
+                return nkfalse;
+            }
+
+            // Skip final '"'.
+            tokenEnd = k;
+            k++;
+
         } else if(str[k] == '/' && str[k+1] == '/') {
 
             // Comment. Skip through to the end of the line.
-- 
2.43.0


From 4be67bd37e0de8419b842e2de060f3ec614c20fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 36/54] fix: line numbers after a #line directive were off by
 one with CRLF line ends and could overflow

---
 src/nktoken.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index 76a0749..ca60026 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -436,7 +436,9 @@ nkbool nkiCompilerTokenize(
         // Skip whitespace.
         while(i < len && nkiCompilerIsWhitespace(str[i])) {
             if(str[i] == '\n') {
-                lineNumber++;
+                // The line number can come from a #line directive, so
+                // it has to be allowed to wrap around.
+                lineNumber = (nkint32_t)((nkuint32_t)lineNumber + 1);
                 actualLineNumber++;
             }
             i++;
@@ -520,6 +522,11 @@ nkbool nkiCompilerTokenize(
             // Clean up.
             nkiCompilerFreeStringList(vm, tokenStringList, tokenCount);
 
+            // The line break after a directive can be two characters.
+            if(str[i] == '\r' && str[i + 1] == '\n') {
+                i++;
+            }
+
         } else if(str[i] == '(') {
 
             nkiCompilerAddToken(vm, NK_TOKENTYPE_PAREN_OPEN, "(", NK_TOKEN_STATE_PARAMETERS);
-- 
2.43.0


From 0ba7b9ef3ebe3840309da3beb848f28078a04821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 37/54] fix: errors in the call made by native code were
 reported at an arbitrary position

---
 src/nkfunc.c | 10 ++++++++++
 src/nkvm.c   | 11 ++++++++++-
 src/nkvm.h   |  4 ++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/nkfunc.c b/src/nkfunc.c
index 1fa61c0..30270a1 100644
--- a/src/nkfunc.c
+++ b/src/nkfunc.c
@@ -82,10 +82,17 @@ void nkiVmCallFunction(
         // injected function call.
         nkuint32_t oldInstructionPtr = vm->currentExecutionContext->instructionPointer;
         struct NKVMExecutionContext *oldNativeCallContext = vm->nativeCallContext;
+        nkuint32_t oldNativeCallInstructionPointer = vm->nativeCallInstructionPointer;
         nkuint32_t i;
 
         vm->nativeCallContext = vm->currentExecutionContext;
 
+        // Errors in the call itself happen at the position we're being
+        // called from.
+        if(oldInstructionPtr != NK_UINT_MAX - 1) {
+            vm->nativeCallInstructionPointer = oldInstructionPtr;
+        }
+
         // Push the function ID itself onto the stack.
         *nkiVmStackPush_internal(vm) = *functionValue;
 
@@ -113,6 +120,8 @@ void nkiVmCallFunction(
         nkiOpcode_call(vm);
         if(vm->errorState.firstError) {
             vm->nativeCallContext = oldNativeCallContext;
+            vm->nativeCallInstructionPointer = oldNativeCallInstructionPointer;
+            vm->currentExecutionContext->instructionPointer = oldInstructionPtr;
             return;
         }
 
@@ -138,6 +147,7 @@ void nkiVmCallFunction(
         }
 
         vm->nativeCallContext = oldNativeCallContext;
+        vm->nativeCallInstructionPointer = oldNativeCallInstructionPointer;
 
         // Save return value.
         if(returnValue) {
diff --git a/src/nkvm.c b/src/nkvm.c
index fc8c99f..750413d 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -647,8 +647,17 @@ struct NKVMFilePositionMarker *nkiVmFindSourceMarker(
 
 struct NKVMFilePositionMarker *nkiVmFindCurrentSourceMarker(struct NKVM *vm)
 {
+    nkuint32_t instructionPointer =
+        vm->currentExecutionContext->instructionPointer;
+
+    // Special value for calls made by native code. See
+    // nkiVmCallFunction().
+    if(instructionPointer == NK_UINT_MAX - 1) {
+        instructionPointer = vm->nativeCallInstructionPointer;
+    }
+
     return nkiVmFindSourceMarker(
         vm,
-        vm->currentExecutionContext->instructionPointer &
+        instructionPointer &
         vm->instructionAddressMask);
 }
diff --git a/src/nkvm.h b/src/nkvm.h
index 58b7ef7..715b784 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -195,6 +195,10 @@ struct NKVM
     // done, because the native code that made the call is waiting.
     struct NKVMExecutionContext *nativeCallContext;
 
+    // Instruction pointer the innermost call from native code was made
+    // at. Only meaningful for error positions inside that call.
+    nkuint32_t nativeCallInstructionPointer;
+
     // Static data.
     struct NKValue *staticSpace;
     nkuint32_t staticAddressMask;
-- 
2.43.0


From 11f8ffa15c7173f6e846a78c39883381cae96194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 38/54] fix: long chains of operators or arguments overflowed
 the stack of the compiler

---
 src/nkexpr.c | 52 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index 9c605a1..ef65968 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -43,26 +43,36 @@
 
 #include "nkcommon.h"
 
-// TODO: Make a non-recursive version of this.
+// This must not recurse, because a chain of operators or parameters makes
+// a tree that is as deep as the chain is long, and it also has to be
+// deleted when the tree was rejected for its depth.
 void nkiCompilerDeleteExpressionNode(struct NKVM *vm, struct NKExpressionAstNode *node)
 {
-    if(!node) {
-        return;
-    }
+    while(node) {
 
-    if(node->ownedToken) {
-        nkiCompilerDeleteToken(vm, node->opOrValue);
-        node->opOrValue = NULL;
-    }
+        struct NKExpressionAstNode *firstChild = node->children[0];
 
-    if(node->children[0]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[0]);
-    }
-    if(node->children[1]) {
-        nkiCompilerDeleteExpressionNode(vm, node->children[1]);
-    }
+        if(firstChild) {
+
+            // Rotate the first child into our place, with us becoming
+            // its second child.
+            node->children[0] = firstChild->children[1];
+            firstChild->children[1] = node;
+            node = firstChild;
+
+        } else {
+
+            struct NKExpressionAstNode *secondChild = node->children[1];
 
-    nkiFree(vm, node);
+            if(node->ownedToken) {
+                nkiCompilerDeleteToken(vm, node->opOrValue);
+                node->opOrValue = NULL;
+            }
+
+            nkiFree(vm, node);
+            node = secondChild;
+        }
+    }
 }
 
 nkbool nkiCompilerIsSubexpressionEndingToken(struct NKToken *token)
@@ -1077,6 +1087,10 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
         return NULL;
     }
 
+    if(!nkiCompilerPushRecursion(cs)) {
+        return NULL;
+    }
+
     newNode = (struct NKExpressionAstNode *)nkiMalloc(
         cs->vm, sizeof(struct NKExpressionAstNode));
     nkiMemset(newNode, 0, sizeof(*newNode));
@@ -1098,6 +1112,7 @@ struct NKExpressionAstNode *nkiCompilerCloneExpressionTree(
     newNode->children[0] = nkiCompilerCloneExpressionTree(cs, node->children[0]);
     newNode->children[1] = nkiCompilerCloneExpressionTree(cs, node->children[1]);
 
+    nkiCompilerPopRecursion(cs);
     return newNode;
 }
 
@@ -1294,7 +1309,12 @@ struct NKExpressionAstNode *nkiCompilerCompileExpressionWithoutEmit(
     if(node) {
         nkiCompilerExpressionExpandIncrementsAndDecrements(
             cs, node, returnValueCanBeDiscarded);
-        nkiCompilerOptimizeConstants(cs->vm, &node);
+
+        // If the tree is too deep, then it has been reported at this
+        // point, and it's too deep for the constant optimizer, too.
+        if(!nkiGetErrorCount(cs->vm)) {
+            nkiCompilerOptimizeConstants(cs->vm, &node);
+        }
     }
 
     if(nkiGetErrorCount(cs->vm)) {
-- 
2.43.0


From 09f77fb6451426b7e54f48576b3d7d04119506e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 39/54] fix: a subexpression could end with a bracket or comma
 instead of its closing parenthesis

---
 src/nkexpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index ef65968..bb88a80 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -336,7 +336,7 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
             }
 
             // Make sure we ended on a closing parenthesis.
-            if(!(*currentToken) || !nkiCompilerIsSubexpressionEndingToken(*currentToken)) {
+            if(nkiCompilerCurrentTokenType(cs) != NK_TOKENTYPE_PAREN_CLOSE) {
                 nkiCompilerAddError(cs, "Bad expression end.");
                 NK_CLEANUP_INLOOP();
                 nkiCompilerPopRecursion(cs);
-- 
2.43.0


From b2ff3785fa73f94b5cc01fe9294f5d12065e6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:27 +0000
Subject: [PATCH 40/54] fix: operators and keywords were accepted in place of a
 value

---
 src/nkexpr.c | 19 +++++++++++++++++++
 src/nkexpr.h |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/src/nkexpr.c b/src/nkexpr.c
index bb88a80..020d826 100644
--- a/src/nkexpr.c
+++ b/src/nkexpr.c
@@ -109,6 +109,18 @@ nkbool nkiCompilerIsPostfixOperator(struct NKToken *token)
         token->type == NK_TOKENTYPE_DECREMENT);
 }
 
+nkbool nkiCompilerIsValueToken(struct NKToken *token)
+{
+    return token &&
+        (token->type == NK_TOKENTYPE_INTEGER ||
+            token->type == NK_TOKENTYPE_FLOAT ||
+            token->type == NK_TOKENTYPE_STRING ||
+            token->type == NK_TOKENTYPE_IDENTIFIER ||
+            token->type == NK_TOKENTYPE_NEWOBJECT ||
+            token->type == NK_TOKENTYPE_NIL ||
+            token->type == NK_TOKENTYPE_FUNCTIONSTYLEEXPRESSION);
+}
+
 nkint32_t nkiCompilerGetPrecedence(enum NKTokenType t)
 {
     // Reference:
@@ -382,6 +394,13 @@ struct NKExpressionAstNode *nkiCompilerParseExpression(struct NKCompilerState *c
 
                     valueNode->ownedToken = nktrue;
 
+                } else if(!nkiCompilerIsValueToken(*currentToken)) {
+
+                    nkiCompilerAddError(cs, "Expected a value.");
+                    NK_CLEANUP_INLOOP();
+                    nkiCompilerPopRecursion(cs);
+                    return NULL;
+
                 } else {
 
                     // Function-style expression names get routed
diff --git a/src/nkexpr.h b/src/nkexpr.h
index 93cfceb..13e9f89 100644
--- a/src/nkexpr.h
+++ b/src/nkexpr.h
@@ -61,6 +61,10 @@ nkbool nkiCompilerIsPrefixOperator(struct NKToken *token);
 /// ("[]", "()", etc).
 nkbool nkiCompilerIsPostfixOperator(struct NKToken *token);
 
+/// Returns true for a token that can be a value by itself. (Not
+/// including anonymous functions.)
+nkbool nkiCompilerIsValueToken(struct NKToken *token);
+
 /// Returns true if the token is a valid end-of-sub-expression token
 /// ("]", ")", etc).
 nkbool nkiCompilerIsSubexpressionEndingToken(struct NKToken *token);
-- 
2.43.0


From 69dadd67487c2255cd2a8b4ab0a197536688ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:47 +0000
Subject: [PATCH 41/54] fix: number literals of more than 255 characters were
 split in two

---
 src/nktoken.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/nktoken.c b/src/nktoken.c
index ca60026..e098a7e 100644
--- a/src/nktoken.c
+++ b/src/nktoken.c
@@ -712,21 +712,27 @@ nkbool nkiCompilerTokenize(
             // Scan until we find the end of the number.
             nkuint32_t numberStart = i;
             nkbool isFloat = nkfalse;
-            char tmp[256];
+
+            // Nearly all numbers fit in this. We only allocate memory
+            // for the others.
+            char tmpBuffer[256];
+            char *tmp = tmpBuffer;
 
             while(i < len &&
-                (nkiCompilerIsNumber(str[i]) || str[i] == '.') &&
-                (i - numberStart) < sizeof(tmp) - 1)
+                (nkiCompilerIsNumber(str[i]) || str[i] == '.'))
             {
-                tmp[i - numberStart] = str[i];
                 if(str[i] == '.') {
                     isFloat = nktrue;
                 }
                 i++;
             }
 
-            // Add null terminator.
-            tmp[i - numberStart] = 0;
+            if((i - numberStart) >= sizeof(tmpBuffer)) {
+                tmp = (char *)nkiMalloc(vm, (i - numberStart) + 1);
+            }
+
+            nkiMemcpy(tmp, str + numberStart, (i - numberStart));
+            tmp[(i - numberStart)] = 0;
 
             // Back up one character, so we don't eat the first
             // character of whatever comes next.
@@ -738,6 +744,10 @@ nkbool nkiCompilerTokenize(
                 tmp,
                 NK_TOKEN_STATE_PARAMETERS);
 
+            if(tmp != tmpBuffer) {
+                nkiFree(vm, tmp);
+            }
+
         } else if(nkiCompilerIsValidIdentifierCharacter(str[i], nktrue)) {
 
             nkuint32_t startIndex = i;
-- 
2.43.0


From 69be42cae685a8dcf0c4a3c66f33513d6ebf0c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:41 +0000
Subject: [PATCH 42/54] fix: a VM without any functions could be saved but not
 restored

---
 src/nksave.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nksave.c b/src/nksave.c
index 62255e8..05f9814 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -881,7 +881,8 @@ nkbool nkiSerializeFunctionTable_inner(
                     vm, sizeof(struct NKVMFunction),
                     tmpFunctionCount);
 
-            if(!newTable) {
+            // A VM without any functions has no table.
+            if(!newTable && tmpFunctionCount) {
                 return nkfalse;
             }
 
-- 
2.43.0


From 5aced164ad7a92ae23c0121411acbdfeb8a7f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:51 +0000
Subject: [PATCH 43/54] fix: the interpreter read past its buffer for empty and
 unreadable script files

---
 src/interp/main.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/interp/main.c b/src/interp/main.c
index 7866673..e7aaad8 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -133,6 +133,14 @@ char *loadScriptFromStream(nkuint32_t *scriptSize, FILE *in, nkbool stopOnNewlin
 
     *scriptSize = 0;
 
+    // Handle allocation failure.
+    if(!buf) {
+        return NULL;
+    }
+
+    // There might be nothing to read at all.
+    buf[0] = 0;
+
     while(fread(&buf[*scriptSize], 1, 1, in) > 0) {
 
         (*scriptSize)++;
@@ -166,6 +174,13 @@ char *loadScriptFromStream(nkuint32_t *scriptSize, FILE *in, nkbool stopOnNewlin
         }
     }
 
+    // Not something we can read. (A directory, for example.)
+    if(ferror(in)) {
+        free(buf);
+        *scriptSize = 0;
+        return NULL;
+    }
+
     return buf;
 }
 
-- 
2.43.0


From fd25871a85c8205cdf05346b514ad5b2cb64c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:51 +0000
Subject: [PATCH 44/54] fix: loadFile in the interpreter crashed on directories
 and other files without a usable size

---
 src/interp/main.c | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/interp/main.c b/src/interp/main.c
index e7aaad8..0bc27f8 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -271,25 +271,13 @@ void loadFile(struct NKVMFunctionCallbackData *data)
     const char *filename = nkxValueToString(
         data->vm, &data->arguments[0]);
 
-    FILE *inFile = fopen(filename, "rb");
-    size_t fileSize;
+    char *buf = loadScript(filename, NULL);
 
-    if(!inFile) {
+    if(!buf) {
         nkxAddError(data->vm, "Cannot open file.");
         return;
     }
 
-    fseek(inFile, 0, SEEK_END);
-    fileSize = ftell(inFile);
-    fseek(inFile, 0, SEEK_SET);
-
-    char *buf = malloc(fileSize + 1);
-
-    fread(buf, fileSize, 1, inFile);
-    buf[fileSize] = 0;
-
-    fclose(inFile);
-
     nkxValueSetString(
         data->vm,
         &data->returnValue,
-- 
2.43.0


From e66fde903da3ff2a63a8e16c90c9160ce931dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 45/54] fix: the interpreter crashed or printed garbage when an
 allocation failed

---
 src/interp/main.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/interp/main.c b/src/interp/main.c
index 0bc27f8..31fa541 100644
--- a/src/interp/main.c
+++ b/src/interp/main.c
@@ -206,6 +206,10 @@ void printErrors(struct NKVM *vm)
         nkuint32_t errorBufLen = nkxGetErrorLength(vm);
         char *buf = (char*)malloc(errorBufLen);
         fprintf(stderr, "error:\n");
+        if(!buf) {
+            fprintf(stderr, "Out of memory.\n");
+            return;
+        }
         nkxGetErrorText(vm, buf);
         fprintf(stderr, "%s\n", buf);
         free(buf);
@@ -228,7 +232,14 @@ void printFunc(struct NKVMFunctionCallbackData *data)
 {
     nkuint32_t i;
     for(i = 0; i < data->argumentCount; i++) {
-        printf("%s", nkxValueToString(data->vm, &data->arguments[i]));
+        const char *str = nkxValueToString(data->vm, &data->arguments[i]);
+
+        // Handle allocation failure.
+        if(!str) {
+            return;
+        }
+
+        printf("%s", str);
     }
 }
 
@@ -356,7 +367,19 @@ int main(int argc, char *argv[])
 
     // Create the VM and compiler.
     vm = nkxVmCreate();
+    if(!vm) {
+        fprintf(stderr, "error: Could not create a VM.\n");
+        free(scriptText);
+        return 1;
+    }
+
     compiler = nkxCompilerCreate(vm);
+    if(!compiler) {
+        printErrors(vm);
+        nkxVmDelete(vm);
+        free(scriptText);
+        return 1;
+    }
 
     // Set up some standard functions (print, etc).
     setupStdio(vm, compiler);
@@ -383,6 +406,7 @@ int main(int argc, char *argv[])
             // Attempt to compile new code.
             nkxCompilerCompileScript(compiler, scriptText, "<stdin>");
             free(scriptText);
+            scriptText = NULL;
 
             // Finalize and run.
             if(checkNoErrors(vm)) {
-- 
2.43.0


From 3db65285c7dacf4f8d63e7ecc4cac1056584bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:29 +0000
Subject: [PATCH 46/54] fix: the state dump crashed on a VM restored from a
 damaged save

---
 src/nkdbg.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nkdbg.c b/src/nkdbg.c
index d25e48a..381a988 100644
--- a/src/nkdbg.c
+++ b/src/nkdbg.c
@@ -269,7 +269,9 @@ void nkiDbgDumpState(struct NKVM *vm, const char *script, FILE *stream)
             }
             fprintf(stream, "      externalDataType: " NK_PRINTF_UINT32 "\n", ob->externalDataType.id);
 
-            if(ob->externalDataType.id == vm->internalObjectTypes.coroutine.id) {
+            if(ob->externalDataType.id == vm->internalObjectTypes.coroutine.id &&
+                ob->externalData)
+            {
                 fprintf(stream, "      coroutine data:\n");
                 nkiDbgDumpExecutionContext(vm, stream, (struct NKVMExecutionContext*)ob->externalData);
             }
@@ -629,6 +631,7 @@ void nkiDbgDumpListing(struct NKVM *vm, const char *script, FILE *stream)
         for(i = 0; i <= vm->instructionAddressMask; i++) {
 
             enum NKOpcode opcode = vm->instructions[i].opcode;
+            const char *opcodeName = nkiVmGetOpcodeName(opcode);
             struct NKInstruction *maybeParams =
                 &vm->instructions[(i+1) & vm->instructionAddressMask];
 
@@ -644,7 +647,9 @@ void nkiDbgDumpListing(struct NKVM *vm, const char *script, FILE *stream)
             nkiDbgPadLine(7, lineBuf, ' ');
 
             nkiDbgAppendLine(sizeof(lineBuf), lineBuf, ": ");
-            nkiDbgAppendLine(sizeof(lineBuf), lineBuf, nkiVmGetOpcodeName(opcode));
+            nkiDbgAppendLine(
+                sizeof(lineBuf), lineBuf,
+                opcodeName ? opcodeName : "<bad opcode>");
 
             // Format parameters.
             if(vm->instructions[i].opcode == NK_OP_PUSHLITERAL_INT) {
-- 
2.43.0


From af17bd31ad45e450bdbfc2713817adcaa411b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:45 +0000
Subject: [PATCH 47/54] fix: releasing a handle from a cleanup callback while
 the VM is deleted wrote to freed memory

---
 src/nkobjs.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 54748d5..65e8148 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -60,6 +60,17 @@ void nkiVmObjectDelete(struct NKVM *vm, struct NKVMObject *ob)
             el = next;
         }
     }
+
+    // Cut us out of the list of objects with external handles. Cleanup
+    // callbacks for other objects may still change that list.
+    if(ob->previousExternalHandleListPtr) {
+        *ob->previousExternalHandleListPtr = ob->nextObjectWithExternalHandles;
+        if(ob->nextObjectWithExternalHandles) {
+            ob->nextObjectWithExternalHandles->previousExternalHandleListPtr =
+                ob->previousExternalHandleListPtr;
+        }
+    }
+
     nkiFree(vm, ob);
 }
 
-- 
2.43.0


From dbb87492da72f1a1325d8fdfe50c6dae59009b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:21 +0000
Subject: [PATCH 48/54] fix: deleting a VM leaked memory when a cleanup
 callback ran out of memory

---
 src/nkvm.c | 2 +-
 src/nkx.c  | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nkvm.c b/src/nkvm.c
index 750413d..76ee956 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -384,7 +384,7 @@ void nkiVmDestroy(struct NKVM *vm)
         NK_CLEAR_FAILURE_RECOVERY();
     }
 
-    assert(!vm->allocations);
+    assert(!vm->allocations || vm->errorState.allocationFailure);
  }
 
 // ----------------------------------------------------------------------
diff --git a/src/nkx.c b/src/nkx.c
index 08ad073..6a1b8cf 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -103,6 +103,13 @@ void nkxVmDelete(struct NKVM *vm)
 {
     if(vm) {
         nkiVmDestroy(vm);
+
+        // Cleanup callbacks may have run out of memory in there. If
+        // so, then go again in the catastrophic failure cleanup mode.
+        if(vm->allocations) {
+            nkiVmDestroy(vm);
+        }
+
         vm->freeReplacement(
             vm, vm->mallocAndFreeReplacementUserData);
     }
-- 
2.43.0


From 737a8a2d40680aec3980ad574bd4e69d3bf474cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:39 +0000
Subject: [PATCH 49/54] fix: compiling a script file bypassed the host's
 allocator and memory limit

---
 src/nkx.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/nkx.c b/src/nkx.c
index 6a1b8cf..7c298cf 100644
--- a/src/nkx.c
+++ b/src/nkx.c
@@ -303,15 +303,14 @@ nkbool nkxCompilerCompileScriptFile(
     }
     len = fileLength;
 
-    buf = (char *)malloc(len + 1);
+    buf = (char *)nkxMalloc(vm, len + 1);
     if(!buf) {
         fclose(in);
-        nkiErrorStateSetAllocationFailFlag(vm);
         return nkfalse;
     }
     if(fread(buf, 1, len, in) != len) {
         NK_FAILURE_RECOVERY_DECL();
-        free(buf);
+        nkxFree(vm, buf);
         fclose(in);
         NK_SET_FAILURE_RECOVERY(nkfalse);
         nkiCompilerAddError(cs, "Cannot read script file.");
@@ -322,7 +321,7 @@ nkbool nkxCompilerCompileScriptFile(
 
     fclose(in);
     success = nkxCompilerCompileScript(cs, buf, scriptFilename);
-    free(buf);
+    nkxFree(vm, buf);
 
     return success;
 }
-- 
2.43.0


From cd85149de3ef2a9793361c85f59d4f5246a57ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:05 +0000
Subject: [PATCH 50/54] fix: loading a save into a VM that had already been
 used leaked its objects and errors, and deleting it aborted

---
 src/nksave.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/nksave.c b/src/nksave.c
index 05f9814..e154558 100644
--- a/src/nksave.c
+++ b/src/nksave.c
@@ -1476,6 +1476,30 @@ nkbool nkiSerializeExecutionContext(
     return nktrue;
 }
 
+// Clean up whatever objects, and references to them, are in the VM
+// already, before we load something else into it. The VM may have run
+// a program or loaded something before.
+static void nkiSerializeTearDown(struct NKVM *vm)
+{
+    // This may point to a coroutine that's about to be cleaned up.
+    vm->currentExecutionContext = &vm->rootExecutionContext;
+    vm->rootExecutionContext.coroutineState = NK_COROUTINE_RUNNING;
+
+    nkiVmStackClear(
+        vm, &vm->rootExecutionContext.stack,
+        nkfalse);
+    nkiMemset(
+        vm->staticSpace, 0,
+        (vm->staticAddressMask + 1) * sizeof(struct NKValue));
+
+    nkiVmObjectTableCleanAllObjects(vm);
+    nkiVmObjectTableDestroy(vm);
+    nkiVmObjectTableInit(vm);
+
+    nkiErrorStateDestroy(vm);
+    vm->errorState.lastError = NULL;
+}
+
 // ABI-compatibility-breaking version change history:
 // ----------------------------------------------------------------------
 //   1-2 - ???
@@ -1509,6 +1533,12 @@ nkbool nkiVmSerialize(struct NKVM *vm, NKVMSerializationWriter writer, void *use
         }
     }
 
+    // Everything in the VM is about to be replaced. Get rid of the
+    // parts that the loading code below doesn't tear down itself.
+    if(!writeMode) {
+        nkiSerializeTearDown(vm);
+    }
+
     NKI_WRAPSERIALIZE(
         nkiSerializeInstructions(vm, writer, userdata, writeMode));
 
-- 
2.43.0


From 267130800a5891712a2fd14e2b0526beaeefd3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:23 +0000
Subject: [PATCH 51/54] fix: the count of collections wrapping around freed
 objects still in use

---
 src/nkgc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/nkgc.c b/src/nkgc.c
index 8ffbef8..9e0c1f1 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -219,7 +219,16 @@ void nkiVmGarbageCollect(struct NKVM *vm)
 {
     struct NKVMGCState gcState;
     nkiMemset(&gcState, 0, sizeof(gcState));
-    gcState.currentGCPass = ++vm->gcInfo.lastGCPass;
+
+    // Zero is what new objects and strings start out with, so it's
+    // not a valid pass number. Skip it when we wrap around, or new
+    // objects would look like they've been marked already.
+    vm->gcInfo.lastGCPass++;
+    if(!vm->gcInfo.lastGCPass) {
+        vm->gcInfo.lastGCPass++;
+    }
+
+    gcState.currentGCPass = vm->gcInfo.lastGCPass;
     gcState.vm = vm;
 
     // Iterate through objects with external handles.
-- 
2.43.0


From 5f860938aadd4bba3dba9d83ccc6a84d6bd33d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:28 +0000
Subject: [PATCH 52/54] fix: once the instruction limit was reached, later
 limits and automatic collection had no effect

---
 src/nkvm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nkvm.c b/src/nkvm.c
index 76ee956..3f531d9 100644
--- a/src/nkvm.c
+++ b/src/nkvm.c
@@ -409,6 +409,10 @@ void nkiVmIterate(struct NKVM *vm)
             if(vm->instructionsLeftBeforeTimeout < vm->gcInfo.gcInterval) {
                 nkiAddError(vm, "Instruction count limit reached.");
                 vm->instructionsLeftBeforeTimeout = 0;
+
+                // Leave the countdown ready to go again, in case the
+                // host clears the error and carries on (REPL).
+                vm->gcInfo.gcCountdown = vm->gcInfo.gcInterval;
                 return;
             }
             vm->instructionsLeftBeforeTimeout -= vm->gcInfo.gcInterval;
-- 
2.43.0


From 8cf1a0d07b5db0fcd8d42e99193ff87a6b8af80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:12 +0000
Subject: [PATCH 53/54] fix: cleanup callbacks that create objects or cause a
 collection corrupted the heap

---
 src/nkgc.c   | 11 +++++++++++
 src/nkobjs.c | 13 +++++++++++++
 src/nkvm.h   |  5 +++++
 3 files changed, 29 insertions(+)

diff --git a/src/nkgc.c b/src/nkgc.c
index 9e0c1f1..fdf1a24 100644
--- a/src/nkgc.c
+++ b/src/nkgc.c
@@ -220,6 +220,13 @@ void nkiVmGarbageCollect(struct NKVM *vm)
     struct NKVMGCState gcState;
     nkiMemset(&gcState, 0, sizeof(gcState));
 
+    // Callbacks may (indirectly) ask for a collection while we're
+    // still in one.
+    if(vm->gcInfo.collecting) {
+        return;
+    }
+    vm->gcInfo.collecting = nktrue;
+
     // Zero is what new objects and strings start out with, so it's
     // not a valid pass number. Skip it when we wrap around, or new
     // objects would look like they've been marked already.
@@ -276,8 +283,10 @@ void nkiVmGarbageCollect(struct NKVM *vm)
         vm, gcState.currentGCPass);
 
     // Delete unmarked (and not externally-referenced) objects.
+    vm->gcInfo.sweeping = nktrue;
     nkiVmObjectTableCleanOldObjects(
         vm, gcState.currentGCPass);
+    vm->gcInfo.sweeping = nkfalse;
 
     // Clean up.
     assert(!gcState.openList);
@@ -290,5 +299,7 @@ void nkiVmGarbageCollect(struct NKVM *vm)
             count++;
         }
     }
+
+    vm->gcInfo.collecting = nkfalse;
 }
 
diff --git a/src/nkobjs.c b/src/nkobjs.c
index 65e8148..87d7040 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -131,6 +131,12 @@ nkuint32_t nkiVmObjectTableCreateObject(
         return NK_INVALID_VALUE;
     }
 
+    // Objects created by the cleanup callback of another object must
+    // not fall victim to the collection that is still going on.
+    if(vm->gcInfo.sweeping) {
+        newObject->lastGCPass = vm->gcInfo.lastGCPass;
+    }
+
     // Tick the garbage collector so we eventually do another GC pass
     // when we have enough new objects.
     if(vm->gcInfo.gcNewObjectCountdown) {
@@ -182,13 +188,20 @@ void nkiVmObjectTableCleanAllObjects(
     struct NKVM *vm)
 {
     struct NKVMTable *table = &vm->objectTable;
+    nkbool wasCollecting = vm->gcInfo.collecting;
     nkuint32_t i;
 
+    // A collection started by a cleanup callback must not clean up
+    // the same object again.
+    vm->gcInfo.collecting = nktrue;
+
     for(i = 0; i < table->capacity; i++) {
 
         nkiVmObjectTableCleanupObject(vm, i);
         table->objectTable[i] = NULL;
     }
+
+    vm->gcInfo.collecting = wasCollecting;
 }
 
 void nkiVmObjectTableCleanOldObjects(
diff --git a/src/nkvm.h b/src/nkvm.h
index 715b784..6d37b74 100644
--- a/src/nkvm.h
+++ b/src/nkvm.h
@@ -80,6 +80,11 @@ struct NKGarbageCollectionInfo
     nkuint32_t gcCountdown;
     nkuint32_t gcNewObjectInterval; // TODO: Move to VMLimits, maybe.
     nkuint32_t gcNewObjectCountdown;
+
+    // Set during a collection, and during the part of it that gets
+    // rid of objects. Callbacks for external data may use the API.
+    nkbool collecting;
+    nkbool sweeping;
 };
 
 struct NKVMExternalSubsystemData
-- 
2.43.0


From 2f67e0ac0e090907ae1edd3efc373982f02d5164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:50 +0000
Subject: [PATCH 54/54] fix: objects made by cleanup callbacks during VM
 deletion were not cleaned up

---
 src/nkobjs.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/nkobjs.c b/src/nkobjs.c
index 87d7040..cf9cd97 100644
--- a/src/nkobjs.c
+++ b/src/nkobjs.c
@@ -189,17 +189,25 @@ void nkiVmObjectTableCleanAllObjects(
 {
     struct NKVMTable *table = &vm->objectTable;
     nkbool wasCollecting = vm->gcInfo.collecting;
+    nkbool cleanedSomething;
     nkuint32_t i;
 
     // A collection started by a cleanup callback must not clean up
     // the same object again.
     vm->gcInfo.collecting = nktrue;
 
-    for(i = 0; i < table->capacity; i++) {
-
-        nkiVmObjectTableCleanupObject(vm, i);
-        table->objectTable[i] = NULL;
-    }
+    // Cleanup callbacks may create more objects, in slots that we've
+    // already been through. Keep going until there is nothing left.
+    do {
+        cleanedSomething = nkfalse;
+        for(i = 0; i < table->capacity; i++) {
+            if(table->objectTable[i]) {
+                nkiVmObjectTableCleanupObject(vm, i);
+                table->objectTable[i] = NULL;
+                cleanedSomething = nktrue;
+            }
+        }
+    } while(cleanedSomething);
 
     vm->gcInfo.collecting = wasCollecting;
 }
-- 
2.43.0

