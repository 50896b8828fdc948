From c633f304df71404994557e9630326d22e46727d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 01/46] fix: ModuloOpt closed forms need a loop that is known
 to be guarded

---
 cmmc/Transforms/Combine/ModuloOpt.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Combine/ModuloOpt.cpp b/cmmc/Transforms/Combine/ModuloOpt.cpp
index 4e5cde1..5365051 100644
--- a/cmmc/Transforms/Combine/ModuloOpt.cpp
+++ b/cmmc/Transforms/Combine/ModuloOpt.cpp
@@ -213,6 +213,12 @@ class ModuloOpt final : public TransformPass<Function> {
         return func;
     }
 
+    static bool isGuarded(Value* initial, Value* end, Block* header, const IntegerRangeAnalysisResult& range,
+                          const DominateAnalysisResult& dom) {
+        const auto ctx = header->getTerminator();
+        return range.query(initial, dom, ctx, depth).maxSignedValue() < range.query(end, dom, ctx, depth).minSignedValue();
+    }
+
     static bool foldAddRec2SRem(const IntegerRangeAnalysisResult& range, const DominateAnalysisResult& dom,
                                 const CFGAnalysisResult& cfg, const LoopAnalysisResult& loopInfo, IRBuilder& builder,
                                 Module& mod) {
@@ -227,7 +233,9 @@ class ModuloOpt final : public TransformPass<Function> {
                 continue;
             const auto initial = loop.initial;
             const auto end = loop.bound;
-            // trip count = end - initial
+            // trip count = end - initial, provided that the loop is guarded by initial < end
+            if(!isGuarded(initial, end, loop.header, range, dom))
+                continue;
 
             for(auto& inst : loop.header->instructions()) {
                 PhiInst* rec;
@@ -356,7 +364,9 @@ class ModuloOpt final : public TransformPass<Function> {
                 continue;
             const auto initial = loop.initial;
             const auto end = loop.bound;
-            // trip count = end - initial
+            // trip count = end - initial, provided that the loop is guarded by initial < end
+            if(!isGuarded(initial, end, loop.header, range, dom))
+                continue;
 
             for(auto& inst : loop.header->instructions()) {
                 PhiInst* rec;
-- 
2.43.0


From 5d8f63101b028d5266a21e6d472558bbcdcb9437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 02/46] fix: fold ((x % c + a) % c + b) % c only when the inner
 sum is non-negative

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index d624a2e..cec2784 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -459,9 +459,11 @@ class ArithmeticReduce final : public TransformPass<Function> {
             intmax_t i3, i4, i5;
             if(srem(add(srem(add(capture(srem(any(v1), capture(int_(i1), v3)), v2), int_(i2)), int_(i3)), int_(i4)),
                     int_(i5))(matchCtx) &&
-               (i1 > 0 && i1 == i3 && i3 == i5) && (i2 >= 0 && i4 >= 0 && i1 + i2 + i4 < std::numeric_limits<int32_t>::max())) {
+               (i1 > 0 && i1 == i3 && i3 == i5) &&
+               (i2 >= i1 - 1 && i4 >= 0 && i1 + i2 + i4 < std::numeric_limits<int32_t>::max())) {
+                // x mod c1 + c2 and x mod c1 + c2 + c3 are non-negative
                 return builder.makeOp<BinaryInst>(
-                    InstructionID::SRem, builder.makeOp<BinaryInst>(InstructionID::Add, v2, makeIntLike((i2 + i4) % i1, v2)), v3);
+                    InstructionID::SRem, builder.makeOp<BinaryInst>(InstructionID::Add, v2, makeIntLike(i2 + i4, v2)), v3);
             }
 
             // (a == c1) & (b == c2) -> ((a^c1) | (b^c2)) == 0
-- 
2.43.0


From 5f3c2da9e53e9063332a64165da2e56336664252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 03/46] fix: x <= INT_MAX and x >= INT_MIN are true
 (ArithmeticReduce)

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index cec2784..c651ae4 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1194,12 +1194,18 @@ class ArithmeticReduce final : public TransformPass<Function> {
 
             // le x c -> lt x c+1, ge x c -> gt x c-1
             if(icmp(cmp, any(v1), int_(i1))(matchCtx)) {
-                // TODO: check overflow
+                const auto width = v1->getType()->as<IntegerType>()->getBitwidth();
+                const auto min = -(static_cast<intmax_t>(1) << (width - 1));
+                const auto max = -(min + 1);
                 if(cmp == CompareOp::ICmpSignedLessEqual) {
+                    if(i1 == max)
+                        return builder.getTrue();
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedLessThan, v1,
                                                        makeIntLike(i1 + 1, v1));
                 }
                 if(cmp == CompareOp::ICmpSignedGreaterEqual) {
+                    if(i1 == min)
+                        return builder.getTrue();
                     return builder.makeOp<CompareInst>(InstructionID::ICmp, CompareOp::ICmpSignedGreaterThan, v1,
                                                        makeIntLike(i1 - 1, v1));
                 }
-- 
2.43.0


From 2f06463d1dbd942d9be684924fc16560a735cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 04/46] fix: LoopStrengthReduction must not insert between phi
 nodes

---
 cmmc/Transforms/Loop/LoopStrengthReduction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/LoopStrengthReduction.cpp b/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
index 8a6f350..baa9779 100644
--- a/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
+++ b/cmmc/Transforms/Loop/LoopStrengthReduction.cpp
@@ -172,7 +172,10 @@ class LoopStrengthReduction final : public TransformPass<Function> {
 
             IRBuilder builder{ target };
             if(step->getBlock()) {
-                builder.setInsertPoint(step->getBlock(), std::next(step->as<Instruction>()->asIterator()));
+                auto insertPoint = std::next(step->as<Instruction>()->asIterator());
+                while((*insertPoint).getInstID() == InstructionID::Phi)
+                    ++insertPoint;
+                builder.setInsertPoint(step->getBlock(), insertPoint);
             } else {
                 builder.setInsertPoint(entryBlock, std::prev(entryBlock->instructions().end()));
             }
-- 
2.43.0


From f7f06f397edd5211f2db2cbab608f6b5448945aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 05/46] fix: the interpreter executes the cmmcAddRec3SRem
 builtin that the optimiser introduces

---
 cmmc/ExecutionEngine/Interpreter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmmc/ExecutionEngine/Interpreter.cpp b/cmmc/ExecutionEngine/Interpreter.cpp
index a7f99ef..839e9ac 100644
--- a/cmmc/ExecutionEngine/Interpreter.cpp
+++ b/cmmc/ExecutionEngine/Interpreter.cpp
@@ -1053,6 +1053,14 @@ std::variant<ConstantValue*, SimulationFailReason> Interpreter::execute(Module&
                                 addPtr(base);
                                 break;
                             }
+                            if(symbol == "cmmcAddRec3SRem"sv) {
+                                const auto n = static_cast<int64_t>(getInt(0));
+                                const auto rem = getInt(1);
+                                if(rem == 0)
+                                    return SimulationFailReason::DividedByZero;
+                                addInt(n * (n - 1) / 2 % rem);
+                                break;
+                            }
 
                             if(!ioCtx)
                                 return SimulationFailReason::RuntimeError;
-- 
2.43.0


From 3332f1bba877c2ad9e74c31df60d7286435988ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 06/46] fix: Relayout handles accesses whose row or column
 index is the constant 0

---
 cmmc/Transforms/Misc/Relayout.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Misc/Relayout.cpp b/cmmc/Transforms/Misc/Relayout.cpp
index 3cffc5d..144870a 100644
--- a/cmmc/Transforms/Misc/Relayout.cpp
+++ b/cmmc/Transforms/Misc/Relayout.cpp
@@ -174,7 +174,13 @@ class Relayout final : public TransformPass<Module> {
                                     builder.setInsertPoint(block, inst.asIterator());
                                     Value *idx1 = nullptr, *idx2 = nullptr;
                                     trace(builder, inst.as<GetElementPtrInst>(), idx1, idx2, 2);
-                                    const auto zero = ConstantInteger::get(idx1->getType(), 0);
+                                    // zero indices are not collected
+                                    const auto zero =
+                                        ConstantInteger::get(inst.as<GetElementPtrInst>()->getOperand(0)->getType(), 0);
+                                    if(!idx1)
+                                        idx1 = zero;
+                                    if(!idx2)
+                                        idx2 = zero;
                                     Value* newPtr1 = builder.makeOp<GetElementPtrInst>(var, std::vector<Value*>{ zero, idx2 });
                                     Value* newPtr2 =
                                         builder.makeOp<GetElementPtrInst>(newPtr1, std::vector<Value*>{ zero, idx1 });
-- 
2.43.0


From bf7d234ba6b75588374a20b7d6d132a040f3eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 07/46] fix: FinalValueReplacement reports a modification only
 when it made one

---
 cmmc/Transforms/Loop/FinalValueReplacement.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/FinalValueReplacement.cpp b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
index 8487905..1bef787 100644
--- a/cmmc/Transforms/Loop/FinalValueReplacement.cpp
+++ b/cmmc/Transforms/Loop/FinalValueReplacement.cpp
@@ -78,6 +78,7 @@ class FinalValueReplacement final : public TransformPass<Function> {
                         iter.ref()->resetValue(offsetVal);
                         rep = offsetVal;
                         offset = 0;
+                        modified = true;
                     } else {
                         // FIXME: create new blocks/create add inst after rep
                         if(iter.ref()->user->getInstID() != InstructionID::Phi) {
@@ -85,12 +86,13 @@ class FinalValueReplacement final : public TransformPass<Function> {
                             const auto val = make<BinaryInst>(InstructionID::Add, rep, offsetVal);
                             val->insertBefore(userBlock, iter.ref()->user->asIterator());
                             iter.ref()->resetValue(val);
+                            modified = true;
                         }
                     }
                 } else {
                     iter.ref()->resetValue(rep);
+                    modified = true;
                 }
-                modified = true;
             }
 
             iter = nextIter;
-- 
2.43.0


From 3ce8e26e17b38409104bb0637a218f8775922c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 08/46] fix: the interpreter runs the specialised body of
 memset when its size argument was removed

---
 cmmc/ExecutionEngine/Interpreter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmmc/ExecutionEngine/Interpreter.cpp b/cmmc/ExecutionEngine/Interpreter.cpp
index 839e9ac..f62441e 100644
--- a/cmmc/ExecutionEngine/Interpreter.cpp
+++ b/cmmc/ExecutionEngine/Interpreter.cpp
@@ -1042,7 +1042,12 @@ std::variant<ConstantValue*, SimulationFailReason> Interpreter::execute(Module&
                     return SimulationFailReason::EnterNoreturnFunc;
                 operands.pop_back();
 
-                switch(callee->getIntrinsic()) {
+                auto intrinsic = callee->getIntrinsic();
+                // the size argument of memset has been propagated into its body by DeadArgEliminate
+                if(intrinsic == Intrinsic::memset && operands.size() != 2 && !callee->blocks().empty())
+                    intrinsic = Intrinsic::none;
+
+                switch(intrinsic) {
                     case Intrinsic::none: {
                         if(callee->blocks().empty()) {
                             // runtime func
-- 
2.43.0


From 9cf8fb02d4ca6c34f0cf0b30fd66221d8ad51649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 09/46] fix: DynamicLoopUnroll passes the last iteration's
 header phis out of the super loop

---
 cmmc/Transforms/Loop/DynamicLoopUnroll.cpp | 28 ++++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
index 872cf74..1b4245b 100644
--- a/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
+++ b/cmmc/Transforms/Loop/DynamicLoopUnroll.cpp
@@ -251,7 +251,6 @@ public:
             // build scalar final
             {
                 IRBuilder builder{ target, scalarFinal };
-                auto& replaceHead = replaceMap.at(head);
                 auto& replacePrev = replaceMap.at(prev);
                 for(auto& inst : loop.latch->instructions()) {
                     bool usedByOuter = false;
@@ -266,23 +265,20 @@ public:
                         continue;
 
                     const auto phi = builder.createPhi(inst.getType());
-                    if(inst.getInstID() == InstructionID::Phi)
-                        phi->addIncoming(scalarHead, replaceHead.at(&inst));
-                    else {
-                        const auto val = replacePrev.at(&inst);
-                        const auto refPhi = head->instructions().front()->as<PhiInst>();
-                        const auto undef = make<UndefinedValue>(val->getType());
-                        const auto headPhi = make<PhiInst>(val->getType());
-                        headPhi->insertBefore(head, head->instructions().begin());
-                        for(auto& [pred, v] : refPhi->incomings()) {
-                            if(pred == prev) {
-                                headPhi->addIncoming(prev, val);
-                            } else {
-                                headPhi->addIncoming(pred, undef);
-                            }
+                    // When the scalar loop is skipped, the last iteration is the one executed by the last block of the super loop.
+                    const auto val = replacePrev.at(&inst);
+                    const auto refPhi = head->instructions().front()->as<PhiInst>();
+                    const auto undef = make<UndefinedValue>(val->getType());
+                    const auto headPhi = make<PhiInst>(val->getType());
+                    headPhi->insertBefore(head, head->instructions().begin());
+                    for(auto& [pred, v] : refPhi->incomings()) {
+                        if(pred == prev) {
+                            headPhi->addIncoming(prev, val);
+                        } else {
+                            headPhi->addIncoming(pred, undef);
                         }
-                        phi->addIncoming(scalarHead, headPhi);
                     }
+                    phi->addIncoming(scalarHead, headPhi);
                     phi->addIncoming(loop.latch, &inst);
 
                     for(auto it = inst.users().begin(); it != inst.users().end();) {
-- 
2.43.0


From 52c2599a2e5ff3e564b7e18e98d99896f7126c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:34 +0000
Subject: [PATCH 10/46] fix: codegen: an empty entry block must stay, its
 successor may be a branch target

---
 cmmc/CodeGen/SimplifyCFG.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmc/CodeGen/SimplifyCFG.cpp b/cmmc/CodeGen/SimplifyCFG.cpp
index 9ee89ef..2ba0420 100644
--- a/cmmc/CodeGen/SimplifyCFG.cpp
+++ b/cmmc/CodeGen/SimplifyCFG.cpp
@@ -218,6 +218,9 @@ static bool removeEmptyBlocks(MIRFunction& func, const CodeGenContext& ctx) {
         currentEmptySet.clear();
     };
     for(auto& block : func.blocks()) {
+        // The label of the entry block is not emitted, so the block following it cannot take its place.
+        if(&block == &func.blocks().front())
+            continue;
         if(block->instructions().empty()) {
             currentEmptySet.push_back(block.get());
         } else {
@@ -324,6 +327,8 @@ static bool sfbOpt(MIRFunction& func, CodeGenContext& ctx) {
         if(next == func.blocks().end())
             continue;
         auto block = it->get();
+        if(block->instructions().empty())
+            continue;
         auto& terminator = block->instructions().back();
         MIRBasicBlock* targetBlock;
         double prob;
-- 
2.43.0


From a2b36efd57fb0e15336f521b69678e7aab4cfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 11/46] fix: codegen: CommonBaseOpt related element pointers of
 different scales

---
 cmmc/CodeGen/CodeGenPrepare.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmc/CodeGen/CodeGenPrepare.cpp b/cmmc/CodeGen/CodeGenPrepare.cpp
index 9824d9a..bd86277 100644
--- a/cmmc/CodeGen/CodeGenPrepare.cpp
+++ b/cmmc/CodeGen/CodeGenPrepare.cpp
@@ -411,6 +411,10 @@ class CommonBaseOpt final : public TransformPass<Function> {
                     const auto baseU = gepInsts[i]->lastOperand();
                     const auto baseV = gepInsts[j]->lastOperand();
 
+                    // the same indices have the same scales only if the bases are of the same type
+                    if(!baseU->getType()->isSame(baseV->getType()))
+                        continue;
+
                     const auto argU = gepInsts[i]->arguments();
                     const auto argV = gepInsts[j]->arguments();
                     if(argU.size() != argV.size())
-- 
2.43.0


From 3fd02791c69ce76ce438adb1a368b326ac97e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 12/46] fix: codegen: CommonBaseOpt must not rebase the alloc
 or phi its pivot is computed from

---
 cmmc/CodeGen/CodeGenPrepare.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmc/CodeGen/CodeGenPrepare.cpp b/cmmc/CodeGen/CodeGenPrepare.cpp
index bd86277..6c5fa61 100644
--- a/cmmc/CodeGen/CodeGenPrepare.cpp
+++ b/cmmc/CodeGen/CodeGenPrepare.cpp
@@ -511,6 +511,10 @@ class CommonBaseOpt final : public TransformPass<Function> {
                         replace.emplace(k, basePtr);
                         continue;
                     }
+                    // the pivot itself may be computed from these, and they need not be rebased
+                    if(const auto id = k->as<Instruction>()->getInstID();
+                       id == InstructionID::Alloc || id == InstructionID::Phi)
+                        continue;
                     const auto offset = off - base;
                     const auto ptr = make<PtrAddInst>(basePtr, ConstantInteger::get(IntegerType::get(32), offset), k->getType());
                     ptr->insertBefore(block, insertPoint);
-- 
2.43.0


From 87e2fc15935a9184fc7adba7fd2978eec267e99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:32 +0000
Subject: [PATCH 13/46] fix: arm: legalise smax/smin with an inverted constant

---
 cmmc/Target/ARM/ARMISelInfo.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cmmc/Target/ARM/ARMISelInfo.cpp b/cmmc/Target/ARM/ARMISelInfo.cpp
index b1b8235..b24b500 100644
--- a/cmmc/Target/ARM/ARMISelInfo.cpp
+++ b/cmmc/Target/ARM/ARMISelInfo.cpp
@@ -821,7 +821,7 @@ static bool legalizeInst(MIRInst& inst, ISelContext& ctx) {
             imm2reg(lhs);
             MIROperand rhsImmInverted;
             if(rhs.isImm() && !isOperandOp2Constant(rhs) && !selectInvertedOp2Constant(rhs, rhsImmInverted)) {
-                imm2reg(lhs);
+                imm2reg(rhs);
             }
             break;
         }
@@ -994,6 +994,21 @@ void ARMISelInfo::preRALegalizeInst(const InstLegalizeContext& ctx) const {
                 MIRInst{ MOV_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
             break;
         }
+        case PseudoSMax_Inverted:
+        case PseudoSMin_Inverted: {
+            // CMN lhs, ~rhs compares lhs with rhs + 1
+            auto dst = inst.getOperand(0);
+            auto lhs = inst.getOperand(1);
+            auto op2 = inst.getOperand(2);
+            auto cc = inst.getOperand(3);
+
+            ctx.instructions.insert(ctx.iter, MIRInst{ MoveGPR }.setOperand<0>(dst).setOperand<1>(lhs));
+            auto cf =
+                MIROperand::asImm(inst.opcode() == PseudoSMin_Inverted ? CondField::GE : CondField::LT, OperandType::CondField);
+            *ctx.iter =
+                MIRInst{ MVN_Cond }.setOperand<0>(cf).setOperand<1>(dst).setOperand<2>(op2).setOperand<3>(cc).setOperand<4>(dst);
+            break;
+        }
         case PseudoFMA: {
             auto dst = inst.getOperand(0);
             auto x = inst.getOperand(1);
-- 
2.43.0


From 9d048f22c3fa7bb74fe180eaeebc48225972b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 14/46] fix: riscv: two zero stores to the stack are one double
 word store only when they are adjacent

---
 cmmc/Target/RISCV/RISCVScheduleModel.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cmmc/Target/RISCV/RISCVScheduleModel.cpp b/cmmc/Target/RISCV/RISCVScheduleModel.cpp
index 3206724..eda7f8f 100644
--- a/cmmc/Target/RISCV/RISCVScheduleModel.cpp
+++ b/cmmc/Target/RISCV/RISCVScheduleModel.cpp
@@ -537,14 +537,17 @@ static bool foldStoreZero(MIRFunction& func, MIRBasicBlock& block, const CodeGen
         if(isStoreZero(prevInst, 0) && isStoreZero(inst, 4)) {
             const auto prevBase = prevInst.getOperand(2);
             const auto base = inst.getOperand(2);
-            if(!isOperandStackObject(prevBase) || !isOperandStackObject(base)) {
-                if(prevBase != base)
-                    continue;
-                const auto prevOffset = prevInst.getOperand(1).imm();
-                const auto offset = inst.getOperand(1).imm();
-                if(prevOffset + 4 != offset)
-                    continue;
-            }
+            if(!prevInst.getOperand(1).isImm() || !inst.getOperand(1).isImm())
+                continue;
+            auto prevOffset = prevInst.getOperand(1).imm();
+            auto offset = inst.getOperand(1).imm();
+            if(isOperandStackObject(prevBase) && isOperandStackObject(base)) {
+                prevOffset += func.stackObjects().at(prevBase).offset;
+                offset += func.stackObjects().at(base).offset;
+            } else if(prevBase != base)
+                continue;
+            if(prevOffset + 4 != offset)
+                continue;
             inst.setOpcode(SD);
             inst.setOperand<1>(prevInst.getOperand(1));
             inst.setOperand<2>(prevInst.getOperand(2));
-- 
2.43.0


From 57fbfc606e68c2257d3b24af67ca4dda797b110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 15/46] fix: each nested brace of an array initializer starts
 the largest sub-array aligned to its own position

---
 cmmc/Frontend/EmitIR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 19385a0..116a646 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1572,14 +1572,14 @@ void ArrayInitializer::gatherArrayElementsImpl(EmitContext& ctx, uint32_t& offse
                                                const std::vector<uint32_t>& sizes, std::map<uint32_t, Expr*>& values) const {
     assert(offset % sizes[layer] == 0);
     const auto upperBound = offset + sizes[layer];
-    uint32_t nextLayer = std::numeric_limits<uint32_t>::max();
     for(auto element : mElements) {
+        uint32_t nextLayer = std::numeric_limits<uint32_t>::max();
         if(auto subArray = dynamic_cast<ArrayInitializer*>(element)) {
             if(element == mElements.front()) {  // begins with an opening brace
                 nextLayer = layer + 1;
                 if(nextLayer >= sizes.size())
                     DiagnosticsContext::get().attach<Reason>("too many braces in array initializer").reportFatal();
-            } else if(nextLayer == std::numeric_limits<uint32_t>::max()) {
+            } else {
                 for(uint32_t idx = layer + 1; idx < sizes.size(); ++idx) {
                     if(offset % sizes[idx] == 0) {
                         nextLayer = idx;
-- 
2.43.0


From 09c866a71a7ad1ec32bcefdfd5c4629e537ee0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 16/46] fix: zero-initialize the rows a static array
 initializer leaves out

---
 cmmc/Frontend/EmitIR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 116a646..831c8b4 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1644,8 +1644,8 @@ ConstantValue* ArrayInitializer::shapeAwareEmitStaticImpl(EmitContext& ctx, cons
             auto endIter = values.lower_bound(end);
 
             if(begIter != endIter) {
-                if(elements.size() != idx)
-                    DiagnosticsContext::get().attach<Reason>("sparse array initialization is not supported").reportFatal();
+                while(elements.size() != idx)  // elements without initializers are zero-initialized
+                    elements.push_back(make<ConstantArray>(subArrayType, Vector<ConstantValue*>{}));
                 elements.push_back(shapeAwareEmitStaticImpl(ctx, values, beg, subArrayType, dstQualifier));
             }
         }
-- 
2.43.0


From 093e6e6bd7e646dc0f4400e30942aca7caf15b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 17/46] fix: register allocator: when every register is spilled
 already, spill again around each use instead of giving up

---
 cmmc/CodeGen/GraphColoringRegisterAllocator.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp b/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
index 8ef68e1..9827ec1 100644
--- a/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
+++ b/cmmc/CodeGen/GraphColoringRegisterAllocator.cpp
@@ -132,7 +132,7 @@ public:
                 }
             }
         }
-        assert(best != invalidReg && isVirtualReg(best));
+        assert(best == invalidReg || isVirtualReg(best));
         return best;
     }
 
@@ -173,6 +173,7 @@ static void graphColoringAllocateImpl(MIRFunction& mfunc, CodeGenContext& ctx, I
     const auto& list = ctx.registerInfo->getAllocationList(allocationClass);
     const std::unordered_set<uint32_t> allocableISARegs{ list.cbegin(), list.cend() };
     std::unordered_set<uint32_t> blockList;
+    bool minimizeInterval = false;
     bool fixHazard = ctx.scheduleModel.getInfo().enablePostRAScheduling && !ctx.scheduleModel.getInfo().hasRegRenaming;
     constexpr auto debugRA = false;
 
@@ -610,6 +611,12 @@ static void graphColoringAllocateImpl(MIRFunction& mfunc, CodeGenContext& ctx, I
 
         // Spill register
         auto u = graph.pickToSpill(blockList, weights, k);
+        if(u == invalidReg && !minimizeInterval) {
+            // The registers spilled so far are still live from their reload to the end of the block. Spill them again around each use.
+            minimizeInterval = true;
+            blockList.clear();
+            u = graph.pickToSpill(blockList, weights, k);
+        }
         blockList.insert(u);
         if(debugRA) {
             std::cerr << "spill " << (u ^ virtualRegBegin) << std::endl;
@@ -634,7 +641,7 @@ static void graphColoringAllocateImpl(MIRFunction& mfunc, CodeGenContext& ctx, I
 
         std::unordered_set<MIRInst*> newInsts;
         const uint32_t minimizeIntervalThreshold = 8;
-        const auto fallback = blockList.size() >= minimizeIntervalThreshold;
+        const auto fallback = minimizeInterval || blockList.size() >= minimizeIntervalThreshold;
 
         for(auto& block : mfunc.blocks()) {
             auto& instructions = block->instructions();
-- 
2.43.0


From b59924ad04927e916f1f5587ad79ffc16d569530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 18/46] fix: arm: a conditional branch to the next block at the
 end of a block has no instructions to predicate

---
 cmmc/Target/ARM/ARMScheduleModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmc/Target/ARM/ARMScheduleModel.cpp b/cmmc/Target/ARM/ARMScheduleModel.cpp
index cffac2e..bac729e 100644
--- a/cmmc/Target/ARM/ARMScheduleModel.cpp
+++ b/cmmc/Target/ARM/ARMScheduleModel.cpp
@@ -515,6 +515,8 @@ static bool branchToNext2ConditionalImpl(MIRBasicBlock& block, MIRBasicBlock* ne
             const auto cf = inst.getOperand(0);
             const auto cc = inst.getOperand(2);
             *iter = MIRInst{ InstCopy }.setOperand<0>(tmp).setOperand<1>(tmp);
+            if(iter == insts.rbegin())  // nothing to skip
+                return true;
             for(auto it = std::prev(iter);; --it) {
                 switch(it->opcode()) {
                     case ADD:
-- 
2.43.0


From c8e89bc44ff1066c22d1b4ef82bde04c5fe96384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 19/46] fix: mips: a branch on a comparison with INT_MIN needs
 -INT_MIN as an immediate, which does not exist

---
 cmmc/Target/MIPS/MIPS.yml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Target/MIPS/MIPS.yml b/cmmc/Target/MIPS/MIPS.yml
index 721f4d0..ca5b922 100644
--- a/cmmc/Target/MIPS/MIPS.yml
+++ b/cmmc/Target/MIPS/MIPS.yml
@@ -473,7 +473,7 @@ InstSelection:
             Lhs: $Lhs
             Rhs: $Rhs
             Op: $Op
-            $Predicate: isOperandIReg($Lhs) && isOperandImm32($Rhs) && isICmpSignedRationalOp($Op) && ctx.isSafeToUse($Lhs, $Dst)
+            $Predicate: isOperandIReg($Lhs) && isOperandImm32($Rhs) && isOperandImm32(getNeg($Rhs)) && isICmpSignedRationalOp($Op) && ctx.isSafeToUse($Lhs, $Dst)
         Tgt: $Reloc
         Prob: $Prob
     Replace:
-- 
2.43.0


From 9bf3323301662974a37fcf09877e2a4a117bade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 20/46] fix: ArithmeticReduce: x >= y in a conjunction of
 comparisons becomes x > y - 1, not x < y - 1

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index c651ae4..72d686f 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1299,7 +1299,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
                             break;
                         }
                         case CompareOp::ICmpSignedGreaterEqual: {
-                            op = CompareOp::ICmpSignedLessThan;
+                            op = CompareOp::ICmpSignedGreaterThan;
                             val = addOffset(val, -1);
                             break;
                         }
-- 
2.43.0


From ce0422aed32aa3d42572e72695a44997e8e3974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 21/46] fix: riscv: the quotient of x / -2 is a 32-bit
 difference, sign-extend it

---
 cmmc/Target/RISCV/RISCV.yml         | 2 +-
 cmmc/Target/RISCV/RISCVISelInfo.cpp | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmmc/Target/RISCV/RISCV.yml b/cmmc/Target/RISCV/RISCV.yml
index eadd8fb..8715b8d 100644
--- a/cmmc/Target/RISCV/RISCV.yml
+++ b/cmmc/Target/RISCV/RISCV.yml
@@ -1074,7 +1074,7 @@ InstSelection:
         LogDividend: $LogDividend
         LogDivisor: $LogDivisor
         NonNegativeHint: $NonNegativeHint
-        $Predicate: isOperandI32($Dst) && isOperandIReg($Lhs) && selectSDiv32ByConstant($Rhs, [$Magic], [$Shift], [$Factor]) && isSDivExpandProfitable($LogDividend, $LogDivisor, $NonNegativeHint, $Factor, false) && buildMul64Imm(ctx, $Lhs, $Magic, $Factor, [$Out]) && buildSRAIW(ctx, $Out, $Shift, [$SRAOut])
+        $Predicate: isOperandI32($Dst) && isOperandIReg($Lhs) && selectSDiv32ByConstant($Rhs, [$Magic], [$Shift], [$Factor]) && isSDivExpandProfitable($LogDividend, $LogDivisor, $NonNegativeHint, $Factor, false) && buildMul64Imm(ctx, $Lhs, $Magic, $Factor, $Shift, [$Out]) && buildSRAIW(ctx, $Out, $Shift, [$SRAOut])
     Replace:
       ADD:
         Rd: $Dst
diff --git a/cmmc/Target/RISCV/RISCVISelInfo.cpp b/cmmc/Target/RISCV/RISCVISelInfo.cpp
index f7bab72..6e1cd8a 100644
--- a/cmmc/Target/RISCV/RISCVISelInfo.cpp
+++ b/cmmc/Target/RISCV/RISCVISelInfo.cpp
@@ -295,7 +295,7 @@ constexpr RISCVInst getFloatingPointBinaryOpcode(uint32_t opcode) {
 }
 
 static bool buildMul64Imm(ISelContext& ctx, const MIROperand& lhs, const MIROperand& rhsImm, const MIROperand& factor,
-                          MIROperand& out) {
+                          const MIROperand& shift, MIROperand& out) {
     const auto mulRes = getVReg64As(ctx, lhs);
     if(isPowerOf2(static_cast<size_t>(rhsImm.imm()))) {
         const auto shift = ilog2(static_cast<size_t>(rhsImm.imm()));
@@ -305,18 +305,19 @@ static bool buildMul64Imm(ISelContext& ctx, const MIROperand& lhs, const MIROper
     }
     out = getVReg64As(ctx, lhs);
     ctx.newInst(SRLI).setOperand<0>(out).setOperand<1>(mulRes).setOperand<2>(MIROperand::asImm(32, OperandType::Int32));
+    // the result is the quotient itself unless buildSRAIW shifts it: it must be sign-extended then
     switch(factor.imm()) {
         case 0:
             break;
         case 1: {
             const auto sum = getVReg64As(ctx, lhs);
-            ctx.newInst(ADD).setOperand<0>(sum).setOperand<1>(out).setOperand<2>(lhs);
+            ctx.newInst(isZero(shift) ? ADDW : ADD).setOperand<0>(sum).setOperand<1>(out).setOperand<2>(lhs);
             out = sum;
             break;
         }
         case -1: {
             const auto sum = getVReg64As(ctx, lhs);
-            ctx.newInst(SUB).setOperand<0>(sum).setOperand<1>(out).setOperand<2>(lhs);
+            ctx.newInst(isZero(shift) ? SUBW : SUB).setOperand<0>(sum).setOperand<1>(out).setOperand<2>(lhs);
             out = sum;
             break;
         }
-- 
2.43.0


From 7594a749e1ce02a185cd6ff84941a98714eb15a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 22/46] fix: codegen: a comparison is not redundant when a
 pending select between it and its twin will set the flags

---
 cmmc/CodeGen/Peephole.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmc/CodeGen/Peephole.cpp b/cmmc/CodeGen/Peephole.cpp
index 48a7ead..358f828 100644
--- a/cmmc/CodeGen/Peephole.cpp
+++ b/cmmc/CodeGen/Peephole.cpp
@@ -499,6 +499,11 @@ static bool deadInstElimination(MIRFunction& func, const CodeGenContext& ctx) {
                 lastDefine.clear();
                 return false;
             }
+            // a comparison or select that is not selected yet may clobber ISA registers, e.g. the flags
+            if(inst.opcode() == InstSelect || inst.opcode() == InstICmp || inst.opcode() == InstFCmp) {
+                for(auto it = lastDefine.begin(); it != lastDefine.end();)
+                    it = isOperandISAReg(it->first) ? lastDefine.erase(it) : std::next(it);
+            }
             for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx) {
                 if(instInfo.getOperandFlag(idx) & OperandFlagDef) {
                     auto& op = inst.getOperand(idx);
-- 
2.43.0


From 0ce8050fadebc371e740b1a579ea4c28e1c5bbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 23/46] fix: codegen: flags may not be read across a select
 that is still to be selected

---
 cmmc/CodeGen/ISelInfo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/CodeGen/ISelInfo.cpp b/cmmc/CodeGen/ISelInfo.cpp
index a94f04b..a877fbc 100644
--- a/cmmc/CodeGen/ISelInfo.cpp
+++ b/cmmc/CodeGen/ISelInfo.cpp
@@ -255,6 +255,9 @@ bool ISelContext::isDefinedAfter(const MIROperand& operand, const MIRInst& inst,
         auto& instInfo = mCodeGenCtx.instInfo.getInstInfo(iter->opcode());
         if(requireFlag(instInfo.getInstFlag(), InstFlag::InstFlagCall))
             return getIter();
+        // it may clobber ISA registers, e.g. the flags, once it is selected
+        if(isOperandISAReg(operand) && (iter->opcode() == InstSelect || iter->opcode() == InstICmp || iter->opcode() == InstFCmp))
+            return getIter();
         for(uint32_t idx = 0; idx < instInfo.getOperandNum(); ++idx)
             if(instInfo.getOperandFlag(idx) & OperandFlagDef) {
                 if(operand == iter->getOperand(idx))
-- 
2.43.0


From fdd3d81d083519ce29fc0ccf22b5e73ec67aeb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 24/46] fix: ImmutableScalarRefArg2Value: the referenced scalar
 must not change while the function runs, and recursive calls must pass it on

---
 cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp b/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
index 4574fda..2f3e781 100644
--- a/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
+++ b/cmmc/Transforms/Misc/ImmutableScalarRefArg2Value.cpp
@@ -62,6 +62,13 @@ class ImmutableScalarRefArg2Value final : public TransformPass<Module> {
             }
             return false;
         }
+        // recursive calls are not redirected to the wrapper, they must pass the argument on
+        for(auto user : arg->getFunc()->users()) {
+            if(user->getBlock()->getFunction() != arg->getFunc())
+                continue;
+            if(user->getInstID() != InstructionID::Call || user->lastOperand() != arg->getFunc() || user->getOperand(idx) != arg)
+                return false;
+        }
         return true;
     }
 
@@ -77,6 +84,9 @@ public:
                     continue;
                 if(func->getLinkage() != Linkage::Internal)
                     continue;
+                // the referenced scalar must not change while the function runs
+                if(!func->attr().hasAttr(FunctionAttribute::NoMemoryWrite))
+                    continue;
                 const auto type = func->getType();
                 bool optArg = false;
                 uint32_t idx = 0;
-- 
2.43.0


From d579cb3a73e361fdbf7ffeca2eb92d70acf8ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 25/46] fix: SimplifyCFG: leave jumps of infinite loops alone,
 redirecting them never ended

---
 cmmc/CodeGen/SimplifyCFG.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmmc/CodeGen/SimplifyCFG.cpp b/cmmc/CodeGen/SimplifyCFG.cpp
index 2ba0420..f524a52 100644
--- a/cmmc/CodeGen/SimplifyCFG.cpp
+++ b/cmmc/CodeGen/SimplifyCFG.cpp
@@ -42,6 +42,22 @@ bool redirectGoto(MIRFunction& func, const CodeGenContext& ctx) {
         }
     }
 
+    // A block that jumps back to itself through such blocks only is an infinite loop: there is nothing to redirect.
+    std::vector<const MIRBasicBlock*> cyclic;
+    for(auto [block, target] : redirect) {
+        const MIRBasicBlock* cur = target;
+        for(size_t step = 0; step < redirect.size() && cur != block; ++step) {
+            const auto iter = redirect.find(cur);
+            if(iter == redirect.cend())
+                break;
+            cur = iter->second;
+        }
+        if(cur == block)
+            cyclic.push_back(block);
+    }
+    for(auto block : cyclic)
+        redirect.erase(block);
+
     if(redirect.empty())
         return false;
 
-- 
2.43.0


From 997175338ab3b415f978a4d3eb6f72aaa79fb7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 26/46] fix: BlockOutliner: an entry block that only jumps to
 its copy is done, repeating it was reported as partial optimization

---
 cmmc/Transforms/Merge/BlockOutliner.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Merge/BlockOutliner.cpp b/cmmc/Transforms/Merge/BlockOutliner.cpp
index 7777eeb..d246252 100644
--- a/cmmc/Transforms/Merge/BlockOutliner.cpp
+++ b/cmmc/Transforms/Merge/BlockOutliner.cpp
@@ -154,8 +154,13 @@ public:
         bool modified = false;
 
         // handle entry block
+        const auto isForwardedTo = [&](Block* block) {
+            const auto terminator = entry->getTerminator();
+            return entry->instructions().size() == 1 && terminator->getInstID() == InstructionID::Branch &&
+                terminator->as<BranchInst>()->getTrueTarget() == block;
+        };
         for(auto& block : blocks[entry->instructions().size()]) {
-            if(isEqual(block, entry)) {
+            if(isEqual(block, entry) && !isForwardedTo(block)) {
                 entry->instructions().clear();
                 IRBuilder builder{ moduleTarget, entry };
                 builder.makeOp<BranchInst>(block);
-- 
2.43.0


From b57180d5ee85b42527b151dba3c4ce6e538c27be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 27/46] fix: TAC: express boolean and/or/xor with arithmetic,
 the target could not select them

---
 cmmc/Target/TAC/TACISelInfo.cpp | 35 +++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/cmmc/Target/TAC/TACISelInfo.cpp b/cmmc/Target/TAC/TACISelInfo.cpp
index c2f2582..0030516 100644
--- a/cmmc/Target/TAC/TACISelInfo.cpp
+++ b/cmmc/Target/TAC/TACISelInfo.cpp
@@ -120,6 +120,41 @@ bool TACISelInfo::lowerInst(Instruction* inst, LoweringContext& loweringCtx) con
             return true;
         }
     }
+    // TAC has no bitwise operators: express those on booleans with integer arithmetic.
+    if(inst->getType()->isBoolean()) {
+        const auto emitBinary = [&](uint32_t opcode, const MIROperand& lhs, const MIROperand& rhs) {
+            auto dst = loweringCtx.newVReg(lhs.type());
+            loweringCtx.emitInst(MIRInst{ opcode }.setOperand<0>(dst).setOperand<1>(lhs).setOperand<2>(rhs));
+            return dst;
+        };
+        switch(inst->getInstID()) {
+            case InstructionID::And: {
+                const auto lhs = loweringCtx.mapOperand(inst->getOperand(0));
+                const auto rhs = loweringCtx.mapOperand(inst->getOperand(1));
+                // lhs & rhs -> lhs * rhs
+                loweringCtx.addOperand(inst, emitBinary(InstMul, lhs, rhs));
+                return true;
+            }
+            case InstructionID::Or: {
+                const auto lhs = loweringCtx.mapOperand(inst->getOperand(0));
+                const auto rhs = loweringCtx.mapOperand(inst->getOperand(1));
+                // lhs | rhs -> lhs + rhs - lhs * rhs
+                loweringCtx.addOperand(
+                    inst, emitBinary(InstSub, emitBinary(InstAdd, lhs, rhs), emitBinary(InstMul, lhs, rhs)));
+                return true;
+            }
+            case InstructionID::Xor: {
+                const auto lhs = loweringCtx.mapOperand(inst->getOperand(0));
+                const auto rhs = loweringCtx.mapOperand(inst->getOperand(1));
+                // lhs ^ rhs -> (lhs - rhs) * (lhs - rhs)
+                const auto diff = emitBinary(InstSub, lhs, rhs);
+                loweringCtx.addOperand(inst, emitBinary(InstMul, diff, diff));
+                return true;
+            }
+            default:
+                break;
+        }
+    }
     return false;
 }
 void TACISelInfo::lowerIndirectJump(MIRJumpTable* jumpTable, const MIROperand& offset, LoweringContext& ctx) const {
-- 
2.43.0


From cf8a632ef34d2d8c00dc1aa1c3588e6c9e45d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 28/46] fix: ArithmeticReduce: introduce xor and lshr only
 where the target supports them

---
 cmmc/Transforms/Combine/ArithmeticReduce.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmc/Transforms/Combine/ArithmeticReduce.cpp b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
index 72d686f..05de153 100644
--- a/cmmc/Transforms/Combine/ArithmeticReduce.cpp
+++ b/cmmc/Transforms/Combine/ArithmeticReduce.cpp
@@ -1035,7 +1035,8 @@ class ArithmeticReduce final : public TransformPass<Function> {
             }
 
             // zext (x < 0) -> x lsr (bitwidth - 1)
-            if(zext(oneUse(icmp(cmp, any(v1), cint_(0))))(matchCtx) && inst->getType()->isSame(v1->getType())) {
+            if(target.isNativeSupported(InstructionID::LShr) && zext(oneUse(icmp(cmp, any(v1), cint_(0))))(matchCtx) &&
+               inst->getType()->isSame(v1->getType())) {
                 bool usedByCmp = false;
                 for(auto user : inst->users()) {
                     if(user->getInstID() == InstructionID::ICmp) {
@@ -1248,7 +1249,7 @@ class ArithmeticReduce final : public TransformPass<Function> {
             //                                        make<ConstantFloatingPoint>(v1->getType(), f1 + f2));
             // }
 
-            if(sub(capture(cint_(-1), v1), any(v2))(matchCtx))
+            if(target.isNativeSupported(InstructionID::Xor) && sub(capture(cint_(-1), v1), any(v2))(matchCtx))
                 return builder.makeOp<BinaryInst>(InstructionID::Xor, v2, v1);
 
             if(icmp(cmp, add(zext(boolean(v1)), cint_(1)), cint_(1))(matchCtx)) {
-- 
2.43.0


From 3d7481c9f81ed310b5c6eedc4e5b4f8d742b89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:08 +0000
Subject: [PATCH 29/46] fix: EmitIR: values trimmed after a terminator may be
 used by later unreachable blocks

---
 cmmc/Frontend/EmitIR.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 831c8b4..5806448 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -229,6 +229,11 @@ void FunctionDefinition::emit(EmitContext& ctx) {
             for(auto iter = insts.begin(); iter != insts.end(); ++iter) {
                 if(iter->isTerminator()) {
                     ++iter;
+                    // blocks that are emitted after the terminator may refer to the trimmed values
+                    for(auto trimmed = iter; trimmed != insts.end(); ++trimmed) {
+                        if(trimmed->canbeOperand())
+                            trimmed->replaceWith(make<UndefinedValue>(trimmed->getType()));
+                    }
                     DisableValueRefCheckScope scope;
                     insts.erase(iter, insts.end());
                     hasTerminator = true;
-- 
2.43.0


From 1a671b539baa373776cf0e4a08ebdf2721cdd206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:21 +0000
Subject: [PATCH 30/46] fix: EmitIR: fields of a struct are signed, the
 qualifier of the struct says nothing about them

---
 cmmc/Frontend/EmitIR.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 5806448..9aeba89 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1128,7 +1128,9 @@ QualifiedValue StructIndexExpr::emit(EmitContext& ctx) const {
         DiagnosticsContext::get().attach<InvalidField>(structType->name(), mField).reportFatal();
     }
     const auto ptr = ctx.makeOp<GetElementPtrInst>(base, std::vector<Value*>{ ctx.getZeroIndex(), offset });
-    return { ptr, ValueQualifier::AsLValue, qualifier };  // TODO: sign/unsign mutable/const qualifier from struct field
+    // TODO: mutable/const qualifier from struct field
+    // Fields are signed: no supported language has unsigned types, and the qualifier of the struct says nothing about them.
+    return { ptr, ValueQualifier::AsLValue, Qualifier{ qualifier.isConst, true } };
 }
 
 QualifiedValue GotoExpr::emit(EmitContext& ctx) const {
-- 
2.43.0


From b69fce3580eccd059b30a3072d2fe7fe93e45ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 31/46] fix: loadTAC: the value of a declared object is its
 first word

---
 cmmc/Conversion/TAC.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmc/Conversion/TAC.cpp b/cmmc/Conversion/TAC.cpp
index b2dc991..d018f2b 100644
--- a/cmmc/Conversion/TAC.cpp
+++ b/cmmc/Conversion/TAC.cpp
@@ -80,7 +80,11 @@ void loadTAC(Module& module, const std::string& path) {
     auto getRValue = [&](const TACOperand& operand) -> Value* {
         switch(operand.kind) {
             case TACOperandType::Variable: {
-                const auto addr = getLValue(operand);
+                auto addr = getLValue(operand);
+                if(!addr->getType()->as<PointerType>()->getPointee()->isSame(i32)) {
+                    // the value of a declared object is its first word
+                    addr = builder.makeOp<GetElementPtrInst>(addr, std::vector{ builder.getZeroIndex(), builder.getZeroIndex() });
+                }
                 return builder.makeOp<LoadInst>(addr);
             }
             case TACOperandType::Pointer: {
-- 
2.43.0


From f44e836d5b54a1eb98b96606ca9b47aefe3e607c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 32/46] fix: LoopCanonicalize inserted the new bound after the
 terminator of an otherwise empty entry block

---
 cmmc/Transforms/Loop/LoopCanonicalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Loop/LoopCanonicalize.cpp b/cmmc/Transforms/Loop/LoopCanonicalize.cpp
index e1191c4..0e2758a 100644
--- a/cmmc/Transforms/Loop/LoopCanonicalize.cpp
+++ b/cmmc/Transforms/Loop/LoopCanonicalize.cpp
@@ -115,7 +115,7 @@ public:
                             } else {
                                 for(auto& inst : func.entryBlock()->instructions())
                                     if(inst.getInstID() != InstructionID::Alloc) {
-                                        newBound->insertBefore(func.entryBlock(), std::next(inst.asIterator()));
+                                        newBound->insertBefore(func.entryBlock(), inst.isTerminator() ? inst.asIterator() : std::next(inst.asIterator()));
                                         break;
                                     }
                             }
-- 
2.43.0


From 0d40a8b742aa6f175837f7c16a35c24fe64e4521 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 03:55:49 +0000
Subject: [PATCH 33/46] fix: constant * 1 became a copy of an immediate, which
 no target can allocate

---
 cmmc/CodeGen/MultiplyByConstant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmc/CodeGen/MultiplyByConstant.cpp b/cmmc/CodeGen/MultiplyByConstant.cpp
index 8d75c1f..c07dc2f 100644
--- a/cmmc/CodeGen/MultiplyByConstant.cpp
+++ b/cmmc/CodeGen/MultiplyByConstant.cpp
@@ -180,7 +180,7 @@ static bool expandMulWithConstantImpl(MIRInstList& instructions, CodeGenContext&
     if(v2 < 0) {
         *iter = MIRInst{ InstSub }.setOperand<0>(dst).setOperand<1>(MIROperand::asImm(0, type)).setOperand<2>(ret);
     } else {
-        *iter = MIRInst{ InstCopy }.setOperand<0>(dst).setOperand<1>(ret);
+        *iter = MIRInst{ ret.isImm() ? InstLoadImm : InstCopy }.setOperand<0>(dst).setOperand<1>(ret);
     }
     return true;
 }
-- 
2.43.0


From 306f4c9e6e6531bd81c7e40c8b3c05fdcdbbcaa6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:56:07 +0000
Subject: [PATCH 34/46] fix: ModuloOpt: bound the sum that replaces nested
 remainders, shared operands made it exponentially larger than the code

---
 cmmc/Transforms/Combine/ModuloOpt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmc/Transforms/Combine/ModuloOpt.cpp b/cmmc/Transforms/Combine/ModuloOpt.cpp
index 5365051..650c6c9 100644
--- a/cmmc/Transforms/Combine/ModuloOpt.cpp
+++ b/cmmc/Transforms/Combine/ModuloOpt.cpp
@@ -43,6 +43,8 @@ CMMC_NAMESPACE_BEGIN
 
 class ModuloOpt final : public TransformPass<Function> {
     static constexpr uint32_t depth = 5;
+    // operands are shared (e.g. x, y = y, (x + y) % m, unrolled): the expanded sum may be exponentially larger than the code
+    static constexpr size_t maxComponents = 32;
 
     static void collectSum(Value* val, Instruction* ctx, std::vector<Value*>& components, IntegerRange& r,
                            const IntegerRangeAnalysisResult& range, const DominateAnalysisResult& dom, intmax_t mod,
@@ -72,7 +74,7 @@ class ModuloOpt final : public TransformPass<Function> {
                 return;
         }
         intmax_t i1;
-        if(allowCrossSRem && srem(any(v1), int_(i1))(MatchContext<Value>{ val }) && i1 == mod) {
+        if(allowCrossSRem && components.size() < maxComponents && srem(any(v1), int_(i1))(MatchContext<Value>{ val }) && i1 == mod) {
             const auto r2 = range.query(v1, dom, ctx, depth);
             const auto newRange = r + r2;
             if(!checkOverflow || newRange.isNoSignedOverflow()) {
-- 
2.43.0


From 935c9d6442d3ec704413f6cbff24c8786066c961 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 35/46] fix: codegen: deadInstElimination ignored the second
 definition (flags) of an instruction and dropped a later comparison

---
 cmmc/CodeGen/Peephole.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmc/CodeGen/Peephole.cpp b/cmmc/CodeGen/Peephole.cpp
index 358f828..b6bc89e 100644
--- a/cmmc/CodeGen/Peephole.cpp
+++ b/cmmc/CodeGen/Peephole.cpp
@@ -518,7 +518,8 @@ static bool deadInstElimination(MIRFunction& func, const CodeGenContext& ctx) {
                             lastDefine[op] = { &inst, ver };
                         version[op] = ++versionIdx;
                     }
-                    return false;
+                    if(!requireFlag(instInfo.getInstFlag(), InstFlagMultiDef))
+                        return false;
                 }
             }
             return false;
-- 
2.43.0


From 346e56e293d27ddaedb04581ee844b3e98cf9cdf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 04:58:27 +0000
Subject: [PATCH 36/46] fix: arm: unused flags of an instruction that also
 computes a value stopped the compilation with 'Unreachable code'

---
 cmmc/Target/ARM/ARMScheduleModel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmc/Target/ARM/ARMScheduleModel.cpp b/cmmc/Target/ARM/ARMScheduleModel.cpp
index bac729e..a69e023 100644
--- a/cmmc/Target/ARM/ARMScheduleModel.cpp
+++ b/cmmc/Target/ARM/ARMScheduleModel.cpp
@@ -431,8 +431,9 @@ static bool removeUnusedDefCC(MIRBasicBlock& block, const CodeGenContext& ctx) {
                 lastDef = insts.end();
                 break;
             }
-            default:
-                reportUnreachable(CMMC_LOCATION());
+            default:  // e.g. SUBS, still needed for its result
+                lastDef = insts.end();
+                break;
         }
     };
 
-- 
2.43.0


From 1f27b8db36b8a2b6cb3e8cd97085849e63670090 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:01:10 +0000
Subject: [PATCH 37/46] fix: arm: a comparison with zero was dropped although
 the flags had been replaced by a fused one

---
 cmmc/Target/ARM/ARMScheduleModel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/Target/ARM/ARMScheduleModel.cpp b/cmmc/Target/ARM/ARMScheduleModel.cpp
index a69e023..688a4ff 100644
--- a/cmmc/Target/ARM/ARMScheduleModel.cpp
+++ b/cmmc/Target/ARM/ARMScheduleModel.cpp
@@ -338,6 +338,9 @@ static bool optimizeFusedCompareWithZero(MIRBasicBlock& block, const CodeGenCont
             }
 
             if(changed) {
+                // the flags no longer belong to the values that were compared before
+                if(!ccCmpWithZero.count(src.reg()))
+                    ccCmpWithZero = { src.reg() };
                 insts.erase(iter);
                 lastDef.clear();
                 modified = true;
-- 
2.43.0


From b2f7ab5db43261f93c6e40ccd36e650bbfdd5620 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 05:50:48 +0000
Subject: [PATCH 38/46] fix: tac: reads of a stack object were register copies,
 so the ones after a store could be taken as redundant

---
 cmmc/Target/TAC/TAC.yml         | 8 ++++++--
 cmmc/Target/TAC/TACISelInfo.cpp | 6 ------
 cmmc/Target/TAC/TACInstInfo.cpp | 9 ++-------
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/cmmc/Target/TAC/TAC.yml b/cmmc/Target/TAC/TAC.yml
index fac2839..176be8a 100644
--- a/cmmc/Target/TAC/TAC.yml
+++ b/cmmc/Target/TAC/TAC.yml
@@ -26,6 +26,10 @@ InstInfo:
     Format: $Dst:VReg[Def] := *$Src:VReg[Use]
     Flag: [Load]
 
+  FetchObj:
+    Format: $Dst:VReg[Def] := $Src:StackObject[Metadata]
+    Flag: [Load]
+
   Deref:
     Format: "*$Dst:VReg[Use] := $Src:Val[Use]"
     Flag: [Store]
@@ -100,9 +104,9 @@ InstSelection:
           InstLoadStackObjectAddr:
             Obj: $Obj
     Replace:
-      InstCopy:
+      FetchObj:
         Dst: $Dst
-        Src: convertToVal($Obj)
+        Src: $Obj
 
   - Pattern:
       InstStore:
diff --git a/cmmc/Target/TAC/TACISelInfo.cpp b/cmmc/Target/TAC/TACISelInfo.cpp
index 0030516..4858c18 100644
--- a/cmmc/Target/TAC/TACISelInfo.cpp
+++ b/cmmc/Target/TAC/TACISelInfo.cpp
@@ -39,12 +39,6 @@ static TACInst getBranchOpcode(const MIROperand& op) {
     }
 }
 
-constexpr uint32_t directStackAccessOffset = 1 << 20;
-static MIROperand convertToVal(const MIROperand& obj) {
-    assert(isStackObject(obj.reg()));
-    return MIROperand::asVReg((obj.reg() ^ stackObjectBegin) + directStackAccessOffset, obj.type());
-}
-
 constexpr TACInst getIntegerBinaryOpcode(uint32_t opcode) {
     switch(opcode) {
         case InstAdd:
diff --git a/cmmc/Target/TAC/TACInstInfo.cpp b/cmmc/Target/TAC/TACInstInfo.cpp
index 5b4e220..66ae628 100644
--- a/cmmc/Target/TAC/TACInstInfo.cpp
+++ b/cmmc/Target/TAC/TACInstInfo.cpp
@@ -23,19 +23,14 @@ struct OperandDumper final {
     const mir::MIROperand& operand;
 };
 
-constexpr uint32_t directStackAccessOffset = 1 << 20;
 static std::ostream& operator<<(std::ostream& out, const OperandDumper& operand) {
     auto& op = operand.operand;
     if(op.isImm()) {
         return out << '#' << op.imm();
     }
     if(op.isReg()) {
-        if(isVirtualReg(op.reg())) {
-            const auto val = op.reg() ^ virtualRegBegin;
-            if(val >= directStackAccessOffset)
-                return out << 'x' << (val - directStackAccessOffset);
-            return out << 'v' << val;
-        }
+        if(isVirtualReg(op.reg()))
+            return out << 'v' << (op.reg() ^ virtualRegBegin);
         if(isStackObject(op.reg()))
             return out << 'x' << (op.reg() ^ stackObjectBegin);
     }
-- 
2.43.0


From 0f78d101a0ee484020c3b31d6815cafa60a0a3fc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:42:12 +0000
Subject: [PATCH 39/46] fix: EmitIR: a diagnostic about a global variable had
 no source location (crash in strict mode)

---
 cmmc/Frontend/EmitIR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 9aeba89..ac5a9f2 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1763,6 +1763,7 @@ QualifiedValue EmptyExpr::emit(EmitContext&) const {
 
 void GlobalVarDefinition::emit(EmitContext& ctx) const {
     Stage stage{ "emit global"sv };
+    EmitContext::pushLoc(var.loc);
 
     auto module = ctx.getModule();
     auto& dataLayout = module->getTarget().getDataLayout();
@@ -1815,6 +1816,8 @@ void GlobalVarDefinition::emit(EmitContext& ctx) const {
         global->attr().addAttr(GlobalVariableAttribute::ReadOnly);
     }
     ctx.addIdentifier(var.name, QualifiedValue{ global, ValueQualifier::AsLValue, type.qualifier });
+
+    EmitContext::popLoc();
 }
 
 void StructDefinition::emit(EmitContext& ctx) const {
-- 
2.43.0


From e8dabff79575cb1d5ddb2cd8135bdafa93480dd3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:42:12 +0000
Subject: [PATCH 40/46] fix: EmitIR: the end of a function that returns a
 structure got 'ret void undef' (Invalid IR)

---
 cmmc/Frontend/EmitIR.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index ac5a9f2..69c13f4 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -243,7 +243,8 @@ void FunctionDefinition::emit(EmitContext& ctx) {
             if(!hasTerminator) {
                 // fix terminator
                 ctx.setCurrentBlock(funcBlock);
-                if(retType->isVoid() && !callInfo.passingRetValByPointer) {
+                if(retType->isVoid()) {
+                    // a structure is returned through a pointer
                     ctx.makeOp<ReturnInst>();
                 } else {
                     // ctx.makeOp<UnreachableInst>();
-- 
2.43.0


From 8569569a5b7ceeefbd3005c70e6632496c4c4745 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:42:33 +0000
Subject: [PATCH 41/46] fix: EmitIR: a structure variable initialised with a
 structure got a store of its address (Invalid IR)

---
 cmmc/Frontend/EmitIR.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 69c13f4..75b44f1 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1034,7 +1034,10 @@ QualifiedValue LocalVarDefExpr::emit(EmitContext& ctx) const {
                         .reportFatal();
                 const auto val = ctx.getRValue(initExpr, type, mType.qualifier, ConversionUsage::Initialization);
                 if(!val->isUndefined()) {
-                    ctx.makeOp<StoreInst>(local, val);
+                    if(type->isStruct())
+                        ctx.copyStruct(local, val);
+                    else
+                        ctx.makeOp<StoreInst>(local, val);
 
                     if(val->isConstant() && mType.qualifier.isConst)
                         ctx.addConstant(local, val);
-- 
2.43.0


From 9d1041585a276c91b189b3c2840361071a64286f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:47:59 +0000
Subject: [PATCH 42/46] fix: EmitIR: in strict mode an array where another
 pointer type is expected aborted instead of the conversion diagnostic

---
 cmmc/Frontend/EmitIR.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 75b44f1..78fff86 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1226,8 +1226,11 @@ Value* EmitContext::convertTo(Value* value, const Type* type, Qualifier srcQuali
         if(pointee->isArray()) {
             auto base = makeOp<GetElementPtrInst>(value, std::vector{ getZeroIndex(), getZeroIndex() });
             while(!base->getType()->isSame(type)) {
-                if(!base->getType()->as<PointerType>()->getPointee()->isArray())
+                if(!base->getType()->as<PointerType>()->getPointee()->isArray()) {
+                    if(strictMode.get())
+                        return reportConversionErrorSpl(*this, type, usage);
                     DiagnosticsContext::get().attach<Reason>("cannot decay array to pointer").reportFatal();
+                }
                 base = makeOp<GetElementPtrInst>(base, std::vector{ getZeroIndex(), getZeroIndex() });
             }
             return base;
-- 
2.43.0


From 7b748b0429495f2f10e6ec04fac40c0144f0986b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 06:48:21 +0000
Subject: [PATCH 43/46] fix: EmitIR: in strict mode an int was accepted where a
 char is expected (the converse was rejected)

---
 cmmc/Frontend/EmitIR.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 78fff86..3931f7b 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1252,8 +1252,9 @@ Value* EmitContext::convertTo(Value* value, const Type* type, Qualifier srcQuali
                                        make<ConstantFloatingPoint>(srcType, 0.0));
         }
     } else if(srcType->isInteger() && type->isInteger()) {
-        if(strictMode.get() && srcType->getFixedSize() != sizeof(int32_t))  // i32->i64 index promotion
-            return reportConversionErrorSpl(*this, type, usage);            // implicit sext/trunc is not allowed
+        if(strictMode.get() &&
+           (srcType->getFixedSize() != sizeof(int32_t) || type->getFixedSize() < sizeof(int32_t)))  // i32->i64 index promotion
+            return reportConversionErrorSpl(*this, type, usage);  // implicit sext/trunc is not allowed
 
         if(value->isConstant() && !value->isUndefined()) {
             const auto cint = value->as<ConstantInteger>();
-- 
2.43.0


From 466ccc774cb17ecb58abf761fd2cad9199debfad Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 07:00:03 +0000
Subject: [PATCH 44/46] fix: EmitIR: in strict mode an array of structures was
 accepted where a structure is expected

---
 cmmc/Frontend/EmitIR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 3931f7b..3789776 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -1318,7 +1318,11 @@ std::pair<Value*, Qualifier> EmitContext::getRValue(Expr* expr) {
     return getRValue(expr->emitWithLoc(*this));
 }
 Value* EmitContext::getRValue(Expr* expr, const Type* type, Qualifier dstQualifier, ConversionUsage usage) {
-    const auto [val, valQualifier] = getRValue(expr);
+    const auto res = expr->emitWithLoc(*this);
+    if(strictMode.get() && type->isStruct() && res.valueQualifier == ValueQualifier::AsLValue &&
+       res.value->getType()->as<PointerType>()->getPointee()->isArray())
+        return reportConversionErrorSpl(*this, type, usage);  // an array of structures is not a structure
+    const auto [val, valQualifier] = getRValue(res);
     if(type->isStruct())
         return convertTo(val, PointerType::get(type), valQualifier, Qualifier::getDefault(), usage);
     return convertTo(val, type, valQualifier, dstQualifier, usage);
-- 
2.43.0


From ee17424899d9e1922a30fa788e83a3e796f8d6a0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 07:08:30 +0000
Subject: [PATCH 45/46] fix: riscv: adding zero to the zero register became a
 load of the immediate 0, which stops the compilation

---
 cmmc/Target/RISCV/RISCVScheduleModel.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmmc/Target/RISCV/RISCVScheduleModel.cpp b/cmmc/Target/RISCV/RISCVScheduleModel.cpp
index eda7f8f..9b52180 100644
--- a/cmmc/Target/RISCV/RISCVScheduleModel.cpp
+++ b/cmmc/Target/RISCV/RISCVScheduleModel.cpp
@@ -875,8 +875,12 @@ static bool simplifyOpWithZero(MIRFunction& func, const CodeGenContext&) {
                 }
                 case ADDI:
                 case ADDIW: {
-                    if(isZero(1))
-                        resetToLoadImm(2);
+                    if(isZero(1)) {
+                        if(inst.getOperand(2).isImm() && inst.getOperand(2).imm() == 0)
+                            resetToZero();
+                        else
+                            resetToLoadImm(2);
+                    }
                     break;
                 }
                 case SUBW: {
-- 
2.43.0


From 3c47a7f4a6c701c8892f03dc2ff595ffbbfd23b7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Fri, 20 Nov 2026 07:28:10 +0000
Subject: [PATCH 46/46] fix: EmitIR: unary minus was accepted on arrays,
 structures and calls without a value

---
 cmmc/Frontend/EmitIR.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmmc/Frontend/EmitIR.cpp b/cmmc/Frontend/EmitIR.cpp
index 3789776..27d6aeb 100644
--- a/cmmc/Frontend/EmitIR.cpp
+++ b/cmmc/Frontend/EmitIR.cpp
@@ -674,6 +674,16 @@ QualifiedValue UnaryExpr::emit(EmitContext& ctx) const {
 
     switch(mOp) {
         case OperatorID::Neg:
+            if(value->getType()->isInvalid())  // already reported
+                return QualifiedValue::asRValue(value, valueQualifier);
+            if(!value->getType()->isInteger() && !value->getType()->isFloatingPoint()) {
+                if(strictMode.get())
+                    return QualifiedValue::asRValue(
+                        reportSplError(ctx, InvalidType::get(), 7U, DiagnosticsContext::get().current<SourceLocation>(),
+                                       [](std::ostream& out) { out << "unary minus is only allowed for scalar types"sv; }),
+                        valueQualifier);
+                DiagnosticsContext::get().attach<Reason>("unary minus is only allowed for scalar types").reportFatal();
+            }
             return QualifiedValue::asRValue(
                 ctx.makeOp<UnaryInst>(value->getType()->isInteger() ? InstructionID::Neg : InstructionID::FNeg, value),
                 valueQualifier);
-- 
2.43.0

