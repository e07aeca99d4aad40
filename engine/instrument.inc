// --instrument=OUT: turn the analysed bitcode into a natively runnable module for trace replay.
// Every visible operation goes through the replay scheduler (rt/native.cpp), everything else is unchanged.
static int instrument(Module& Md, const std::string& out)
{
    static const char* ren[] = {"pthread_create", "pthread_join", "pthread_detach", "pthread_self", "pthread_equal", "sched_yield", "pthread_mutex_init", "pthread_mutex_destroy",
        "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_wait", "pthread_cond_timedwait",
        "pthread_cond_clockwait", "pthread_cond_broadcast", "pthread_cond_signal", "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "_Znwm", "_Znam",
        "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t",
        "_ZdaPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "exit", "_exit", "rand"};
    for (auto n : ren) if (auto* F = Md.getFunction(n)) if (F->isDeclaration()) F->setName(std::string("vfn_") + n);
    FunctionCallee fill = Md.getOrInsertFunction("vfn_fill", Type::getVoidTy(Ctx), PointerType::get(Ctx, 0), Type::getInt64Ty(Ctx));
    FunctionCallee sp = Md.getOrInsertFunction("vfn_sched", Type::getVoidTy(Ctx));
    for (auto& F : Md) {
        if (F.isDeclaration()) continue;
        F.addFnAttr(Attribute::SanitizeAddress);
        F.removeFnAttr(Attribute::NoSync);
        std::vector<Instruction*> at;
        for (auto& I : instructions(F)) if (I.isAtomic() && !isa<FenceInst>(I)) at.push_back(&I);
        for (auto* I : at) { IRBuilder<> B(I); B.CreateCall(sp); }
        std::vector<std::pair<Instruction*, AllocaInst*>> fl; // where a local variable comes to life
        for (auto& I : instructions(F)) {
            auto* A = dyn_cast<AllocaInst>(&I);
            if (!A || !isa<ConstantInt>(A->getArraySize())) continue;
            bool marked = false;
            for (auto* U : A->users()) if (auto* II = dyn_cast<IntrinsicInst>(U)) if (II->getIntrinsicID() == Intrinsic::lifetime_start) { fl.push_back({II->getNextNode(), A}); marked = true; }
            if (!marked) { Instruction* n = A->getNextNode(); while (isa<AllocaInst>(n)) n = n->getNextNode(); fl.push_back({n, A}); }
        }
        for (auto& x : fl) {
            IRBuilder<> B(x.first);
            B.CreateCall(fill, {x.second, B.getInt64(Md.getDataLayout().getTypeAllocSize(x.second->getAllocatedType()).getFixedValue() * cast<ConstantInt>(x.second->getArraySize())->getZExtValue())});
        }
        if (F.getName() != opt_entry) F.setLinkage(GlobalValue::InternalLinkage);
        F.setComdat(nullptr);
    }
    for (auto& G : Md.globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { if (!G.hasLocalLinkage()) G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr); }
    for (auto& A : Md.aliases()) A.setLinkage(GlobalValue::InternalLinkage);
    if (auto* G = Md.getGlobalVariable("llvm.used")) G->eraseFromParent();
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    if (ec) return 2;
    WriteBitcodeToFile(Md, os);
    return 0;
}
