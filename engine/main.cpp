#include <llvm/Analysis/ValueTracking.h>
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include <pthread.h>
#include <fstream>
#include <cstring>
#include <unistd.h>

using namespace llvm;

// Insert a scheduling call before every atomic instruction, so that a natively
// compiled copy takes the same scheduling decisions as the symbolic run.
static int instrument(Module& M, const std::string& out) {
    FunctionCallee fc = M.getOrInsertFunction("jrt_sched_point", Type::getVoidTy(M.getContext()));
    FunctionCallee fm = M.getOrInsertFunction("jrt_mem_point", Type::getVoidTy(M.getContext()), PointerType::getUnqual(M.getContext()));
    for (Function& F : M) for (BasicBlock& B : F) {
        std::vector<Instruction*> ins;
        for (Instruction& I : B)
            if (I.isAtomic() && !isa<FenceInst>(I)) ins.push_back(&I);
            else if (Value* p = getLoadStorePointerOperand(&I)) { if (!isa<AllocaInst>(getUnderlyingObject(p))) ins.push_back(&I); }
        for (Instruction* I : ins) {
            IRBuilder<> b(I);
            CallInst* c = I->isAtomic() ? b.CreateCall(fc) : b.CreateCall(fm, {getLoadStorePointerOperand(I)});
            if (F.getSubprogram() && !I->getDebugLoc())
                c->setDebugLoc(DILocation::get(M.getContext(), 0, 0, F.getSubprogram()));
        }
    }
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(M, os);
    return 0;
}

struct Job { Exec* E; };
static void* worker(void* p) {
    Job* j = (Job*)p;
    j->E->run();
    return nullptr;
}

int main(int argc, char** argv) {
    Config c;
    std::string bc, inst;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") c.entry = nx();
        else if (a == "--max-time") c.maxTime = atof(nx().c_str());
        else if (a == "--max-steps") c.maxSteps = strtoull(nx().c_str(), 0, 10);
        else if (a == "--max-paths") c.maxPaths = strtoull(nx().c_str(), 0, 10);
        else if (a == "--max-viol") c.maxViol = atoi(nx().c_str());
        else if (a == "--solver-ms") c.solverMs = atoi(nx().c_str());
        else if (a == "--samples") c.samples = atoi(nx().c_str());
        else if (a == "--out") c.out = nx();
        else if (a == "--repo") c.repo = nx();
        else if (a == "--arg") c.arg = strtoull(nx().c_str(), 0, 10);
        else if (a == "--debug") c.debug = true;
        else if (a == "--dump") c.dumpDir = nx();
        else if (a == "--dump-n") c.dumpN = atoi(nx().c_str());
        else if (a == "--mem-mb") c.memLimitMB = strtoull(nx().c_str(), 0, 10);
        else if (a == "--instrument") inst = nx();
        else bc = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> m = parseIRFile(bc, err, ctx);
    if (!m) { err.print("jsym", errs()); return 3; }
    if (!inst.empty()) return instrument(*m, inst);
    Exec E(m.get(), c);
    Job j{&E};
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 2048UL << 20);
    pthread_t th;
    if (pthread_create(&th, &at, worker, &j)) { perror("pthread_create"); return 3; }
    pthread_join(th, nullptr);
    std::string js = E.resultJson();
    if (c.out.empty()) printf("%s\n", js.c_str());
    else { std::ofstream f(c.out); f << js << "\n"; }
    fflush(stdout);
    _exit(E.viols.empty() ? 0 : 1);
}
