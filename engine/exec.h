#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <vector>
#include <memory>
#include <functional>

struct Val { u64 c; Expr* e; };
static inline Val VC(u64 c) { return Val{c, nullptr}; }

enum ObjKind : u8 { OGlobal, OStack, OMalloc, ONew, ONewArr, OExc, OOther };

struct Obj {
    u32 rc;
    ObjKind kind;
    bool freed, ro;
    u64 base, size;
    u8* d;
    Expr** s;
    const char* name;
    const llvm::Instruction* site;
    signed char linear;   // -1 unknown, 0 no, 1 yes (const tables)
};

struct Chunk { u32 rc; Obj* o[256]; };

struct AddrSpace {
    std::vector<Chunk*> chunks;
    std::vector<u32> freeStack;   // reusable stack slots
    u32 nextSlot = 1;
    AddrSpace() {}
    AddrSpace(const AddrSpace& o);
    ~AddrSpace();
    static const u64 BASE = 0x100000000000ULL;
    static const unsigned SH = 16;
    Obj* find(u64 addr) const {
        u64 i = (addr - BASE) >> SH;
        if (addr < BASE || (i >> 8) >= chunks.size()) return nullptr;
        Chunk* c = chunks[i >> 8];
        return c ? c->o[i & 255] : nullptr;
    }
    void setSlot(u32 slot, Obj* o);
    Obj* alloc(u64 size, ObjKind k, u64 align, const char* name, const llvm::Instruction* site);
    Obj* writable(Obj* o);
    bool owned(Obj* o) const {      // single slot, not shared with another state
        if (o->rc != 1 || o->size > 0xff00) return false;
        u64 i = (o->base - BASE) >> SH;
        return chunks[i >> 8]->rc == 1;
    }
    void release(Obj* o);     // mark freed, drop contents
    void freeStackObj(u64 base);
private:
    AddrSpace& operator=(const AddrSpace&) = delete;
};

struct Op { bool k; u32 slot; Val v; const std::vector<Val>* agg; };

struct DFunc;
struct DInst;
struct Exec;
struct State;
struct Edge { u32 ip; std::vector<std::pair<u32, Op>> phis; std::vector<u32> phiN; bool anyAgg = false; u32 bb; };

typedef void (*Builtin)(Exec&, State&, DInst&, std::vector<Val>&);

struct CallInfo {
    llvm::Function* fn = nullptr;
    DFunc* df = nullptr;
    Builtin bi = nullptr;
    Op target;
    std::vector<Op> args;
    std::vector<u32> argN;
    std::vector<u64> byval;         // size if byval, else 0
    u32 retN = 0;
    std::string name;
};

struct GepInfo { u64 cst; std::vector<std::pair<Op, std::pair<unsigned, u64>>> idx; };
struct SwitchInfo { std::vector<std::pair<u64, Edge*>> cases; Edge* def; };
struct Leaf { unsigned w; u64 off; };
struct LPad { bool cleanup; struct Cl { bool filter; std::vector<u64> types; }; std::vector<Cl> cls; };

struct DInst {
    u16 op;
    u16 sub;
    u16 w;         // result / operand width
    u16 w2;
    u32 dst;
    u32 n;         // slots of the result
    std::vector<Op> ops;
    Edge* e0 = nullptr; Edge* e1 = nullptr;
    CallInfo* ci = nullptr;
    GepInfo* gi = nullptr;
    SwitchInfo* si = nullptr;
    std::vector<Leaf>* leaves = nullptr;
    LPad* lp = nullptr;
    std::vector<int>* mask = nullptr;
    u64 imm = 0;
    llvm::Instruction* I = nullptr;
    bool cov = false;
    bool vis = false;   // visible operation (scheduling point)
    bool memop = false; // plain access that is a scheduling point when it touches shared memory
};

struct DFunc {
    llvm::Function* F;
    bool decoded = false;
    u32 nslots = 0;
    std::vector<DInst> code;
    std::vector<u32> argSlot, argN;
    u64 calls = 0;
    std::string name;
    std::string file;
    bool repo = false;
};

struct Frame {
    DFunc* f;
    u32 ip;
    std::vector<Val> r;
    std::vector<u64> allocas;
    std::vector<Val> varargs;
};

enum TStat : u8 { TRun, TMutex, TCond, TJoin, TDone, TRLock };
struct Thread {
    bool schedDone = false;   // scheduling decision for the visible instruction at ip already taken
    std::vector<Frame> st;
    TStat stat = TRun;
    u64 waitOn = 0;
    u64 waitMutex = 0;
    bool timedOut = false;
    bool canTimeout = false;
    bool yielded = false;
    u64 retval = 0;
    // exception machinery
    std::vector<u64> caught;
    u64 curExc = 0;
    std::map<u64, u64> tls;
};

struct Input { std::string name; Expr* e; u64 c; unsigned w; };

struct State {
    AddrSpace mem;
    std::vector<Thread> thr;
    int cur = 0;
    std::vector<Expr*> cons;
    std::unordered_set<u32> consIds;
    std::vector<u32> fixed;          // symbols the path condition pins to one value (sorted)
    std::shared_ptr<Model> model;
    std::vector<Input> inputs;
    std::vector<Val> obs;
    u64 steps = 0;
    u64 forks = 0;
    int preempts = 0;
    int spurious = 0; bool timeouts = false;   // budget of spurious wake-ups; timed waits may expire at any time
    int preemptBudget = 0;
    Expr* pendSched = nullptr; std::vector<int> schedRun;
    int spinThr = -1, spin = 0;      // consecutive visible operations of one thread
    i64 liveHeap = 0;
    u64 heapBytes = 0;
    std::set<u32> cover;
    u64 schedPoints = 0;
    std::vector<std::pair<u64, u64>> shared;   // memory whose plain accesses are scheduling points
    bool shareHeap = false;
};

struct Violation { std::string kind, msg, loc; std::vector<std::pair<std::string, std::pair<u64, unsigned>>> inputs; std::string trace; };
struct PathEnd { };

struct Config {
    std::string entry = "harness";
    u64 maxSteps = 20000000;      // per path
    double maxTime = 60;
    u64 maxPaths = 1000000000ULL;
    unsigned maxViol = 3;
    unsigned solverMs = 20000;
    unsigned samples = 6;
    u64 shard = 0, nshards = 1;
    bool trace = false;
    bool debug = false;
    std::string repo = "/repo/";
    std::string out;
    std::string dumpDir; unsigned dumpN = 0;
    u64 memLimitMB = 6000;
    u64 arg = 0;
};

struct Exec {
    bool stepSkipped = false;
    Config cfg;
    llvm::Module* M;
    const llvm::DataLayout* DL;
    Solver solver;
    std::vector<State*> work;
    std::unordered_map<const llvm::Function*, DFunc*> funcs;
    std::unordered_map<const llvm::GlobalValue*, u64> gaddr;
    std::unordered_map<u64, llvm::Function*> faddr;
    std::unordered_map<u64, Builtin> fbuiltin;
    std::unordered_map<std::string, Builtin> builtins;
    std::unordered_map<u64, u32> typeIds;
    std::map<u64, std::string> typeName;
    std::vector<Violation> viols;
    std::set<std::string> violKeys;
    std::map<u64, const llvm::GlobalVariable*> tlsInit;

    u64 paths = 0, pathsAssumed = 0, pathsViol = 0, pathsIncomplete = 0, totalSteps = 0, branches = 0, forks = 0, asserts = 0, assertQ = 0, memQ = 0;
    std::map<std::string, u64> incompleteWhy;
    std::set<u32> cover;
    bool stopped = false; std::string stopWhy;
    std::vector<std::string> samples;
    u64 maxStepsSeen = 0;
    double t0;

    Exec(llvm::Module* m, const Config& c);
    void run();
    std::string resultJson();

    // --- helpers
    DFunc* getFunc(llvm::Function* F);
    void decode(DFunc* f);
    void initGlobals(State& s);
    void initConst(State& s, Obj* o, u64 off, llvm::Constant* c);
    Val constScalar(const llvm::Constant* c);
    void constFlat(const llvm::Constant* c, std::vector<Val>& out);
    void flatten(llvm::Type* t, u64 off, std::vector<Leaf>& out);
    unsigned nSlots(llvm::Type* t);
    Op mkOp(DFunc* f, std::unordered_map<const llvm::Value*, u32>& sm, llvm::Value* v);
    void* pad;

    void runState(State* s);
    void step(State& s);
    u64 fastRun(State& s, u64 budget);
    Val load(State& s, Val addr, unsigned w);
    void store(State& s, Val addr, Val v, unsigned w);
    Val readObj(Obj* o, u64 off, unsigned w);
    void writeObj(Obj* o, u64 off, Val v, unsigned w);
    Obj* resolve(State& s, Val addr, u64 n, bool write, u64& off, Expr*& offE);
    Obj* resolveC(State& s, u64 addr, u64 n, bool write, u64& off);
    void call(State& s, DFunc* f, std::vector<Val>& args, const std::vector<u32>& argN, DInst* cs);
    void doRet(State& s, const std::vector<Val>& rv);
    void jump(State& s, Edge* e);
    void throwExc(State& s, u64 exc);
    bool typeMatch(State& s, u64 thrown, u64 want);
    u32 typeId(u64 a);

    int decide(State& s, Expr* c);         // forks; returns the direction taken in s
    u64 concretize(State& s, Val v, unsigned w);
    void pin(State& s, u32 id);
    void pinUnique(State& s, Expr* e);
    u64 cz(State& s, Val v, unsigned w) { return v.e ? concretize(s, v, w) : v.c; }
    void addCons(State& s, Expr* c);
    bool assume(State& s, Expr* c);
    bool feasible(State& s, Expr* c, Model* out);
    void violation(State& s, const std::string& kind, const std::string& msg, Model* m = nullptr);
    [[noreturn]] void kill(State& s);
    [[noreturn]] void incomplete(State& s, const std::string& why);
    [[noreturn]] void fail(State& s, const std::string& kind, const std::string& msg) { violation(s, kind, msg); kill(s); }
    std::string where(State& s);
    std::string backtrace(State& s);
    Frame& fr(State& s) { return s.thr[s.cur].st.back(); }
    void setRes(State& s, DInst& I, Val v) { if (I.n) fr(s).r[I.dst] = v; }
    State* clone(State& s);
    void pathDone(State& s);
    bool schedule(State& s, DInst& I);    // returns false if another thread was switched in
    bool switchAway(State& s);            // current thread cannot run: pick another
    std::string cstr(State& s, u64 addr, u64 maxn = 1 << 16);
    Expr* ex(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
    Val mkV(Expr* e) { if (isC(e) && e->w <= 64) return VC(e->val); return Val{0, e}; }
    void memCopy(State& s, u64 dst, u64 src, u64 n);
    u64 heapAlloc(State& s, u64 n, ObjKind k, u64 align, const llvm::Instruction* site);
    void heapFree(State& s, u64 a, ObjKind k);
    std::string format(State& s, const std::string& f, const std::function<Val(unsigned)>& next);
    Val tlsAddr(State& s, u64 g);
    u64 newInput(State& s, const std::string& name, unsigned w, Expr*& out);
};
void registerBuiltins(Exec& E);
double nowSec();
