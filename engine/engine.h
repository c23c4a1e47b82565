#pragma once
#include "state.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <functional>
#include <queue>

struct Stop {};              // the current state was replaced or abandoned

struct Violation
{
	std::string kind, where, msg, trail, fn;
	unsigned long count = 1;
};

struct JoinEntry
{
	State st;                    // the joined state
	bool has = false, isReturn = false, late = false;
	int exitOf = -1;             // header of the loop left, for states waiting for the loop to be finished
	std::vector<State> pend;
	unsigned visits = 0, depth = 0, bb = 0;
	const FnInfo* fi = nullptr;  // function which the state continues in
	unsigned long order = 0;
	const llvm::CallBase* call = nullptr; // for returns
	// what is known of the slots of the joined state
	struct Eq { Z q; std::vector<std::pair<unsigned, Z>> t; Z c; }; // sum of t = c
	std::vector<Eq> eqs;
	std::vector<Z> lo, hi;
	struct Rel { unsigned a, b; Z p, q, lo, hi; }; // p*a + q*b is in [lo, hi]
	std::vector<Rel> rels;
	std::vector<std::pair<unsigned, std::pair<Z, Z>>> mods; // the slot is congruent to the first number modulo the second one
	size_t base = 0;                         // symbols taken over from the states joined
	std::vector<std::pair<unsigned, Lin>> kept; // slots, which are expressions over them
};

struct Config
{
	int rank = 0, nproc = 1;
	int kappa = 19;                 // digits in the ghost significand
	unsigned maxViol = 12;
	std::set<std::string> kinds; // those which are asked for (all, if empty); others are noted, but don't end the analysis
	unsigned long maxStepsPerPath = 400000, maxStates = 20000000;
	double deadline = 0;            // wall clock
	bool checkUninit = true, noAlloc = false;
	long bigStep = 1, bigPhase = 0, bigEdge = 8;  // sample of big splits
	std::set<long> bigAt;           // and values always taken
	bool rankSplit = false;         // every worker runs the same partition and takes its share of big splits
};

class Engine
{
public:
	llvm::Module& M;
	const llvm::DataLayout& DL;
	Config cfg;
	std::map<const llvm::Function*, std::unique_ptr<FnInfo>> fns;
	std::vector<State> work;
	std::map<std::string, std::unique_ptr<JoinEntry>> joins;
	unsigned long joinOrder = 0;
	std::vector<JoinEntry*> waiting;   // entries with pending states
	size_t waitingLive = 0;
	std::map<std::string, Violation> viols;
	std::map<std::string, std::pair<unsigned long, unsigned long>> oblig; // kind -> (checked, proved)
	std::map<std::string, unsigned long> counts;
	std::set<std::string> fnSeen;
	std::string entryWhere, entryName; // the public function the entry calls
	std::string incomplete;  // unsupported construct found
	std::map<const llvm::GlobalVariable*, int> globalObj;
	State base;              // globals only
	std::function<void(Engine&, State&, const Val&)> onReturn;
	std::function<void(Engine&, State&, const llvm::CallBase*, const std::string&, const std::vector<Val>&)> onExternal;
	const llvm::Instruction* cur = nullptr;
	unsigned long leaves = 0, forks = 0, totalSteps = 0;
	bool tooMany = false;
	unsigned ours = 0, others = 0;
	// tells whether the state may be split into finer ones before an obligation is given up
	std::function<bool(Engine&, State&)> refineState;

	Engine(llvm::Module& m);

	FnInfo* info(const llvm::Function* f);
	State start(const llvm::Function* f);
	void run(State s);

	// --- obligations
	std::string where(const llvm::Instruction* i);
	void violation(State& s, const std::string& kind, const std::string& msg);
	bool check(State& s, const std::string& kind, bool ok, const std::string& msg);
	[[noreturn]] void abandon() { throw Stop(); }
	[[noreturn]] void unsupported(const std::string& what);

	// --- decisions
	bool textOver(State& s, bool isReturn);
	void push(State&& s);
	std::vector<State> later;
	bool drained = false;
	size_t digest = 0;       // of what was shared out among the workers
	size_t altNo = 0;
	void pushAlt(State& s, const std::function<void(State&)>& f);
	bool decideGE(State& s, const Lin& e);
	bool decideEQ(State& s, const Lin& e);
	Lin asU(State& s, const Val& v);
	Lin asS(State& s, const Val& v);
	Z enumerate(State& s, const Lin& e, unsigned long limit, const char* what);

	// --- memory
	int newObj(State& s, OK kind, const Lin& size, const std::string& name);
	void access(State& s, const Val& p, const Z& size, bool write, int& obj, Lin& off, unsigned prefix = 0);
	Val load(State& s, const Val& p, llvm::Type* ty);
	void store(State& s, const Val& p, const Val& v, llvm::Type* ty);
	Val loadScalar(State& s, const Val& p, unsigned bytes, llvm::Type* ty);
	void storeScalar(State& s, const Val& p, unsigned bytes, const Val& v);
	void storeCell(State& s, int obj, long off, unsigned bytes, const Val& v);
	Val loadCell(State& s, int obj, long off, unsigned bytes, bool ptr, bool& undef);
	void eraseRange(Obj& o, long off, long bytes);
	Val loadString(State& s, const Lin& off, unsigned bytes);
	[[noreturn]] void materialize(State& s);
	void advance(State s, int cls, const Lin& c, std::vector<State>& out);
	void copyMem(State& s, const Val& d, const Val& src, const Lin& n, bool move);
	void setMem(State& s, const Val& d, const Val& b, const Lin& n, unsigned unit);

	// --- execution
	Val constant(State& s, const llvm::Constant* c);
	Val get(State& s, const llvm::Value* v);
	void set(State& s, const llvm::Instruction* i, const Val& v);
	void step(State& s);
	void enterBlock(State& s, unsigned b);
	void doCall(State& s, const llvm::CallBase* cb);
	bool model(State& s, const llvm::CallBase* cb, const llvm::Function* f, const std::vector<Val>& a);
	void finishCall(State& s, const llvm::CallBase* cb, const Val& r);
	void doReturn(State& s, const Val& r);
	Val binop(State& s, const llvm::Instruction* i, unsigned op, const Val& a, const Val& b, unsigned w, bool nsw);
	Val andOp(State& s, const Val& a, const Val& b, unsigned w);
	Lin andMask(State& s, const Lin& x, const Z& m, unsigned w);
	bool fcmp(State& s, unsigned pred, const Val& a, const Val& b, unsigned w);
	void truncCheck(State& s);
	Val mulVal(State& s, const Val& a, const Val& b, unsigned w);

	// --- joins
	[[noreturn]] void defer(State& s, unsigned header);
	[[noreturn]] void joinPoint(State& s, bool isReturn, const llvm::CallBase* call, bool late = false);
	[[noreturn]] void joinCall(State& s, const llvm::CallBase* call, const Val& v);
	std::function<void(Engine&, State&, const llvm::CallBase*, const Val&)> onJoinedCall;
	void visitSlots(State& s, bool isReturn, std::string* key, std::vector<Lin*>& slots);
	bool covered(const JoinEntry& e, State& n);
	bool rawSlots = false;
	void merge(JoinEntry& e);
	bool popJoin();
	void tagEntry(State& s, Frame& f);
	bool readsAfter(const State& s, bool isReturn);
	bool mayRead(const llvm::Function* f);
	void scanInfo(FnInfo& fi, llvm::LoopInfo& li);
	std::map<const llvm::Function*, bool> readsMemo;
	unsigned elemBits = 8;
	std::string only;
	bool scanMode = false;
	void work1();
};

Z fpBits(double d);
