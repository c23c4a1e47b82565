// Abstract program states: values, memory objects, call frames.
#pragma once
#include "dom.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <map>
#include <set>
#include <unordered_map>

template<class T> class Cow
{
	T* n;
public:
	Cow() : n(nullptr) {}
	explicit Cow(T* x) : n(x) { ++n->rc; }
	Cow(const Cow& o) : n(o.n) { if (n) ++n->rc; }
	Cow(Cow&& o) noexcept : n(o.n) { o.n = nullptr; }
	~Cow() { if (n && --n->rc == 0) delete n; }
	Cow& operator=(Cow o) { std::swap(n, o.n); return *this; }
	const T* operator->() const { return n; }
	const T& operator*() const { return *n; }
	T& mut() { if (n->rc > 1) { T* x = new T(*n); x->rc = 1; --n->rc; n = x; } return *n; }
	explicit operator bool() const { return n; }
};

struct Val
{
	enum Kind : uint8_t { Undef, Int, Ptr, Agg, Fn };
	Kind k = Undef;
	uint16_t w = 0;         // bits, for Int
	int obj = -1;           // object, for Ptr (-1: null)
	Lin l;                  // value (modulo 2^w) or byte offset
	std::shared_ptr<std::vector<Val>> agg;
	const llvm::Function* fn = nullptr;

	static Val mkInt(unsigned w, const Lin& l) { Val v; v.k = Int; v.w = w; v.l = l; return v; }
	static Val mkPtr(int o, const Lin& off) { Val v; v.k = Ptr; v.obj = o; v.l = off; return v; }
	static Val null() { return mkPtr(-1, Lin(0)); }
};

struct Cell { long off; unsigned size; Val v; };

enum class OK : uint8_t { Alloca, Global, Heap, Arg, String, Errno };

struct Obj
{
	int rc = 0;
	OK kind = OK::Alloca;
	bool ro = false, alive = true, isArray = false;
	Lin size;                       // bytes
	const llvm::GlobalVariable* gv = nullptr;
	std::vector<Cell> cells;        // sorted by offset
	std::string name;
};

struct LoopRec { unsigned header; Lin firstRead, prevRead; bool joined = false; unsigned visits = 0; };

struct FnInfo;
struct JoinEntry;
struct Frame
{
	int rc = 0;
	FnInfo* fi = nullptr;
	std::vector<Val> regs;
	unsigned bb = 0, ip = 0;
	int prev = -1;
	const llvm::CallBase* call = nullptr; // the call in the caller
	unsigned objBase = 0;
	std::vector<int> allocas;
	std::vector<LoopRec> loops;
	bool scanned = false;     // the function has read the text
	Lin firstRead;            // where the last read part of the text begins
	std::shared_ptr<const std::map<std::pair<int, long>, Z>> entry; // constants in memory at the entry
};

struct BlockInfo
{
	const llvm::BasicBlock* bb;
	std::vector<const llvm::Instruction*> ins; // without phi nodes
	std::vector<const llvm::PHINode*> phis;
	mutable std::vector<char> seen;    // executed instructions
	bool header = false;
	bool unroll = false;               // header of a loop with a small constant bound of iterations
	bool readsAfter = false;           // the text may be read in this block or in those reachable from it
	std::vector<int> loops;            // header block ids of the loops the block belongs to
	std::set<unsigned> live;           // live registers after the phi nodes
	std::set<unsigned> liveOut;
};
struct FnInfo
{
	const llvm::Function* f;
	unsigned id;
	unsigned nregs;
	llvm::DenseMap<const llvm::Value*, unsigned> num;
	std::vector<BlockInfo> bl;
	bool reads = false;       // the function or those called by it may read the text
	llvm::DenseMap<const llvm::BasicBlock*, unsigned> bnum;
};

// Trail of decisions, for reports
struct TrailN { std::string s; std::shared_ptr<const TrailN> prev; };

// ---------------------------------------------------------------- specification of the accepted text
enum Dfa : uint8_t
{
	D_START, D_SIGN, D_INT, D_DOT0, D_FRAC, D_EXP0, D_EXP1, D_EXPD,
	D_I1, D_I2, D_I3, D_I4, D_I5, D_I6, D_I7, D_N1, D_N2, D_N3, D_NP, D_DONE
};
static const char* const dfaName[] = { "start", "sign", "int", "dot", "frac", "e", "e-sign", "e-digits",
	"i", "in", "inf", "infi", "infin", "infini", "infinit", "n", "na", "nan", "nan(", "done" };

enum class Tok : uint8_t { None, Number, Inf, Nan };

// What the text read so far means.  The number is (sig + phi) * 10^X, where phi in [0, 1) are
// the digits, which don't fit sig.
struct Ghost
{
	bool active = false;
	Dfa st = D_START;
	Tok tok = Tok::None;
	bool neg = false;
	bool nz = false;     // a non-zero digit was read
	int R = 0;           // digits in sig, at most kappa
	bool zr = false;     // zeros are pending after the last digit of sig
	bool tail = false;   // non-zero digits beyond sig
	int n = 0;           // leading digits of the tail kept in TL (up to 4), while reading
	bool dot = false;
	bool hasExp = false, eneg = false, esat = false;
	Lin sig{ 0 }, X{ 0 };
	Lin Zr{ 0 }, FD{ 0 }; // pending zeros, digits after the point
	bool dz = false;     // the point is among the pending zeros
	bool run = false;    // [ZS, ZE) of a tail is valid
	Lin TL{ 0 };         // first n digits of the tail while reading; phi * 10^4 is in [TL, TL + 1] when the number is over
	Lin EV{ 0 };          // absolute value of the exponent part
	Lin A{ 0 };           // accepted length
	Lin ZS{ 0 }, ZE{ 0 }, DP{ 0 }; // pending zeros are at [ZS, ZE); position of the point
	// fallback call
	bool fb = false;
	Val fbBits; Lin fbEnd{ 0 }; int fbCls = 0; int fbErr = 0; // class of the result; errno: 0 left alone, 1 set to ERANGE, 2 set to something else
};

struct StrInfo
{
	int obj = -1;
	unsigned elem = 1, bits = 8;
	bool isSigned = true;
	Lin P{ 0 };                // number of characters read
	long maxLen = 2048;
	bool closed = false;       // terminating NUL was read
	std::vector<Val> win;      // win[i]: character at P-1-i
	bool over = false;         // no instruction, which could read the text, is reachable
};

struct State
{
	std::vector<Cow<Frame>> fr;
	std::vector<Cow<Obj>> objs;
	Dom dom;
	Ghost gh;
	StrInfo str;
	bool shared = true;     // not restricted to the share of one worker yet
	bool sampled = false;   // a large enumeration has been made
	bool readSince = false; // the text has been read since the last join
	bool numeric = false;   // neither the text has been read, nor states have been joined since the return of a function, which has read the text
	size_t part = 0;        // path through those numeric parts, keeps apart at joins what differs by it
	size_t part0 = 0, salt = 0;
	bool released = false;  // the call may be entered now
	bool refined = false;   // split as finely as possible
	unsigned long steps = 0;
	const JoinEntry* src = nullptr; // the joined state it stems from, and the visit of it: superseded by the states of later visits
	unsigned srcVisit = 0;
	std::shared_ptr<const TrailN> trail;
	std::vector<std::pair<Lin, int>> decided; // splits made by the current instruction
	std::map<std::string, Lin> named; // inputs of the analysis, for the checks at the end
	Val retVal;              // value being returned, at a join
	std::shared_ptr<const std::map<std::pair<int, long>, Z>> retEntry;
	Frame& top() { return fr.back().mut(); }
	const Frame& ctop() const { return *fr.back(); }
	void note(const std::string& s) { auto t = std::make_shared<TrailN>(); t->s = s; t->prev = trail; trail = t; }
};
