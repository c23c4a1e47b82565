#include "engine.h"
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <cstring>
#include <cmath>
#include <ctime>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Passes/PassBuilder.h>

using namespace llvm;
DomStats domStats;
bool domChain = false;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

Engine::Engine(Module& m) : M(m), DL(m.getDataLayout())
{
	for (auto& g : M.globals())
	{
		int o = newObj(base, OK::Global, Lin(Z((long)DL.getTypeAllocSize(g.getValueType()))), g.getName().str());
		Obj& ob = base.objs[o].mut();
		ob.gv = &g;
		ob.ro = g.isConstant();
		globalObj[&g] = o;
	}
	int e = newObj(base, OK::Errno, Lin(4), "errno");
	(void)e;
}

FnInfo* Engine::info(const Function* f)
{
	auto& p = fns[f];
	if (p) return p.get();
	p.reset(new FnInfo);
	FnInfo& fi = *p;
	fi.f = f; fi.id = fns.size();
	unsigned n = 0;
	for (auto& a : f->args()) fi.num[&a] = n++;
	for (auto& b : *f)
	{
		fi.bnum[&b] = fi.bl.size();
		fi.bl.emplace_back();
		fi.bl.back().bb = &b;
		for (auto& i : b)
		{
			if (!i.getType()->isVoidTy()) fi.num[&i] = n++;
			if (auto* ph = dyn_cast<PHINode>(&i)) fi.bl.back().phis.push_back(ph);
			else fi.bl.back().ins.push_back(&i);
		}
	}
	for (auto& b : fi.bl) b.seen.assign(b.ins.size(), 0);
	fi.nregs = n;
	DominatorTree dt(*const_cast<Function*>(f));
	LoopInfo li(dt);
	for (auto& b : fi.bl)
	{
		for (Loop* l = li.getLoopFor(b.bb); l; l = l->getParentLoop())
			b.loops.push_back(fi.bnum[l->getHeader()]);
		Loop* l = li.getLoopFor(b.bb);
		b.header = l && l->getHeader() == b.bb;
	}
	if (scanMode) scanInfo(fi, li);
	// liveness
	auto regOf = [&](const Value* v) -> int { auto it = fi.num.find(v); return it == fi.num.end() ? -1 : (int)it->second; };
	bool ch = true;
	while (ch)
	{
		ch = false;
		for (size_t k = fi.bl.size(); k-- > 0;)
		{
			auto& b = fi.bl[k];
			std::set<unsigned> out;
			for (const BasicBlock* sb : successors(b.bb))
			{
				auto& t = fi.bl[fi.bnum[sb]];
				std::set<unsigned> in = t.live;
				for (auto* ph : t.phis) in.erase(regOf(ph));
				for (auto* ph : t.phis) { int r = regOf(ph->getIncomingValueForBlock(b.bb)); if (r >= 0) in.insert(r); }
				out.insert(in.begin(), in.end());
			}
			std::set<unsigned> live = out;
			for (size_t q = b.ins.size(); q-- > 0;)
			{
				auto* i = b.ins[q];
				int d = regOf(i);
				if (d >= 0) live.erase(d);
				for (auto& u : i->operands()) { int r = regOf(u.get()); if (r >= 0) live.insert(r); }
			}
			if (live != b.live || out != b.liveOut) { b.live = live; b.liveOut = out; ch = true; }
		}
	}
	return &fi;
}

// facts used by the analysis of parsing
static bool charLoad(const Instruction& i, unsigned bits)
{
	if (!isa<LoadInst>(i) || !i.getType()->isIntegerTy(bits)) return false;
	const MDNode* t = i.getMetadata(LLVMContext::MD_tbaa);
	if (!t || t->getNumOperands() < 2) return true;
	if (t->getOperand(0) != t->getOperand(1)) return false; // member of a class
	auto* n = dyn_cast_or_null<MDNode>(t->getOperand(1));
	if (!n || !n->getNumOperands()) return true;
	auto* nm = dyn_cast<MDString>(n->getOperand(0));
	if (!nm) return true;
	StringRef x = nm->getString();
	return x == "omnipotent char" || x == "wchar_t" || x == "char16_t" || x == "char32_t";
}
bool Engine::mayRead(const Function* f)
{
	auto it = readsMemo.find(f);
	if (it != readsMemo.end()) return it->second;
	readsMemo[f] = false; // recursion
	bool r = false;
	for (auto& b : *f) for (auto& i : b)
	{
		if (charLoad(i, elemBits)) r = true;
		if (auto* cb = dyn_cast<CallBase>(&i))
		{
			auto* cf = cb->getCalledFunction();
			if (!cf) continue;
			if (cf->isDeclaration() ? cf->getName() == "strlen" || cf->getName() == "wcslen" : mayRead(cf)) r = true;
		}
		if (r) break;
	}
	readsMemo[f] = r;
	return r;
}
// is the loop left as soon as a counter, which begins at a constant, passes another one nearby?
static bool smallCounter(const Loop* l)
{
	const BasicBlock *pre = l->getLoopPredecessor(), *latch = l->getLoopLatch();
	if (!pre || !latch) return false;
	for (auto& ph : l->getHeader()->phis())
	{
		auto* from = dyn_cast<ConstantInt>(ph.getIncomingValueForBlock(pre));
		auto* next = dyn_cast<BinaryOperator>(ph.getIncomingValueForBlock(latch));
		if (!from || !next || ph.getType()->getIntegerBitWidth() > 64) continue;
		if ((next->getOpcode() != Instruction::Add && next->getOpcode() != Instruction::Sub) || next->getOperand(0) != &ph || !isa<ConstantInt>(next->getOperand(1)) || cast<ConstantInt>(next->getOperand(1))->isZero()) continue;
		for (const BasicBlock* bb : l->blocks())
		{
			auto* br = dyn_cast<BranchInst>(bb->getTerminator());
			if (!br || !br->isConditional()) continue;
			auto* c = dyn_cast<ICmpInst>(br->getCondition());
			if (!c) continue;
			const Value* x = c->getOperand(0);
			while (isa<CastInst>(x)) x = cast<CastInst>(x)->getOperand(0);
			auto* k = dyn_cast<ConstantInt>(c->getOperand(1));
			if ((x != &ph && x != next) || !k) continue;
			long d = k->getSExtValue() - from->getSExtValue();
			if (d < -64 || d > 64) continue;
			// does one of the sides lead out of the loop, perhaps by way of a condition made of several?
			for (const BasicBlock* sb : successors(bb))
			{
				if (!l->contains(sb)) return true;
				auto* b2 = dyn_cast<BranchInst>(sb->getTerminator());
				if (!b2 || !b2->isConditional()) continue;
				auto* p2 = dyn_cast<PHINode>(b2->getCondition());
				if (!p2 || p2->getParent() != sb) continue;
				auto* v = dyn_cast<ConstantInt>(p2->getIncomingValueForBlock(bb));
				if (v && !l->contains(b2->getSuccessor(v->isZero() ? 1 : 0))) return true;
			}
		}
	}
	return false;
}
void Engine::scanInfo(FnInfo& fi, LoopInfo& li)
{
	fi.reads = mayRead(fi.f);
	// blocks, after which the text may be read
	std::vector<char> here(fi.bl.size());
	for (size_t k = 0; k < fi.bl.size(); ++k)
		for (auto& i : *fi.bl[k].bb)
		{
			if (charLoad(i, elemBits)) here[k] = 1;
			if (auto* cb = dyn_cast<CallBase>(&i)) if (auto* cf = cb->getCalledFunction()) if (!cf->isDeclaration() && mayRead(cf)) here[k] = 1;
		}
	for (size_t k = 0; k < fi.bl.size(); ++k) fi.bl[k].readsAfter = here[k];
	for (bool ch = true; ch;)
	{
		ch = false;
		for (auto& b : fi.bl)
			if (!b.readsAfter)
				for (const BasicBlock* sb : successors(b.bb))
					if (fi.bl[fi.bnum[sb]].readsAfter) { b.readsAfter = ch = true; break; }
	}
	if (li.empty()) return;
	static PassBuilder pb;
	static FunctionAnalysisManager fam;
	static LoopAnalysisManager lam;
	static CGSCCAnalysisManager cam;
	static ModuleAnalysisManager mam;
	static bool init = false;
	if (!init)
	{
		pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
		pb.crossRegisterProxies(lam, fam, cam, mam);
		init = true;
	}
	Function& F = *const_cast<Function*>(fi.f);
	auto& se = fam.getResult<ScalarEvolutionAnalysis>(F);
	auto& l2 = fam.getResult<LoopAnalysis>(F);
	for (auto& b : fi.bl)
		if (b.header)
		{
			Loop* l = l2.getLoopFor(b.bb);
			unsigned n = l ? se.getSmallConstantMaxTripCount(l) : 0;
			b.unroll = (n && n <= 64) || (l && smallCounter(l));
		}
}
// is any instruction, which may read the text, reachable from the current point?
bool Engine::readsAfter(const State& s, bool isReturn)
{
	for (size_t k = 0; k < s.fr.size(); ++k)
	{
		const Frame& f = *s.fr[k];
		const BlockInfo& b = f.fi->bl[f.bb];
		bool top = k + 1 == s.fr.size();
		if (top && !isReturn && b.readsAfter) return true;
		for (const BasicBlock* sb : successors(b.bb)) if (f.fi->bl[f.fi->bnum.find(sb)->second].readsAfter) return true;
		for (size_t q = top && !isReturn ? f.ip : f.ip + 1; q < b.ins.size(); ++q)
		{
			if (charLoad(*b.ins[q], elemBits)) return true;
			if (auto* cb = dyn_cast<CallBase>(b.ins[q])) if (auto* cf = cb->getCalledFunction()) if (!cf->isDeclaration() && mayRead(cf)) return true;
		}
	}
	return false;
}

State Engine::start(const Function* f)
{
	State s = base;
	for (auto& b : *f) for (auto& i : b)
		if (auto* cb = dyn_cast<CallBase>(&i)) if (auto* cf = cb->getCalledFunction()) if (auto* sp = cf->getSubprogram())
			if (sp->getFilename().contains("include/floaxie/") && entryWhere.empty())
			{
				std::string fn = sp->getFilename().str();
				entryWhere = fn.substr(fn.find("include/floaxie/")) + ":" + std::to_string(sp->getLine());
				entryName = demangle(cf->getName().str());
			}
	Frame* fr = new Frame;
	fr->fi = info(f);
	fr->regs.resize(fr->fi->nregs);
	fr->objBase = s.objs.size();
	s.fr.push_back(Cow<Frame>(fr));
	return s;
}

// ------------------------------------------------------------------ reports
std::string Engine::where(const Instruction* i)
{
	if (!i) return "?";
	std::string r;
	const DebugLoc& d = i->getDebugLoc();
	if (d)
	{
		auto* sc = cast<DIScope>(d.getScope());
		std::string fn = sc->getFilename().str();
		size_t p = fn.find("include/floaxie/");
		if (p != std::string::npos) fn = fn.substr(p);
		r = fn + ":" + std::to_string(d.getLine());
	}
	else r = "(no line)";
	return r;
}

void Engine::violation(State& s, const std::string& kind, const std::string& msg)
{
	if (cur && refineState && !s.refined && refineState(*this, s)) throw Stop();
	std::string w = s.fr.empty() && !entryWhere.empty() ? entryWhere : where(cur), fn = s.fr.empty() ? entryName : demangle(s.ctop().fi->f->getName().str());
	if (w.find("floaxie") == std::string::npos)
	{
		// prefer the innermost frame inside the library
		for (size_t i = s.fr.size(); i-- > 0;)
		{
			const CallBase* c = s.fr[i]->call;
			if (c && where(c).find("include/floaxie") != std::string::npos) { w = where(c) + " (in " + w + ")"; break; }
		}
	}
	static const bool dump = getenv("VP_DUMP");
	if (dump)
	{
		fprintf(stderr, "--- %s: %s: %s\n", w.c_str(), kind.c_str(), msg.c_str());
		for (SymId i = 0; i < s.dom.syms.size(); ++i)
		{
			const SymN& y = s.dom.S(i);
			fprintf(stderr, "s%u [%s,%s]", i, y.lo.str().c_str(), y.hi.str().c_str());
			if (y.alias) fprintf(stderr, " = %s", y.alias.str().c_str());
			if (y.dl) fprintf(stderr, " floor((%s)/%s)", y.dl.str().c_str(), y.dd.str().c_str());
			for (auto& q : y.cons) fprintf(stderr, "  {%s>=0}", q.str().c_str());
			fprintf(stderr, "\n");
		}
	}
	std::string key = kind + "|" + w + "|" + msg;
	if (key.size() > 300) key.resize(300);
	auto it = viols.find(key);
	if (it != viols.end()) { ++it->second.count; return; }
	const bool asked = cfg.kinds.empty() || cfg.kinds.count(kind);
	if (!asked && others >= cfg.maxViol) return;
	Violation v;
	v.kind = kind; v.where = w; v.msg = msg; v.fn = fn;
	std::vector<std::string> t;
	for (auto p = s.trail; p; p = p->prev) t.push_back(p->s);
	std::string tr;
	for (size_t i = t.size(); i-- > 0;) { if (!tr.empty()) tr += "; "; tr += t[i]; }
	if (tr.size() > 1500) tr = tr.substr(0, 700) + " ... " + tr.substr(tr.size() - 700);
	v.trail = tr;
	viols[key] = v;
	if (!asked) ++others;
	else if (++ours >= cfg.maxViol) tooMany = true;
}

bool Engine::check(State& s, const std::string& kind, bool ok, const std::string& msg)
{
	if (!ok && (!s.dom.saturate(100) || s.dom.contradicts())) // no such state
	{
		if (!s.fr.empty()) throw Stop();
		return true;
	}
	if (!ok) violation(s, kind, msg);
	auto& o = oblig[kind];
	++o.first;
	if (ok) ++o.second;
	return ok;
}

void Engine::unsupported(const std::string& what)
{
	if (incomplete.empty())
	{
		std::string t;
		if (cur) { raw_string_ostream os(t); cur->print(os); }
		incomplete = what + " at " + where(cur) + " " + t;
	}
	throw Stop();
}

// ------------------------------------------------------------------ decisions
// states, which belong to one worker only, wait until the shared part of the exploration is over:
// it has to be the same in each worker
void Engine::push(State&& s)
{
	(s.shared || !cfg.rankSplit || drained ? work : later).push_back(std::move(s));
}

void Engine::pushAlt(State& s, const std::function<void(State&)>& f)
{
	State t = s;
	++altNo;
	if (t.numeric) t.part = (t.part * 1000003) ^ (((size_t)cur >> 4) * 31 + altNo);
	f(t);
	if (t.dom.bottom) return;
	push(std::move(t));
	++forks;
}

bool Engine::decideGE(State& s, const Lin& e0)
{
	Lin e = s.dom.resolve(e0);
	if (s.dom.ilo(e).sgn() >= 0) return true;
	if (s.dom.ihi(e).sgn() < 0) return false;
	if (s.dom.proveGE(e)) return true;
	Lin ne = Lin(Z(-1)) - e;
	if (s.dom.proveGE(ne)) return false;
	for (auto& d : s.decided) if (d.second < 2 && d.first == e0) return d.second;
	pushAlt(s, [&](State& t) { t.dom.assumeGE(ne); t.decided.emplace_back(e0, 0); });
	pushAlt(s, [&](State& t) { t.dom.assumeGE(e); t.decided.emplace_back(e0, 1); });
	throw Stop();
}

bool Engine::decideEQ(State& s, const Lin& e0)
{
	Lin e = s.dom.resolve(e0);
	if (e->t.empty()) return e->c.isZero();
	if (s.dom.ilo(e).sgn() > 0 || s.dom.ihi(e).sgn() < 0) return false;
	Z g(0);
	for (auto& p : e->t) g = gcd(g, p.second);
	if (!fmod(e->c, g).isZero()) return false;
	if (e->t.size() == 1)
	{
		Z v = fdiv(-e->c, e->t[0].second.sgn() > 0 ? e->t[0].second : -e->t[0].second);
		if (e->t[0].second.sgn() < 0) v = fdiv(e->c, -e->t[0].second);
		SymId y = e->t[0].first;
		const SymN& n = s.dom.S(y);
		if (v < n.lo || v > n.hi) return false;
		if (n.set)
		{
			long x = v.toLong();
			bool in = false;
			for (auto& p : *n.set) if (x >= p.first && x <= p.second) in = true;
			if (!in) return false;
		}
		if (n.lo.fitsLong() && n.hi.fitsLong() && !n.dl)
		{
			long x = v.toLong(), lo = n.lo.toLong(), hi = n.hi.toLong();
			IvSet rest = ivMinus(n.set ? *n.set : IvSet{ { lo, hi } }, IvSet{ { x, x } });
			pushAlt(s, [&](State& t) { t.dom.refineSet(y, rest); });
			pushAlt(s, [&](State& t) { t.dom.assumeEQ(e); });
			throw Stop();
		}
	}
	if (s.dom.proveGE(e.plus(-1)) || s.dom.proveGE((-e).plus(-1))) return false;
	if (s.dom.proveGE(e) && s.dom.proveGE(-e)) return true;
	for (auto& d : s.decided) if (d.second >= 2 && d.first == e0) return d.second - 2;
	pushAlt(s, [&](State& t) { t.dom.assumeGE((-e).plus(-1)); t.decided.emplace_back(e0, 2); });
	pushAlt(s, [&](State& t) { t.dom.assumeGE(e.plus(-1)); t.decided.emplace_back(e0, 2); });
	pushAlt(s, [&](State& t) { t.dom.assumeEQ(e); t.decided.emplace_back(e0, 3); });
	throw Stop();
}

Lin Engine::asU(State& s, const Val& v)
{
	if (v.k == Val::Undef) { violation(s, "uninit", "use of an uninitialised value"); abandon(); }
	if (v.k == Val::Ptr)
	{
		// address as an integer: only meaningful in differences and comparisons with null
		if (v.obj < 0) return s.dom.resolve(v.l);
		std::string nm = "&" + std::to_string(v.obj);
		auto it = s.named.find(nm);
		if (it == s.named.end()) it = s.named.emplace(nm, s.dom.fresh(Z(1L << 20), Z(1L << 46))).first;
		return s.dom.resolve(it->second + v.l);
	}
	if (v.k != Val::Int) unsupported("integer value expected");
	Lin l = s.dom.resolve(v.l);
	Z m = Z::pow2(v.w);
	Z lo = s.dom.ilo(l), hi = s.dom.ihi(l);
	if (lo.sgn() >= 0 && hi < m) return l;
	Z k = fdiv(lo, m);
	if (k == fdiv(hi, m)) return l.plus(-(k * m));
	if (s.dom.proveGE(l, 200) && s.dom.proveGE(Lin(m - Z(1)) - l, 200)) return l;
	lo = s.dom.lower(l); hi = s.dom.upper(l);
	k = fdiv(lo, m);
	Z k2 = fdiv(hi, m);
	if (k == k2) return l.plus(-(k * m));
	if (k2 - k <= Z(3))
	{
		// split at the wrap-around point
		decideGE(s, l.plus(-((k + Z(1)) * m)));
	}
	Lin q = s.dom.floorDiv(l, m);
	return s.dom.resolve(Lin::comb(l, Z(1), q, -m));
}

Lin Engine::asS(State& s, const Val& v)
{
	if (v.k == Val::Ptr) return asU(s, v);
	if (v.k != Val::Int) return asU(s, v);
	Z h = Z::pow2(v.w - 1);
	return asU(s, Val::mkInt(v.w, v.l.plus(h))).plus(-h);
}

// makes e concrete by splitting the state over its feasible values
Z Engine::enumerate(State& s, const Lin& e0, unsigned long limit, const char* what)
{
	Lin e = s.dom.resolve(e0);
	if (e->t.empty()) return e->c;
	Z g(0);
	for (auto& p : e->t) g = gcd(g, p.second);
	LinN* an = new LinN; Lin A(an);
	for (auto& p : e->t) an->t.emplace_back(p.first, fdiv(p.second, g));
	Z lo = s.dom.lower(A), hi = s.dom.upper(A);
	if (hi - lo >= Z((long)limit)) unsupported(std::string("too many values to split over: ") + what);
	bool big = !s.sampled && (hi - lo >= Z(64) || (hi - lo >= Z(20) && !strncmp(what, "offset", 6)));
	static const bool dbg = getenv("VP_SPLIT");
	if (dbg) fprintf(stderr, "SPLIT %s: %s in [%s,%s] shared=%d at %s\n", what, A.str().c_str(), lo.str().c_str(), hi.str().c_str(), s.shared, where(cur).c_str());
	for (Z k = hi; k >= lo; k -= Z(1))
	{
		if (big && cfg.bigStep > 1 && hi - k > Z(cfg.bigEdge) && k - lo > Z(cfg.bigEdge) && fmod(k, Z(cfg.bigStep)) != Z(cfg.bigPhase % cfg.bigStep) && !(k.fitsLong() && cfg.bigAt.count(k.toLong()))) continue;
		if (big && s.shared && cfg.rankSplit && cfg.nproc > 1 && fmod(cfg.bigStep > 1 ? fdiv(k, Z(cfg.bigStep)) : k, Z(cfg.nproc)) != Z(cfg.rank)) continue;
		pushAlt(s, [&](State& t) { if (big) { t.sampled = true; if (cfg.rankSplit) t.shared = false; } t.dom.assumeEQ(A.plus(-k)); if (big) t.note(std::string(what) + "=" + (A.plus(-k), (k * g + e->c).str())); });
	}
	throw Stop();
}

// ------------------------------------------------------------------ memory
int Engine::newObj(State& s, OK kind, const Lin& size, const std::string& name)
{
	Obj* o = new Obj;
	o->kind = kind; o->size = size; o->name = name;
	s.objs.push_back(Cow<Obj>(o));
	return s.objs.size() - 1;
}

static const char* kindName(OK k)
{
	switch (k) { case OK::Alloca: return "local object"; case OK::Global: return "global"; case OK::Heap: return "heap block"; case OK::Arg: return "caller's buffer"; case OK::String: return "input string"; default: return "errno"; }
}

void Engine::access(State& s, const Val& p, const Z& size, bool write, int& obj, Lin& off, unsigned)
{
	if (p.k == Val::Undef) { violation(s, "uninit", "access through an uninitialised pointer"); abandon(); }
	if (p.k != Val::Ptr) unsupported("access through a non-pointer");
	if (p.obj < 0) { violation(s, write ? "oob-write" : "oob-read", "access through a null pointer"); abandon(); }
	const Obj& o = *s.objs[p.obj];
	obj = p.obj;
	if (!o.alive) { violation(s, write ? "oob-write" : "oob-read", "access to an object, which lifetime has ended: " + o.name); abandon(); }
	if (write && (o.ro || o.kind == OK::String)) { violation(s, "oob-write", "write to read-only " + std::string(kindName(o.kind)) + " " + o.name); abandon(); }
	Lin l = s.dom.resolve(p.l);
	if (!l.isConst() || l->c.sgn() < 0 || l->c.bits() > 62) l = asS(s, Val::mkInt(64, l));
	off = l;
	if (o.kind == OK::String) return; // decided by loadString()
	bool ok = s.dom.proveGE(l) && s.dom.proveGE(o.size - l - Lin(size));
	if (!ok)
	{
		std::string r = "offset [" + s.dom.lower(l).str() + "," + s.dom.upper(l).str() + "] size " + size.str() + " of " + kindName(o.kind) + " " + o.name + " of " + s.dom.resolve(o.size).str() + " bytes";
		violation(s, write ? "oob-write" : "oob-read", (write ? "write may be out of bounds: " : "read may be out of bounds: ") + r);
		++oblig[write ? "oob-write" : "oob-read"].first;
		abandon();
	}
	auto& ob = oblig[write ? "oob-write" : "oob-read"];
	++ob.first;
	++ob.second;
}

void Engine::eraseRange(Obj& o, long off, long bytes)
{
	auto& c = o.cells;
	c.erase(std::remove_if(c.begin(), c.end(), [&](const Cell& x) { return x.off < off + bytes && off < x.off + (long)x.size; }), c.end());
}

void Engine::storeCell(State& s, int obj, long off, unsigned bytes, const Val& v)
{
	Obj& o = s.objs[obj].mut();
	// fast path: exact cell
	auto it = std::lower_bound(o.cells.begin(), o.cells.end(), off, [](const Cell& c, long x) { return c.off < x; });
	if (it != o.cells.end() && it->off == off && it->size == bytes) { it->v = v; return; }
	// split partially overwritten integer cells into bytes
	std::vector<Cell> add;
	for (auto& c : o.cells)
		if (c.off < off + (long)bytes && off < c.off + (long)c.size && (c.off < off || c.off + (long)c.size > off + (long)bytes))
		{
			if (c.v.k == Val::Int)
			{
				Lin u = c.v.l;
				for (unsigned i = 0; i < c.size; ++i)
				{
					long bo = c.off + i;
					if (bo >= off && bo < off + (long)bytes) continue;
					Lin hi = s.dom.floorDiv(u, Z::pow2(8 * i));
					add.push_back(Cell{ bo, 1, Val::mkInt(8, hi) });
				}
			}
			else if (c.v.k != Val::Undef) unsupported("partial overwrite of a pointer");
		}
	eraseRange(o, off, bytes);
	for (auto& c : add)
	{
		auto p = std::lower_bound(o.cells.begin(), o.cells.end(), c.off, [](const Cell& q, long x) { return q.off < x; });
		o.cells.insert(p, c);
	}
	it = std::lower_bound(o.cells.begin(), o.cells.end(), off, [](const Cell& c, long x) { return c.off < x; });
	o.cells.insert(it, Cell{ off, bytes, v });
}

Val Engine::loadCell(State& s, int obj, long off, unsigned bytes, bool ptr, bool& undef)
{
	const Obj& o = *s.objs[obj];
	auto it = std::lower_bound(o.cells.begin(), o.cells.end(), off, [](const Cell& c, long x) { return c.off < x; });
	if (it != o.cells.end() && it->off == off && it->size == bytes)
	{
		if (it->v.k == Val::Undef) undef = true;
		return it->v;
	}
	// assemble from pieces
	Lin r(0);
	long pos = off;
	while (pos < off + (long)bytes)
	{
		const Cell* c = nullptr;
		for (auto& x : o.cells) if (x.off <= pos && pos < x.off + (long)x.size) { c = &x; break; }
		if (!c || c->v.k == Val::Undef)
		{
			// padding: tolerated inside of a wider access, which has initialised bytes
			long e = pos + 1;
			auto defined = [&](long x) { for (auto& y : o.cells) if (y.v.k != Val::Undef && y.off <= x && x < y.off + (long)y.size) return true; return false; };
			while (e < off + (long)bytes && !defined(e)) ++e;
			if (pos == off && e == off + (long)bytes) { undef = true; return Val(); }
			if (pos == off || ptr) { undef = true; return Val(); }
			r = Lin::comb(r, Z(1), s.dom.fresh(Z(0), Z::pow2(8 * (e - pos)) - Z(1)), Z::pow2(8 * (pos - off)));
			pos = e;
			continue;
		}
		if (c->v.k != Val::Int) unsupported("partial read of a pointer");
		Val cv = c->v; cv.w = c->size * 8;
		Lin u = asU(s, cv);
		long inCell = pos - c->off;
		long take = std::min<long>(c->size - inCell, off + bytes - pos);
		const Lin all = u; // the quotients are those of the whole value, so that pieces put together again give it
		if (inCell) u = s.dom.floorDiv(all, Z::pow2(8 * inCell));
		if (inCell + take < (long)c->size) { Lin q = s.dom.floorDiv(all, Z::pow2(8 * (inCell + take))); u = Lin::comb(u, Z(1), q, -Z::pow2(8 * take)); }
		r = Lin::comb(r, Z(1), u, Z::pow2(8 * (pos - off)));
		pos += take;
	}
	if (ptr)
	{
		Lin q = s.dom.resolve(r);
		if (q.isConst() && q->c.isZero()) return Val::null();
		unsupported("integer read as a pointer");
	}
	return Val::mkInt(bytes * 8, r);
}

static Val constVal(Engine& E, State& s, const Constant* c) { return E.constant(s, c); }

Val Engine::loadScalar(State& s, const Val& p, unsigned bytes, Type* ty)
{
	int obj; Lin off;
	access(s, p, Z((long)bytes), false, obj, off);
	const Obj& o = *s.objs[obj];
	if (o.kind == OK::String) return loadString(s, off, bytes);
	if (!off.isConst()) { enumerate(s, off, 6000, ("offset in " + o.name).c_str()); }
	long k = off->c.toLong();
	if (o.kind == OK::Global && o.gv && o.cells.empty())
	{
		if (!o.gv->hasInitializer() ) unsupported("read of an external global " + o.name);
		if (o.ro)
		{
			Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(o.gv->getInitializer()), ty, APInt(64, k), DL);
			if (!c) unsupported("read of a constant global " + o.name);
			return constVal(*this, s, c);
		}
		// writable global: any value may be there
		counts["mutable-global-reads"]++;
		return Val::mkInt(bytes * 8, s.dom.fresh(Z(0), Z::pow2(bytes * 8) - Z(1)));
	}
	bool undef = false;
	Val v = loadCell(s, obj, k, bytes, ty->isPointerTy(), undef);
	return v;
}

void Engine::storeScalar(State& s, const Val& p, unsigned bytes, const Val& v)
{
	int obj; Lin off;
	access(s, p, Z((long)bytes), true, obj, off);
	const Obj& o = *s.objs[obj];
	if (!off.isConst()) enumerate(s, off, 6000, ("offset in " + o.name).c_str());
	if (o.kind == OK::Global && !o.ro) { violation(s, "shared-state", "write to the global variable " + o.name); }
	storeCell(s, obj, off->c.toLong(), bytes, v);
}

Val Engine::load(State& s, const Val& p, Type* ty)
{
	if (ty->isStructTy())
	{
		auto* st = cast<StructType>(ty);
		const StructLayout* sl = DL.getStructLayout(st);
		Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
		for (unsigned i = 0; i < st->getNumElements(); ++i)
		{
			Val q = p; q.l = p.l.plus(Z((long)sl->getElementOffset(i)));
			r.agg->push_back(load(s, q, st->getElementType(i)));
		}
		return r;
	}
	if (ty->isArrayTy() || ty->isVectorTy())
	{
		Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
		unsigned n = ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
		Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
		for (unsigned i = 0; i < n; ++i)
		{
			Val q = p; q.l = p.l.plus(Z((long)(i * DL.getTypeAllocSize(et))));
			r.agg->push_back(load(s, q, et));
		}
		return r;
	}
	unsigned bytes = DL.getTypeStoreSize(ty);
	Val v = loadScalar(s, p, bytes, ty);
	if (v.k == Val::Int)
	{
		if (ty->isIntegerTy()) v.w = ty->getIntegerBitWidth();
		if (ty->isPointerTy()) unsupported("integer read as a pointer");
	}
	return v;
}

void Engine::store(State& s, const Val& p, const Val& v, Type* ty)
{
	if (ty->isStructTy() || ty->isArrayTy() || ty->isVectorTy())
	{
		unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
		for (unsigned i = 0; i < n; ++i)
		{
			Type* et; long o;
			if (ty->isStructTy()) { et = ty->getStructElementType(i); o = DL.getStructLayout(cast<StructType>(ty))->getElementOffset(i); }
			else { et = ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType(); o = i * DL.getTypeAllocSize(et); }
			Val q = p; q.l = p.l.plus(Z(o));
			Val e = v.k == Val::Agg ? (*v.agg)[i] : Val();
			store(s, q, e, et);
		}
		return;
	}
	unsigned bytes = DL.getTypeStoreSize(ty);
	Val x = v;
	if (x.k == Val::Int) x.w = bytes * 8 > x.w ? bytes * 8 : x.w;
	if (x.k == Val::Int && v.w != bytes * 8) x = Val::mkInt(bytes * 8, asU(s, v));
	storeScalar(s, p, bytes, x);
}

void Engine::copyMem(State& s, const Val& d, const Val& src, const Lin& n0, bool overlap)
{
	Lin n = s.dom.resolve(n0);
	if (!n.isConst()) { enumerate(s, n, 300, "length of a memory block"); }
	long len = n->c.toLong();
	if (len == 0) return;
	int so, dO; Lin sf, df;
	access(s, src, Z(len), false, so, sf);
	access(s, d, Z(len), true, dO, df);
	const Obj& o = *s.objs[so];
	const bool text = o.kind == OK::String;
	if (!text && !sf.isConst()) enumerate(s, sf, 3000, "source offset");
	if (!df.isConst()) enumerate(s, df, 3000, "destination offset");
	long a = text ? 0 : sf->c.toLong(), b = df->c.toLong();
	std::vector<Cell> cells;
	if (!overlap && so == dO && a != b && a < b + len && b < a + len) { violation(s, "overlap", "memory is copied to an overlapping block by memcpy()"); abandon(); }
	if (text)
	{
		const long unit = s.str.bits / 8;
		if (len % unit) unsupported("memory copy from the input string");
		Type* el = Type::getIntNTy(M.getContext(), s.str.bits);
		for (long i = 0; i < len; i += unit)
		{
			Val q = src;
			q.l = src.l.plus(Z(i));
			cells.push_back(Cell{ i, (unsigned)unit, loadScalar(s, q, unit, el) });
		}
	}
	else
	if (o.kind == OK::Global && o.gv && o.cells.empty())
	{
		if (!o.ro || !o.gv->hasInitializer()) unsupported("copy of a global");
		Type* i8 = Type::getInt8Ty(M.getContext());
		for (long i = 0; i < len; ++i)
		{
			Constant* c = ConstantFoldLoadFromConst(const_cast<Constant*>(o.gv->getInitializer()), i8, APInt(64, a + i), DL);
			if (!c) unsupported("copy of a constant global");
			cells.push_back(Cell{ i, 1, constant(s, c) });
		}
		// regroup to natural words, if the sizes are multiples
	}
	else
	{
		for (auto& c : o.cells)
		{
			if (c.off + (long)c.size <= a || c.off >= a + len) continue;
			if (c.off >= a && c.off + (long)c.size <= a + len) { cells.push_back(Cell{ c.off - a, c.size, c.v }); continue; }
			if (c.v.k == Val::Undef) continue;
			if (c.v.k != Val::Int) unsupported("partial copy of a pointer");
			Lin u = asU(s, Val::mkInt(c.size * 8, c.v.l));
			for (unsigned i = 0; i < c.size; ++i)
			{
				long bo = c.off + i;
				if (bo < a || bo >= a + len) continue;
				Lin hi = s.dom.floorDiv(u, Z::pow2(8 * i));
				Lin q = s.dom.floorDiv(hi, Z(256));
				cells.push_back(Cell{ bo - a, 1, Val::mkInt(8, Lin::comb(hi, Z(1), q, Z(-256))) });
			}
		}
	}
	// clear the destination, then store
	std::vector<long> partial;
	{
		Obj& t = s.objs[dO].mut();
		// split cells crossing the borders
		for (auto& c : std::vector<Cell>(t.cells))
			if (c.off < b + len && b < c.off + (long)c.size && (c.off < b || c.off + (long)c.size > b + len))
			{
				if (c.v.k == Val::Int)
				{
					std::vector<Cell> add;
					for (unsigned i = 0; i < c.size; ++i)
					{
						long bo = c.off + i;
						if (bo >= b && bo < b + len) continue;
						add.push_back(Cell{ bo, 1, Val::mkInt(8, s.dom.floorDiv(c.v.l, Z::pow2(8 * i))) });
					}
					eraseRange(t, c.off, c.size);
					for (auto& x : add) t.cells.push_back(x);
				}
				else if (c.v.k != Val::Undef) unsupported("partial overwrite of a pointer");
			}
		eraseRange(t, b, len);
		std::sort(t.cells.begin(), t.cells.end(), [](const Cell& x, const Cell& y) { return x.off < y.off; });
	}
	for (auto& c : cells) storeCell(s, dO, b + c.off, c.size, c.v);
}

void Engine::setMem(State& s, const Val& d, const Val& bv, const Lin& n0, unsigned unit)
{
	Lin n = s.dom.resolve(n0);
	if (!n.isConst()) enumerate(s, n, 300, "length of a memory block");
	long len = n->c.toLong();
	if (len == 0) return;
	int dO; Lin df;
	access(s, d, Z(len * unit), true, dO, df);
	if (!df.isConst()) enumerate(s, df, 3000, "destination offset");
	long b = df->c.toLong();
	Val v = bv;
	if (v.k == Val::Int && v.w != unit * 8) { v = Val::mkInt(unit * 8, v.l); }
	for (long i = 0; i < len; ++i) storeCell(s, dO, b + i * unit, unit, v);
}

// ------------------------------------------------------------------ constants and operands
Val Engine::constant(State& s, const Constant* c)
{
	if (auto* ci = dyn_cast<ConstantInt>(c))
	{
		const APInt& a = ci->getValue();
		Z v(0);
		for (unsigned i = a.getNumWords(); i-- > 0;) v = v * Z::pow2(64) + Z((unsigned long)a.getRawData()[i]);
		return Val::mkInt(a.getBitWidth(), Lin(v));
	}
	if (auto* cf = dyn_cast<ConstantFP>(c))
	{
		APInt a = cf->getValueAPF().bitcastToAPInt();
		Z v(0);
		for (unsigned i = a.getNumWords(); i-- > 0;) v = v * Z::pow2(64) + Z((unsigned long)a.getRawData()[i]);
		return Val::mkInt(a.getBitWidth(), Lin(v));
	}
	if (isa<ConstantPointerNull>(c)) return Val::null();
	if (isa<UndefValue>(c)) return Val();
	if (auto* f = dyn_cast<Function>(c)) { Val v; v.k = Val::Fn; v.fn = f; return v; }
	if (auto* g = dyn_cast<GlobalVariable>(c)) return Val::mkPtr(globalObj[g], Lin(0));
	if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(s, ga->getAliasee());
	if (c->getType()->isStructTy() || c->getType()->isArrayTy() || c->getType()->isVectorTy())
	{
		Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val>>();
		unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->isArrayTy() ? c->getType()->getArrayNumElements() : cast<FixedVectorType>(c->getType())->getNumElements();
		for (unsigned i = 0; i < n; ++i) r.agg->push_back(constant(s, c->getAggregateElement(i)));
		return r;
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c))
	{
		if (auto* gep = dyn_cast<GEPOperator>(ce))
		{
			APInt off(64, 0);
			if (gep->accumulateConstantOffset(DL, off))
			{
				Val b = constant(s, cast<Constant>(gep->getPointerOperand()));
				b.l = b.l.plus(Z((long)off.getSExtValue()));
				return b;
			}
		}
		if (ce->isCast() && ce->getOpcode() == Instruction::BitCast) return constant(s, ce->getOperand(0));
	}
	unsupported("constant expression");
}

Val Engine::get(State& s, const Value* v)
{
	if (auto* c = dyn_cast<Constant>(v)) return constant(s, c);
	const Frame& f = s.ctop();
	auto it = f.fi->num.find(v);
	if (it == f.fi->num.end()) unsupported("operand");
	return f.regs[it->second];
}
void Engine::set(State& s, const Instruction* i, const Val& v)
{
	Frame& f = s.top();
	f.regs[f.fi->num.find(i)->second] = v;
}

// ------------------------------------------------------------------ integer operations
Lin Engine::andMask(State& s, const Lin& x, const Z& m0, unsigned w)
{
	// sum over the maximal runs [a, b) of ones of (x mod 2^b) - (x mod 2^a)
	Lin r(0);
	Z m = m0;
	unsigned pos = 0;
	while (!m.isZero())
	{
		unsigned a = m.ctz();
		Z t = fdiv(m, Z::pow2(a));
		unsigned len = (t + Z(1)).ctz();
		unsigned lo = pos + a, hi = lo + len;
		// bits [lo, hi) of x
		Lin low = lo ? s.dom.floorDiv(x, Z::pow2(lo)) : x;
		if (hi < w)
		{
			Lin up = s.dom.floorDiv(x, Z::pow2(hi));
			r = r + Lin::comb(low, Z::pow2(lo), up, -Z::pow2(hi));
		}
		else r = r + low * Z::pow2(lo);
		m = fdiv(t, Z::pow2(len));
		pos = hi;
	}
	return r;
}

Val Engine::andOp(State& s, const Val& a, const Val& b, unsigned w)
{
	Lin x = asU(s, a), y = asU(s, b);
	if (x.isConst() && !y.isConst()) std::swap(x, y);
	if (y.isConst())
	{
		if (x.isConst())
		{
			Z r = andMask(s, x, y->c, w)->c;
			return Val::mkInt(w, Lin(r));
		}
		return Val::mkInt(w, andMask(s, x, y->c, w));
	}
	if (x == y) return Val::mkInt(w, x);
	// both symbolic: x is a multiple of 2^k and y < 2^k -> 0
	auto disjoint = [&](const Lin& p, const Lin& q)
	{
		unsigned k = p->c.isZero() ? 1000 : p->c.ctz();
		for (auto& t : p->t) k = std::min(k, t.second.ctz());
		return k > 0 && s.dom.proveGE(Lin(Z::pow2(std::min(k, w)) - Z(1)) - q);
	};
	if (disjoint(x, y) || disjoint(y, x)) return Val::mkInt(w, Lin(0));
	Z hx = s.dom.upper(x), hy = s.dom.upper(y), lx = s.dom.lower(x), ly = s.dom.lower(y);
	if (hx - lx <= Z(64)) { enumerate(s, x, 65, "bit operand"); }
	if (hy - ly <= Z(64)) { enumerate(s, y, 65, "bit operand"); }
	Lin f = s.dom.fresh(Z(0), hx < hy ? hx : hy);
	return Val::mkInt(w, f);
}

Val Engine::mulVal(State& s, const Val& a, const Val& b, unsigned w)
{
	Lin x = s.dom.resolve(a.l), y = s.dom.resolve(b.l);
	if (x.isConst()) std::swap(x, y);
	if (y.isConst())
	{
		Z k = y->c;
		// keep the representative small
		if (k > Z::pow2(w - 1)) k -= Z::pow2(w);
		return Val::mkInt(w, x * k);
	}
	x = asU(s, a); y = asU(s, b);
	if (domChain && x->t.size() <= 4 && y->t.size() <= 4 && !x.isConst() && !y.isConst())
	{
		// sum of products of symbols
		Lin r = x * y->c + y * x->c;
		r = r.plus(-(x->c * y->c));
		for (auto& p : x->t) for (auto& q : y->t)
		{
			SymId i = std::min(p.first, q.first), j = std::max(p.first, q.first);
			std::string nm = "*" + std::to_string(i) + "," + std::to_string(j);
			auto it = s.named.find(nm);
			if (it == s.named.end())
			{
				const SymN &m = s.dom.S(i), &n = s.dom.S(j);
				Z c[4] = { m.lo * n.lo, m.lo * n.hi, m.hi * n.lo, m.hi * n.hi };
				Z lo = c[0], hi = c[0];
				for (auto& z : c) { if (z < lo) lo = z; if (z > hi) hi = z; }
				Lin v = s.dom.fresh(lo, hi);
				it = s.named.emplace(nm, v).first;
			}
			r = Lin::comb(r, Z(1), it->second, p.second * q.second);
		}
		return Val::mkInt(w, s.dom.resolve(r));
	}
	Z lx = s.dom.lower(x), hx = s.dom.upper(x), ly = s.dom.lower(y), hy = s.dom.upper(y);
	if (hx - lx <= Z(64) && hx - lx <= hy - ly) enumerate(s, x, 65, "factor");
	if (hy - ly <= Z(64)) enumerate(s, y, 65, "factor");
	return Val::mkInt(w, s.dom.fresh(lx * ly, hx * hy));
}

Val Engine::binop(State& s, const Instruction* i, unsigned op, const Val& a, const Val& b, unsigned w, bool nsw)
{
	if (op == Instruction::And && (a.k == Val::Undef) != (b.k == Val::Undef) && i->getName().contains(".insert.mask"))
	{
		// a part of an aggregate is put into a register, which other parts aren't set yet: these bits may be anything
		Val any = Val::mkInt(w, s.dom.fresh(Z(0), Z::pow2(w) - Z(1)));
		return andOp(s, a.k == Val::Undef ? any : a, b.k == Val::Undef ? any : b, w);
	}
	if (a.k == Val::Undef || b.k == Val::Undef) { violation(s, "uninit", "arithmetic on an uninitialised value"); abandon(); }
	if (nsw && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul))
	{
		Lin x = asS(s, a), y = asS(s, b), r;
		if (op == Instruction::Add) r = x + y;
		else if (op == Instruction::Sub) r = x - y;
		else if (x.isConst()) r = y * x->c;
		else if (y.isConst()) r = x * y->c;
		else r = mulVal(s, Val::mkInt(w, x), Val::mkInt(w, y), w).l;
		Z h = Z::pow2(w - 1);
		bool ok = s.dom.proveGE(r.plus(h)) && s.dom.proveGE(Lin(h - Z(1)) - r);
		if (!check(s, "signed-overflow", ok, std::string("signed ") + i->getOpcodeName() + " may overflow: result in [" + s.dom.lower(r).str() + "," + s.dom.upper(r).str() + "]")) abandon();
		return Val::mkInt(w, r);
	}
	auto isPtr = [](const Val& v) { return v.k == Val::Ptr; };
	Lin al = isPtr(a) ? asU(s, a) : a.l, bl = isPtr(b) ? asU(s, b) : b.l;
	Val A = Val::mkInt(w, al), B = Val::mkInt(w, bl);
	Z m = Z::pow2(w);
	switch (op)
	{
	case Instruction::Add: return Val::mkInt(w, s.dom.resolve(al + bl));
	case Instruction::Sub: return Val::mkInt(w, s.dom.resolve(al - bl));
	case Instruction::Mul: return mulVal(s, A, B, w);
	case Instruction::Shl:
	case Instruction::LShr:
	case Instruction::AShr:
	{
		Lin n = asU(s, B);
		bool ok = s.dom.proveGE(Lin(Z((long)w - 1)) - n);
		if (!check(s, "shift", ok, "shift amount in [" + s.dom.lower(n).str() + "," + s.dom.upper(n).str() + "] of a " + std::to_string(w) + " bit value")) abandon();
		Z k = enumerate(s, n, 256, "shift amount");
		if (op == Instruction::Shl)
		{
			if (nsw)
			{
				Lin x = asS(s, A), r = x * Z::pow2(k.toLong());
				Z h = Z::pow2(w - 1);
				bool ok2 = s.dom.proveGE(r.plus(h)) && s.dom.proveGE(Lin(h - Z(1)) - r);
				if (!check(s, "signed-overflow", ok2, "signed shift may overflow")) abandon();
			}
			return Val::mkInt(w, s.dom.resolve(al) * Z::pow2(k.toLong()));
		}
		if (k.isZero()) return A;
		if (op == Instruction::LShr) return Val::mkInt(w, s.dom.floorDiv(asU(s, A), Z::pow2(k.toLong())));
		return Val::mkInt(w, s.dom.floorDiv(asS(s, A), Z::pow2(k.toLong())));
	}
	case Instruction::UDiv:
	case Instruction::URem:
	case Instruction::SDiv:
	case Instruction::SRem:
	{
		bool sg = op == Instruction::SDiv || op == Instruction::SRem, rem = op == Instruction::URem || op == Instruction::SRem;
		Lin y = sg ? asS(s, B) : asU(s, B);
		bool nz = s.dom.proveGE(y.plus(-1)) || s.dom.proveGE((-y).plus(-1));
		if (!check(s, "div-zero", nz, "divisor may be zero")) abandon();
		Lin x = sg ? asS(s, A) : asU(s, A);
		Z d = enumerate(s, y, 256, "divisor");
		bool neg = false;
		if (sg)
		{
			bool xn = !decideGE(s, x);
			if (d.sgn() < 0) { d = -d; neg = !neg; }
			Lin ax = xn ? -x : x;
			if (xn) neg = !neg;
			Lin q = s.dom.floorDiv(ax, d);
			if (!rem) return Val::mkInt(w, neg ? -q : q);
			Lin r = Lin::comb(ax, Z(1), q, -d);
			return Val::mkInt(w, xn ? -r : r);
		}
		Lin q = s.dom.floorDiv(x, d);
		if (!rem) return Val::mkInt(w, q);
		return Val::mkInt(w, s.dom.resolve(Lin::comb(x, Z(1), q, -d)));
	}
	case Instruction::And:
	{
		bool tested = false;
		if (i) for (auto* u : i->users()) if (auto* ic = dyn_cast<ICmpInst>(u)) if (ic->isEquality()) tested = true;
		Lin x = tested ? asU(s, A) : Lin(0), y = tested ? asU(s, B) : Lin(0);
		if (tested && x.isConst()) std::swap(x, y);
		if (tested && y.isConst() && !x.isConst())
		{
			// bits tested together: decide every run of ones on its own
			Z mk = y->c;
			std::vector<Lin> runs;
			unsigned pos = 0;
			for (Z t = mk; !t.isZero() && runs.size() < 4;)
			{
				unsigned z = t.ctz(); t = fdiv(t, Z::pow2(z));
				unsigned len = (t + Z(1)).ctz(); t = fdiv(t, Z::pow2(len));
				pos += z;
				runs.push_back(andMask(s, x, (Z::pow2(len) - Z(1)) * Z::pow2(pos), w));
				pos += len;
			}
			if (runs.size() == 2 || runs.size() == 3) for (auto& r : runs) decideEQ(s, r);
		}
		return andOp(s, A, B, w);
	}
	case Instruction::Or:
	{
		Lin x = asU(s, A), y = asU(s, B);
		Val n = andOp(s, Val::mkInt(w, x), Val::mkInt(w, y), w);
		return Val::mkInt(w, s.dom.resolve(x + y - n.l));
	}
	case Instruction::Xor:
	{
		Lin x = asU(s, A), y = asU(s, B);
		if (y.isConst() && y->c == m - Z(1)) return Val::mkInt(w, Lin(m - Z(1)) - x);
		if (x.isConst() && x->c == m - Z(1)) return Val::mkInt(w, Lin(m - Z(1)) - y);
		Val n = andOp(s, Val::mkInt(w, x), Val::mkInt(w, y), w);
		return Val::mkInt(w, s.dom.resolve(x + y - n.l * Z(2)));
	}
	}
	unsupported("binary operation");
}

// ------------------------------------------------------------------ floating point
Z fpBits(double d) { uint64_t u; memcpy(&u, &d, 8); return Z((unsigned long)u); }
static double bitsD(const Z& z) { uint64_t u = z.toU64(); double d; memcpy(&d, &u, 8); return d; }
static float bitsF(const Z& z) { uint32_t u = z.toU64(); float d; memcpy(&d, &u, 4); return d; }
static Z fpBitsF(float f) { uint32_t u; memcpy(&u, &f, 4); return Z((unsigned long)u); }

bool Engine::fcmp(State& s, unsigned pred, const Val& a, const Val& b, unsigned w)
{
	Z sign = Z::pow2(w - 1), inf = w == 64 ? Z(0x7ff) * Z::pow2(52) : Z(0xff) * Z::pow2(23);
	bool nan = false;
	Lin key[2];
	const Val* v[2] = { &a, &b };
	for (int i = 0; i < 2; ++i)
	{
		Lin x = asU(s, *v[i]);
		bool neg = decideGE(s, x.plus(-sign));
		Lin ab = neg ? x.plus(-sign) : x;
		if (decideGE(s, ab.plus(-(inf + Z(1))))) nan = true;
		key[i] = neg ? -ab : ab;
	}
	bool unord = pred & 8;
	if (pred == CmpInst::FCMP_TRUE) return true;
	if (pred == CmpInst::FCMP_FALSE) return false;
	if (nan) return unord;
	if ((pred & 7) == 7) return true;         // ord
	if ((pred & 7) == 0) return false;        // uno
	Lin d = key[0] - key[1];
	bool wantEq = pred & 1, wantGt = pred & 2, wantLt = pred & 4;
	if (wantEq && wantGt) return decideGE(s, d);
	if (wantEq && wantLt) return decideGE(s, -d);
	if (wantEq) return decideEQ(s, d);
	if (wantGt && wantLt) return !decideEQ(s, d);
	if (wantGt) return decideGE(s, d.plus(-1));
	return decideGE(s, (-d).plus(-1));
}

// ------------------------------------------------------------------ control flow
void Engine::enterBlock(State& s, unsigned b)
{
	Frame& f = s.top();
	unsigned from = f.bb;
	const BlockInfo& bi = f.fi->bl[b];
	f.prev = from;
	// phi nodes, simultaneously
	if (!bi.phis.empty())
	{
		std::vector<Val> vs;
		const BasicBlock* pb = f.fi->bl[from].bb;
		for (auto* ph : bi.phis) vs.push_back(get(s, ph->getIncomingValueForBlock(pb)));
		for (size_t i = 0; i < vs.size(); ++i) f.regs[f.fi->num.find(bi.phis[i])->second] = vs[i];
	}
	f.bb = b; f.ip = 0;
	// leaving loops
	int leftLoop = -1;
	for (size_t i = f.loops.size(); i-- > 0;)
		if (std::find(bi.loops.begin(), bi.loops.end(), (int)f.loops[i].header) == bi.loops.end())
		{
			if (f.loops[i].joined) leftLoop = f.loops[i].header;
			if (f.loops[i].firstRead) f.firstRead = f.loops[i].firstRead;
			else if (f.loops[i].prevRead) f.firstRead = f.loops[i].prevRead;
			f.loops.erase(f.loops.begin() + i);
		}
	if (bi.header)
	{
		LoopRec* r = nullptr;
		for (auto& x : f.loops) if (x.header == b) r = &x;
		if (!r)
		{
			f.loops.push_back(LoopRec());
			f.loops.back().header = b;
			f.loops.back().visits = 1;
		}
		else
		{
			++r->visits;
			if (r->firstRead)
			{
				// a scanning loop: the iteration has examined new characters
				r->joined = true;
				if (r->prevRead && !check(s, "progress", s.dom.proveGE(r->firstRead - r->prevRead.plus(1)), "an iteration of the loop may leave the reading position unchanged")) abandon();
				joinPoint(s, false, nullptr);
			}
			else if (r->visits > 5000) { violation(s, "termination", "no bound found for the number of iterations of the loop"); abandon(); }
		}
	}
	if (leftLoop >= 0) defer(s, leftLoop);
}

void Engine::doReturn(State& s, const Val& r)
{
	Cow<Frame> f = s.fr.back();
	s.fr.pop_back();
	const CallBase* cb = f->call;
	// local objects die
	bool tail = true;
	for (size_t i = f->objBase; i < s.objs.size(); ++i) if (s.objs[i]->kind != OK::Alloca) tail = false;
	if (tail && !s.fr.empty()) s.objs.resize(f->objBase);
	else for (size_t i = f->objBase; i < s.objs.size(); ++i) if (s.objs[i]->kind == OK::Alloca) { Obj& o = s.objs[i].mut(); o.alive = false; o.cells.clear(); }
	if (s.fr.empty())
	{
		++leaves;
		cur = nullptr;
		onReturn(*this, s, r);
		throw Stop();
	}
	const bool reading = f->scanned && scanMode && !s.str.over;
	if (reading) textOver(s, true);
	if (reading)
	{
		s.top().firstRead = f->firstRead;
		if (!s.numeric) { s.numeric = s.readSince = true; s.part0 = s.part; }
	}
	if (reading && s.readSince)
	{
		s.retVal = r;
		s.retEntry = f->entry;
		joinPoint(s, true, cb);
	}
	finishCall(s, cb, r);
}

void Engine::finishCall(State& s, const CallBase* cb, const Val& r)
{
	if (!cb->getType()->isVoidTy()) set(s, cb, r);
	if (auto* inv = dyn_cast<InvokeInst>(cb))
	{
		enterBlock(s, s.ctop().fi->bnum.find(inv->getNormalDest())->second);
		return;
	}
	++s.top().ip;
}

void Engine::doCall(State& s, const CallBase* cb)
{
	const Function* f = cb->getCalledFunction();
	std::vector<Val> a;
	if (!f)
	{
		Val c = get(s, cb->getCalledOperand());
		if (c.k != Val::Fn) unsupported("indirect call");
		f = c.fn;
	}
	if (isa<DbgInfoIntrinsic>(cb)) { ++s.top().ip; return; }
	for (unsigned i = 0; i < cb->arg_size(); ++i)
	{
		if (cb->getArgOperand(i)->getType()->isMetadataTy()) { a.push_back(Val()); continue; }
		a.push_back(get(s, cb->getArgOperand(i)));
	}
	if (scanMode && !s.str.over && !f->isDeclaration() && mayRead(f))
	{
		// waits for the states of the loop to be final, too
		int h = -1;
		for (auto& l : s.ctop().loops) if (l.joined) h = l.header;
		if (h >= 0 && !s.released) { s.released = true; defer(s, h); }
		s.released = false;
	}
	if (model(s, cb, f, a)) return;
	if (f->isDeclaration())
	{
		std::string n = f->getName().str();
		if (onExternal) { onExternal(*this, s, cb, n, a); return; }
		unsupported("call of an unknown external function " + demangle(n));
	}
	if (s.fr.size() > 200) { violation(s, "termination", "call depth is not bounded"); abandon(); }
	FnInfo* fi = info(f);
	Frame* fr = new Frame;
	fr->fi = fi;
	fr->regs.resize(fi->nregs);
	fr->call = cb;
	fr->objBase = s.objs.size();
	unsigned i = 0;
	for (auto& ar : f->args())
	{
		if (ar.hasByValAttr()) unsupported("byval argument");
		fr->regs[i] = a[i];
		++i;
	}
	if (scanMode && fi->reads) tagEntry(s, *fr);
	if (fnSeen.size() < 5000) fnSeen.insert(f->getName().str());
	s.fr.push_back(Cow<Frame>(fr));
}

// 1.0 or -1.0
static bool isUnit(const Lin& x, bool dbl)
{
	if (!x.isConst()) return false;
	const double d = dbl ? bitsD(x->c) : bitsF(x->c);
	return d == 1 || d == -1;
}

static Type* gepElem(Type* t, unsigned) { return t; }

void Engine::step(State& s)
{
	const Frame& f = s.ctop();
	const BlockInfo& bi = f.fi->bl[f.bb];
	const Instruction* i = bi.ins[f.ip];
	cur = i;
	++totalSteps;
	if (++s.steps > cfg.maxStepsPerPath) { violation(s, "termination", "no bound found for the length of the execution"); abandon(); }
	if (!bi.seen[f.ip]) bi.seen[f.ip] = 1;
	auto next = [&]() { ++s.top().ip; };
	switch (i->getOpcode())
	{
	case Instruction::Alloca:
	{
		auto* al = cast<AllocaInst>(i);
		Lin n(1);
		if (al->isArrayAllocation()) n = asU(s, get(s, al->getArraySize()));
		int o = newObj(s, OK::Alloca, n * Z((long)DL.getTypeAllocSize(al->getAllocatedType())), al->getName().str());
		s.objs[o].mut().isArray = al->getAllocatedType()->isArrayTy() || (al->getAllocatedType()->isStructTy() && al->getAllocatedType()->getStructNumElements() == 1 && al->getAllocatedType()->getStructElementType(0)->isArrayTy());
		s.top().allocas.push_back(o);
		set(s, i, Val::mkPtr(o, Lin(0)));
		next();
		return;
	}
	case Instruction::Load:
		set(s, i, load(s, get(s, i->getOperand(0)), i->getType()));
		next();
		return;
	case Instruction::Store:
		store(s, get(s, i->getOperand(1)), get(s, i->getOperand(0)), i->getOperand(0)->getType());
		next();
		return;
	case Instruction::GetElementPtr:
	{
		auto* g = cast<GEPOperator>(i);
		Val b = get(s, g->getPointerOperand());
		if (b.k == Val::Undef) { violation(s, "uninit", "arithmetic on an uninitialised pointer"); abandon(); }
		if (b.k != Val::Ptr) unsupported("pointer arithmetic");
		Lin off = b.l;
		for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
		{
			if (StructType* st = it.getStructTypeOrNull())
			{
				unsigned n = cast<ConstantInt>(it.getOperand())->getZExtValue();
				off = off.plus(Z((long)DL.getStructLayout(st)->getElementOffset(n)));
			}
			else
			{
				Val x = get(s, it.getOperand());
				Z sz((long)DL.getTypeAllocSize(it.getIndexedType()));
				Lin xl = x.k == Val::Int && x.w == 64 ? s.dom.resolve(x.l) : asS(s, x);
				if (xl.isConst()) xl = asS(s, Val::mkInt(64, xl));
				off = off + xl * sz;
			}
		}
		set(s, i, Val::mkPtr(b.obj, s.dom.resolve(off)));
		next();
		return;
	}
	case Instruction::ICmp:
	{
		auto* c = cast<ICmpInst>(i);
		Val a = get(s, c->getOperand(0)), b = get(s, c->getOperand(1));
		if (a.k == Val::Undef || b.k == Val::Undef) { violation(s, "uninit", "comparison of an uninitialised value"); abandon(); }
		bool r;
		if (a.k == Val::Fn || b.k == Val::Fn)
		{
			bool eq = a.k == b.k && a.fn == b.fn;
			r = c->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq;
		}
		else
		{
			Lin x, y;
			bool done = false;
			if (a.k == Val::Ptr && b.k == Val::Ptr)
			{
				if (a.obj == b.obj) { x = asS(s, Val::mkInt(64, a.l)); y = asS(s, Val::mkInt(64, b.l)); }
				else if (c->isEquality()) { r = c->getPredicate() == CmpInst::ICMP_NE; done = true; }
				else { x = asU(s, a); y = asU(s, b); }
			}
			else if (c->isSigned()) { x = asS(s, a); y = asS(s, b); }
			else
			{
				x = asU(s, a); y = asU(s, b);
			}
			if (!done)
			{
				Lin d = s.dom.resolve(x - y);
				switch (c->getPredicate())
				{
				case CmpInst::ICMP_EQ: r = decideEQ(s, d); break;
				case CmpInst::ICMP_NE: r = !decideEQ(s, d); break;
				case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = decideGE(s, d.plus(-1)); break;
				case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: r = decideGE(s, d); break;
				case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = decideGE(s, (-d).plus(-1)); break;
				default: r = decideGE(s, -d); break;
				}
			}
		}
		set(s, i, Val::mkInt(1, Lin(r ? 1 : 0)));
		next();
		return;
	}
	case Instruction::FCmp:
	{
		auto* c = cast<FCmpInst>(i);
		unsigned w = c->getOperand(0)->getType()->isDoubleTy() ? 64 : c->getOperand(0)->getType()->isFloatTy() ? 32 : 0;
		if (!w) unsupported("floating point comparison");
		bool r = fcmp(s, c->getPredicate(), get(s, c->getOperand(0)), get(s, c->getOperand(1)), w);
		set(s, i, Val::mkInt(1, Lin(r ? 1 : 0)));
		next();
		return;
	}
	case Instruction::Br:
	{
		auto* b = cast<BranchInst>(i);
		unsigned t = 0;
		if (b->isConditional())
		{
			Val c = get(s, b->getCondition());
			if (c.k == Val::Undef) { violation(s, "uninit", "branch on an uninitialised value"); abandon(); }
			bool z = decideEQ(s, asU(s, c));
			t = z ? 1 : 0;
		}
		enterBlock(s, f.fi->bnum.find(b->getSuccessor(t))->second);
		return;
	}
	case Instruction::Switch:
	{
		auto* sw = cast<SwitchInst>(i);
		Val c = get(s, sw->getCondition());
		unsigned w = sw->getCondition()->getType()->getIntegerBitWidth();
		Lin x = asS(s, c);
		if (x.isConst())
		{
			const BasicBlock* t = sw->getDefaultDest();
			for (auto& cs : sw->cases())
			{
				Z v = asS(s, constant(s, cs.getCaseValue()))->c;
				if (v == x->c) { t = cs.getCaseSuccessor(); break; }
			}
			enterBlock(s, f.fi->bnum.find(t)->second);
			return;
		}
		// Split by destination: cases with the same successor stay together, when the
		// condition is (a shifted) single symbol with a small domain.
		if (x->t.size() == 1 && x->t[0].second.isOne() && s.dom.S(x->t[0].first).lo.fitsLong() && s.dom.S(x->t[0].first).hi.fitsLong())
		{
			SymId y = x->t[0].first;
			long sh = x->c.toLong();
			const SymN n = s.dom.S(y);
			IvSet rest = n.set ? *n.set : IvSet{ { n.lo.toLong(), n.hi.toLong() } };
			std::map<unsigned, IvSet> groups;
			for (auto& cs : sw->cases())
			{
				long v = asS(s, constant(s, cs.getCaseValue()))->c.toLong() - sh;
				groups[f.fi->bnum.find(cs.getCaseSuccessor())->second].push_back({ v, v });
			}
			unsigned live = 0, only = 0;
			std::map<unsigned, IvSet> feas;
			for (auto& g : groups)
			{
				std::sort(g.second.begin(), g.second.end());
				IvSet k = ivIntersect(rest, g.second);
				if (!k.empty()) feas[g.first] = ivUnion(feas.count(g.first) ? feas[g.first] : IvSet(), k);
			}
			IvSet all;
			for (auto& g : groups) all = ivUnion(all, g.second);
			IvSet d = ivMinus(rest, all);
			unsigned db = f.fi->bnum.find(sw->getDefaultDest())->second;
			if (!d.empty()) feas[db] = ivUnion(feas.count(db) ? feas[db] : IvSet(), d);
			for (auto& g : feas) { ++live; only = g.first; }
			if (live == 1) { enterBlock(s, only); return; }
			for (auto& g : feas) pushAlt(s, [&](State& t) { t.dom.refineSet(y, g.second); });
			throw Stop();
		}
		(void)w;
		for (auto& cs : sw->cases())
			if (decideEQ(s, x.plus(-asS(s, constant(s, cs.getCaseValue()))->c)))
			{
				enterBlock(s, f.fi->bnum.find(cs.getCaseSuccessor())->second);
				return;
			}
		enterBlock(s, f.fi->bnum.find(sw->getDefaultDest())->second);
		return;
	}
	case Instruction::Select:
	{
		Val c = get(s, i->getOperand(0));
		if (c.k == Val::Undef) { violation(s, "uninit", "selection by an uninitialised value"); abandon(); }
		if (c.k == Val::Agg) unsupported("vector select");
		bool z = decideEQ(s, asU(s, c));
		set(s, i, get(s, i->getOperand(z ? 2 : 1)));
		next();
		return;
	}
	case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
	{
		Val v = get(s, i->getOperand(0));
		if (v.k == Val::Undef && i->getOpcode() == Instruction::ZExt && i->getName().contains(".insert.ext") && isa<UndefValue>(i->getOperand(0)))
		{
			// padding of an aggregate, which is put into a register
			unsigned ow = i->getOperand(0)->getType()->getIntegerBitWidth();
			v = Val::mkInt(ow, s.dom.fresh(Z(0), Z::pow2(ow) - Z(1)));
		}
		if (v.k == Val::Undef) { set(s, i, Val()); next(); return; }
		if (!i->getType()->isIntegerTy()) unsupported("vector cast");
		unsigned w = i->getType()->getIntegerBitWidth();
		Lin l;
		if (i->getOpcode() == Instruction::ZExt) l = asU(s, v);
		else if (i->getOpcode() == Instruction::SExt) l = asS(s, v);
		else
		{
			l = s.dom.resolve(v.k == Val::Ptr ? asU(s, v) : v.l);
			if (l.isConst()) l = Lin(fmod(l->c, Z::pow2(w)));
		}
		if (w == 1) { l = asU(s, Val::mkInt(1, l)); if (!l.isConst()) { Z k = enumerate(s, l, 4, "flag"); l = Lin(k); } }
		set(s, i, Val::mkInt(w, l));
		next();
		return;
	}
	case Instruction::PtrToInt:
	{
		Val v = get(s, i->getOperand(0));
		if (v.k == Val::Undef) { violation(s, "uninit", "conversion of an uninitialised pointer"); abandon(); }
		set(s, i, Val::mkInt(i->getType()->getIntegerBitWidth(), asU(s, v)));
		next();
		return;
	}
	case Instruction::BitCast: case Instruction::Freeze:
	{
		Val v = get(s, i->getOperand(0));
		set(s, i, v);
		next();
		return;
	}
	case Instruction::FNeg:
	{
		Val v = get(s, i->getOperand(0));
		unsigned w = i->getType()->isDoubleTy() ? 64 : i->getType()->isFloatTy() ? 32 : 0;
		if (!w) unsupported("negation");
		Lin x = asU(s, v);
		Z sg = Z::pow2(w - 1);
		bool neg = decideGE(s, x.plus(-sg));
		set(s, i, Val::mkInt(w, neg ? x.plus(-sg) : x.plus(sg)));
		next();
		return;
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
	{
		bool dbl = i->getType()->isDoubleTy();
		if (!dbl && !i->getType()->isFloatTy()) unsupported("floating point operation");
		Lin x = asU(s, get(s, i->getOperand(0))), y = asU(s, get(s, i->getOperand(1)));
		if (x.isConst() && y.isConst())
		{
			// constant propagation in the semantics of the target (IEEE-754, round to nearest)
			APFloat A(dbl ? APFloat(bitsD(x->c)) : APFloat(bitsF(x->c))), B(dbl ? APFloat(bitsD(y->c)) : APFloat(bitsF(y->c)));
			switch (i->getOpcode())
			{
			case Instruction::FAdd: A.add(B, APFloat::rmNearestTiesToEven); break;
			case Instruction::FSub: A.subtract(B, APFloat::rmNearestTiesToEven); break;
			case Instruction::FMul: A.multiply(B, APFloat::rmNearestTiesToEven); break;
			default: A.divide(B, APFloat::rmNearestTiesToEven); break;
			}
			set(s, i, Val::mkInt(dbl ? 64 : 32, Lin(Z((unsigned long)A.bitcastToAPInt().getZExtValue()))));
		}
		else if ((i->getOpcode() == Instruction::FMul && (isUnit(x, dbl) || isUnit(y, dbl))) || (i->getOpcode() == Instruction::FDiv && isUnit(y, dbl)))
		{
			// only the sign changes
			const bool first = !isUnit(y, dbl);
			const Lin u = first ? x : y, z = first ? y : x;
			const Z sg = Z::pow2(dbl ? 63 : 31);
			if (u->c >= sg) { bool neg = decideGE(s, z.plus(-sg)); set(s, i, Val::mkInt(dbl ? 64 : 32, neg ? z.plus(-sg) : z.plus(sg))); }
			else set(s, i, Val::mkInt(dbl ? 64 : 32, z));
		}
		else
		{
			counts["fp-unknown"]++;
			set(s, i, Val::mkInt(dbl ? 64 : 32, s.dom.fresh(Z(0), Z::pow2(dbl ? 64 : 32) - Z(1))));
		}
		next();
		return;
	}
	case Instruction::SIToFP: case Instruction::UIToFP:
	{
		Val v = get(s, i->getOperand(0));
		Lin x = i->getOpcode() == Instruction::SIToFP ? asS(s, v) : asU(s, v);
		bool dbl = i->getType()->isDoubleTy();
		if (!dbl && !i->getType()->isFloatTy()) unsupported("conversion to floating point");
		if (!x.isConst())
		{
			Z lo = s.dom.lower(x), hi = s.dom.upper(x);
			if (hi - lo < Z(4000)) enumerate(s, x, 4000, "operand of a conversion");
			counts["fp-unknown"]++;
			set(s, i, Val::mkInt(dbl ? 64 : 32, s.dom.fresh(Z(0), Z::pow2(dbl ? 64 : 32) - Z(1))));
			next(); return;
		}
		if (abs(x->c).bits() > 53) unsupported("conversion of a big integer");
		double d = x->c.toDouble();
		set(s, i, Val::mkInt(dbl ? 64 : 32, Lin(dbl ? fpBits(d) : fpBitsF((float)d))));
		next();
		return;
	}
	case Instruction::FPToSI: case Instruction::FPToUI:
	{
		Val v = get(s, i->getOperand(0));
		bool dbl = i->getOperand(0)->getType()->isDoubleTy();
		Lin x = asU(s, v);
		unsigned w = i->getType()->getIntegerBitWidth();
		if (x.isConst())
		{
			double d = dbl ? bitsD(x->c) : bitsF(x->c);
			double t = std::trunc(d);
			bool ok = i->getOpcode() == Instruction::FPToSI ? (t >= -std::ldexp(1.0, w - 1) && t < std::ldexp(1.0, w - 1)) : (t >= 0 && t < std::ldexp(1.0, w));
			if (!check(s, "fp-range", ok, "floating point value is out of range of the integer type")) abandon();
			set(s, i, Val::mkInt(w, Lin(Z((i128)t))));
		}
		else
		{
			counts["fp-unknown"]++;
			set(s, i, Val::mkInt(w, s.dom.fresh(Z(0), Z::pow2(w) - Z(1))));
		}
		next();
		return;
	}
	case Instruction::FPExt: case Instruction::FPTrunc:
	{
		Lin x = asU(s, get(s, i->getOperand(0)));
		bool toD = i->getType()->isDoubleTy(), fromF = i->getOperand(0)->getType()->isFloatTy();
		if (!(toD && fromF) && !(i->getType()->isFloatTy() && i->getOperand(0)->getType()->isDoubleTy())) unsupported("floating point conversion");
		if (x.isConst()) set(s, i, Val::mkInt(toD ? 64 : 32, Lin(toD ? fpBits((double)bitsF(x->c)) : fpBitsF((float)bitsD(x->c)))));
		else { counts["fp-unknown"]++; set(s, i, Val::mkInt(toD ? 64 : 32, s.dom.fresh(Z(0), Z::pow2(toD ? 64 : 32) - Z(1)))); }
		next();
		return;
	}
	case Instruction::ExtractValue:
	{
		auto* e = cast<ExtractValueInst>(i);
		Val v = get(s, e->getAggregateOperand());
		for (unsigned k : e->indices()) { if (v.k != Val::Agg) { v = Val(); break; } Val t = (*v.agg)[k]; v = t; }
		set(s, i, v);
		next();
		return;
	}
	case Instruction::InsertValue:
	{
		auto* e = cast<InsertValueInst>(i);
		Val v = get(s, e->getAggregateOperand()), x = get(s, e->getInsertedValueOperand());
		std::function<Val(Val, Type*, unsigned)> ins = [&](Val a, Type* t, unsigned d) -> Val
		{
			if (d == e->getNumIndices()) return x;
			unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
			Val r; r.k = Val::Agg;
			r.agg = a.k == Val::Agg ? std::make_shared<std::vector<Val>>(*a.agg) : std::make_shared<std::vector<Val>>(n);
			unsigned k = e->getIndices()[d];
			(*r.agg)[k] = ins((*r.agg)[k], t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType(), d + 1);
			return r;
		};
		set(s, i, ins(v, e->getType(), 0));
		next();
		return;
	}
	case Instruction::Call: case Instruction::Invoke:
		doCall(s, cast<CallBase>(i));
		return;
	case Instruction::Ret:
	{
		auto* r = cast<ReturnInst>(i);
		Val v;
		if (r->getReturnValue()) v = get(s, r->getReturnValue());
		doReturn(s, v);
		return;
	}
	case Instruction::Unreachable:
		violation(s, "unreachable", "control reaches a point declared unreachable");
		abandon();
	default:
		if (auto* b = dyn_cast<BinaryOperator>(i))
		{
			if (!b->getType()->isIntegerTy()) unsupported("vector operation");
			bool nsw = false;
			if (auto* ob = dyn_cast<OverflowingBinaryOperator>(b)) nsw = ob->hasNoSignedWrap();
			set(s, i, binop(s, i, b->getOpcode(), get(s, b->getOperand(0)), get(s, b->getOperand(1)), b->getType()->getIntegerBitWidth(), nsw));
			next();
			return;
		}
		unsupported("instruction");
	}
}

void Engine::work1()
{
	for (;;)
	{
		if (work.empty() && !popJoin())
		{
			if (later.empty()) break;
			drained = true;
			work.push_back(std::move(later.back()));
			later.pop_back();
		}
		State s = std::move(work.back());
		work.pop_back();
		try { for (;;) { altNo = 0; step(s); if (!s.decided.empty()) s.decided.clear(); } }
		catch (Stop&) {}
		if (tooMany || !incomplete.empty()) return;
		if (cfg.deadline && now() > cfg.deadline) { incomplete = "time limit"; return; }
	}
}

void Engine::run(State s)
{
	work.push_back(std::move(s));
	drained = false;
	work1();
	work.clear(); later.clear();
}
