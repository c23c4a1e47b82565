// Joins of the states of scanning loops: affine hull, bounds, and a few relations.
#include "engine.h"
#include <climits>
using namespace llvm;

static const Z INF = Z::pow2(200);

void Engine::tagEntry(State& s, Frame& f)
{
	auto m = std::make_shared<std::map<std::pair<int, long>, Z>>();
	for (size_t o = 0; o < s.objs.size(); ++o)
	{
		const Obj& ob = *s.objs[o];
		if (!ob.alive || ob.kind == OK::Global) continue;
		for (auto& c : ob.cells)
			if (c.v.k == Val::Int) { Lin l = s.dom.resolve(c.v.l); if (l.isConst()) (*m)[{ (int)o, c.off }] = l->c; }
	}
	f.entry = m;
}

// registers needed after the call
static const std::set<unsigned>& liveAfter(const FnInfo& fi, unsigned bb, unsigned ip)
{
	static std::map<std::tuple<const FnInfo*, unsigned, unsigned>, std::set<unsigned>> memo;
	auto k = std::make_tuple(&fi, bb, ip);
	auto it = memo.find(k);
	if (it != memo.end()) return it->second;
	const BlockInfo& b = fi.bl[bb];
	std::set<unsigned> live = b.liveOut;
	auto reg = [&](const Value* v) -> int { auto i = fi.num.find(v); return i == fi.num.end() ? -1 : (int)i->second; };
	for (size_t q = b.ins.size(); q-- > ip + 1;)
	{
		int d = reg(b.ins[q]);
		if (d >= 0) live.erase(d);
		for (auto& u : b.ins[q]->operands()) { int r = reg(u.get()); if (r >= 0) live.insert(r); }
	}
	int d = reg(b.ins[ip]);
	if (d >= 0) live.erase(d);
	return memo.emplace(k, live).first->second;
}

static unsigned charClass(State& s, const Val& v)
{
	Lin l = s.dom.resolve(v.l);
	IvSet set;
	if (l.isConst()) set = IvSet{ { l->c.toLong(), l->c.toLong() } };
	else if (l->t.size() == 1 && l->t[0].second.isOne() && l->c.isZero() && s.dom.S(l->t[0].first).set) set = *s.dom.S(l->t[0].first).set;
	else set = IvSet{ { s.dom.ilo(l).toLong(), s.dom.ihi(l).toLong() } };
	static const std::vector<IvSet> cl = { IvSet{ { 0, 0 } }, IvSet{ { '0', '0' } }, IvSet{ { '1', '9' } }, IvSet{ { '.', '.' } }, IvSet{ { '+', '+' } }, IvSet{ { '-', '-' } }, IvSet{ { 'E', 'E' }, { 'e', 'e' } } };
	unsigned m = 0, k = 1;
	for (auto& c : cl) { if (!ivIntersect(set, c).empty()) m |= k; set = ivMinus(set, c); k <<= 1; }
	if (!set.empty()) m |= k;
	return m;
}

// Walks over everything the rest of the execution depends on.  With a key: collects its discrete
// part and normalises the state.  Always: collects the numeric part.
void Engine::visitSlots(State& s, bool isReturn, std::string* key, std::vector<Lin*>& slots)
{
	std::vector<Lin*> arr, wins, cells, regs, misc;
	std::string K;
	auto num = [&](long x) { K += std::to_string(x); K += ','; };
	std::function<void(Val&, std::vector<Lin*>&, int)> val = [&](Val& v, std::vector<Lin*>& to, int keyConst)
	{
		switch (v.k)
		{
		case Val::Undef: K += 'u'; return;
		case Val::Fn: K += 'f'; num((long)v.fn); return;
		case Val::Agg:
			K += 'a'; num(v.agg->size());
			v.agg = std::make_shared<std::vector<Val>>(*v.agg);
			for (auto& x : *v.agg) val(x, to, keyConst);
			return;
		case Val::Ptr:
			K += 'p'; num(v.obj);
			if (rawSlots) { to.push_back(&v.l); return; }
			v.l = s.dom.resolve(v.l);
			if (v.l.isConst() && !(v.obj >= 0 && s.objs[v.obj]->kind == OK::String)) K += v.l->c.str();
			to.push_back(&v.l);
			return;
		case Val::Int:
		{
			K += 'i'; num(v.w);
			if (rawSlots) { to.push_back(&v.l); return; }
			v.l = s.dom.resolve(v.l);
			if (v.l.isConst()) v.l = Lin(fmod(v.l->c, Z::pow2(v.w)));
			Z lo = s.dom.ilo(v.l), hi = s.dom.ihi(v.l), m = Z::pow2(v.w);
			if (v.l.isConst() && v.w >= 32 && v.l->c >= m - Z(1 << 20)) { v.l = v.l.plus(-m); lo = hi = v.l->c; } // small negative
			if (lo >= m || hi < -Z::pow2(v.w - 1)) v.l = v.l.plus(-(fdiv(lo + Z::pow2(v.w - 1), m) * m));
			if (v.l.isConst() && (keyConst == 2 || (keyConst == 1 && (v.w == 1 || v.w == 8) && v.l->c >= Z(0) && v.l->c <= Z(3)))) { K += '='; K += v.l->c.str(); }
			to.push_back(&v.l);
			return;
		}
		}
	};
	num(s.fr.size()); num(s.shared); num(s.sampled); num((long)s.part);
	Val none;
	for (size_t k = 0; k < s.fr.size(); ++k)
	{
		Frame& f = s.fr[k].mut();
		bool top = k + 1 == s.fr.size();
		bool atHeader = top && !isReturn;
		K += 'F'; num(f.fi->id); num(f.bb); num(f.ip);
		const std::set<unsigned>& live = atHeader ? f.fi->bl[f.bb].live : liveAfter(*f.fi, f.bb, f.ip);
		if (key) for (unsigned r = 0; r < f.regs.size(); ++r) if (!live.count(r)) f.regs[r] = none;
		for (unsigned r : live) { num(r); val(f.regs[r], regs, atHeader ? 1 : 2); }
		if (key) f.prev = -1;
		for (auto& l : f.loops)
		{
			K += 'L'; num(l.header);
			if (key) l.visits = 1;
			if (l.firstRead) { K += 'r'; misc.push_back(&l.firstRead); }
			if (l.prevRead) { K += 'q'; misc.push_back(&l.prevRead); }
		}
		if (f.firstRead) { K += 's'; misc.push_back(&f.firstRead); }
	}
	std::shared_ptr<const std::map<std::pair<int, long>, Z>> snap = isReturn ? s.retEntry : s.ctop().entry;
	for (size_t o = 0; o < s.objs.size(); ++o)
	{
		if (!s.objs[o]->alive) { K += 'x'; continue; }
		if (s.objs[o]->cells.empty()) continue;
		Obj& ob = s.objs[o].mut();
		K += 'O'; num(o);
		for (auto& c : ob.cells)
		{
			num(c.off); num(c.size);
			int kc = 0;
			if (!ob.isArray)
			{
				kc = c.size == 1 ? 1 : 0;
				if (snap && !rawSlots && c.v.k == Val::Int)
				{
					auto it = snap->find({ (int)o, c.off });
					if (it != snap->end()) { Lin l = s.dom.resolve(c.v.l); if (l.isConst() && l->c == it->second) kc = 2; }
				}
			}
			val(c.v, ob.isArray ? arr : cells, kc);
		}
	}
	if (isReturn) { K += 'R'; val(s.retVal, regs, 1); }
	StrInfo& t = s.str;
	K += t.closed ? 'c' : 'o';
	K += t.over ? 'z' : 'y';
	num(t.win.size());
	for (auto& w : t.win) { if (!rawSlots) num(charClass(s, w)); val(w, wins, 0); }
	misc.push_back(&t.P);
	Ghost& g = s.gh;
	K += 'G';
	num(g.st); num((int)g.tok); num(g.neg); num(g.nz); num(g.R); num(g.zr); num(g.tail); num(g.n); num(g.dot); num(g.hasExp); num(g.eneg); num(g.esat); num(g.dz); num(g.run);
	for (Lin* l : { &g.ZS, &g.ZE, &g.DP, &g.A, &g.Zr, &g.FD, &g.EV, &g.TL, &g.X, &g.sig }) misc.push_back(l);
	num(g.fb); num(g.fbErr); num(g.fbCls);
	if (g.fb) { misc.push_back(&g.fbBits.l); misc.push_back(&g.fbEnd); }
	for (auto& n : s.named) { K += n.first; K += ';'; misc.push_back(&n.second); }
	slots.clear();
	for (auto* v : { &arr, &wins, &cells, &regs, &misc }) slots.insert(slots.end(), v->begin(), v->end());
	if (!rawSlots) for (Lin* l : slots) *l = s.dom.resolve(*l);
	if (key) *key = K;
}

// no instruction, which may read the text, is reachable any more
bool Engine::textOver(State& s, bool isReturn)
{
	StrInfo& t = s.str;
	if (s.gh.st != D_DONE || readsAfter(s, isReturn)) return false;
	t.over = true; t.closed = false; t.win.clear(); t.P = Lin(0);
	for (auto& cf : s.fr)
	{
		Frame& f = cf.mut();
		f.firstRead = Lin(0);
		for (auto& l : f.loops) { l.firstRead = Lin(); l.prevRead = Lin(); }
	}
	return true;
}

// the call of a function, the outcome of which doesn't depend on what was computed before
void Engine::joinCall(State& s, const CallBase* call, const Val& v)
{
	s.part = s.part0 = 0;
	s.numeric = false;
	s.retVal = v;
	s.retEntry.reset();
	joinPoint(s, true, call, true);
}

void Engine::joinPoint(State& s, bool isReturn, const CallBase* call, bool late)
{
	if (!isReturn)
	{
		Frame& f = s.top();
		for (auto& l : f.loops)
			if (l.header == f.bb) { l.prevRead = l.firstRead; l.firstRead = Lin(); }
		Ghost& g = s.gh;
		if (g.run) { g.run = g.dz = false; g.ZS = g.ZE = g.DP = Lin(0); }
	}
	StrInfo& t = s.str;
	// characters, which may be needed again
	if (!textOver(s, isReturn))
	{
		long keep = 0;
		auto need = [&](const Lin& from, int extra)
		{
			if (!from) return;
			Lin d = s.dom.resolve(t.P - from);
			if (d.isConst() && d->c.fitsLong()) keep = std::max(keep, d->c.toLong() - extra);
		};
		// a scanning loop inside of an iteration of another one forgets what the latter has read before
		for (auto& cf : s.fr)
			for (auto& l : cf->loops)
			{
				if (!isReturn && !(&*cf == &s.ctop() && l.header == s.ctop().bb)) continue;
				need(l.firstRead, 0);
				if (!l.firstRead && l.prevRead) need(l.prevRead, s.gh.st <= D_FRAC || s.gh.st == D_EXPD ? 1 : 0);
			}
		if (isReturn) need(s.ctop().firstRead, 0);
		if ((long)t.win.size() > keep) t.win.resize(std::max(0L, keep));
	}
	s.decided.clear();
	if (s.numeric) s.part = s.part0;
	s.part0 = s.part;
	s.numeric = isReturn;
	std::string key = isReturn ? late ? "C" : "R" : "H";
	if (isReturn) { key += std::to_string((long)call); key += ':'; }
	std::string k2;
	std::vector<Lin*> slots;
	visitSlots(s, isReturn, &k2, slots);
	key += k2;
	s.readSince = false;
	s.salt = std::hash<std::string>()(key);
	auto& p = joins[key];
	if (!p)
	{
		p.reset(new JoinEntry);
		p->isReturn = isReturn; p->call = call; p->order = joinOrder++;
		p->depth = late ? 0 : s.fr.size(); p->fi = s.ctop().fi; p->bb = s.ctop().bb;
		p->late = late;
	}
	s.steps = 0;
	if (p->pend.empty()) waiting.push_back(p.get());
	if (getenv("VP_KEY") && isReturn && s.gh.st == D_DONE) { std::string o; for (auto t = s.trail; t; t = t->prev) o += t->s + "|"; fprintf(stderr, "KEY %s %s tail=%d | %s ## %s\n", s.ctop().fi->f->getName().str().c_str(), call->getCalledFunction() ? call->getCalledFunction()->getName().str().c_str() : "?", s.gh.tail, o.c_str(), key.c_str()); }
	p->pend.push_back(std::move(s));
	if (late && p->pend.size() >= 64)
	{
		p->has = false;
		merge(*p);
		p->pend.clear();
		p->pend.push_back(p->st);
		p->has = false;
	}
	throw Stop();
}

// what follows a scanning loop waits until the states of the loop are final
void Engine::defer(State& s, unsigned header)
{
	auto& p = joins["X" + std::to_string(joinOrder)];
	p.reset(new JoinEntry);
	p->exitOf = header; p->order = joinOrder++;
	p->depth = s.fr.size(); p->fi = s.ctop().fi; p->bb = s.ctop().bb;
	waiting.push_back(p.get());
	p->pend.push_back(std::move(s));
	throw Stop();
}

static Z bound(const Dom& d, const Lin& l, bool low)
{
	if (l.isConst()) return l->c;
	if (l->t.size() == 1 && d.S(l->t[0].first).cons.empty()) return low ? d.ilo(l) : d.ihi(l);
	return low ? d.lower(l, 40) : d.upper(l, 40);
}

static Z fdivE(const Z& a, const Z& b) { return a.sgn() < 0 ? -fdiv(-a, b) : fdiv(a, b); } // exact

static bool implied(const Dom& d, SymId s, const Lin& c)
{
	for (auto& x : d.S(s).cons) if (x.same(c) || x == c) return true;
	return d.proveGE(c, 60);
}

// The symbols the states have in common, with what all of them know about these: the same symbols,
// and the quotients of the same expressions over them.  kept[j] is set for the slots, which are the
// same expression over them.
static Dom common(const std::vector<State*>& in, const std::vector<std::vector<Lin*>>& S, std::vector<Lin>& kept)
{
	size_t m = in.size(), N = S[0].size(), K = in[0]->dom.syms.size();
	const SymId none = ~0u;
	// to[i][k]: symbol of the state i, which is the symbol k of the first one; back: the opposite
	std::vector<std::vector<SymId>> to(m, std::vector<SymId>(K, none)), back(m);
	auto map = [&](const Lin& l, const std::vector<SymId>& t) -> Lin
	{
		LinN* n = new LinN; Lin R(n);
		n->c = l->c;
		bool sorted = true;
		for (auto& x : l->t)
		{
			if (x.first >= t.size() || t[x.first] == none) return Lin();
			if (!n->t.empty() && t[x.first] <= n->t.back().first) sorted = false;
			n->t.emplace_back(t[x.first], x.second);
		}
		if (!sorted) std::sort(n->t.begin(), n->t.end(), [](const std::pair<SymId, Z>& a, const std::pair<SymId, Z>& b) { return a.first < b.first; });
		return R;
	};
	std::vector<char> all(K, 1);
	for (size_t i = 0; i < m; ++i)
	{
		const Dom &a = in[0]->dom, &b = in[i]->dom;
		back[i].assign(b.syms.size(), none);
		std::unordered_map<uint64_t, SymId> uid;
		std::unordered_multimap<size_t, SymId> quot;
		for (SymId k = 0; k < b.syms.size(); ++k) { uid[b.S(k).uid] = k; if (b.S(k).dl) quot.emplace(b.S(k).dl.hash(), k); }
		for (SymId k = 0; k < K; ++k)
		{
			auto u = uid.find(a.S(k).uid);
			if (u != uid.end()) to[i][k] = u->second;
			else if (a.S(k).dl && all[k])
			{
				Lin d = map(a.S(k).dl, to[i]);
				if (d)
				{
					auto r = quot.equal_range(d.hash());
					for (auto q = r.first; q != r.second; ++q) if (b.S(q->second).dl == d && b.S(q->second).dd == a.S(k).dd && back[i][q->second] == none) { to[i][k] = q->second; break; }
				}
			}
			if (to[i][k] == none) all[k] = 0; else back[i][to[i][k]] = k;
		}
	}
	Dom r;
	std::vector<char> need(K, 0);
	auto inside = [&](const Lin& l) { for (auto& t : l->t) if (t.first >= K || !all[t.first]) return false; return true; };
	for (unsigned j = 0; j < N; ++j)
	{
		size_t last = m;
		for (size_t c : { (size_t)0, m - 1 })
		{
			if (c == last) continue;
			last = c;
			Lin l = *S[c][j];
			if (l.isConst()) continue;
			if (c) l = map(l, back[c]);
			if (!l || !inside(l)) continue;
			bool ok = true;
			for (size_t i = 0; ok && i < m; ++i) if (i != c) ok = in[i]->dom.resolve(i ? map(l, to[i]) : l) == *S[i][j];
			if (ok) { kept[j] = l; for (auto& t : l->t) need[t.first] = 1; break; }
		}
	}
	// facts
	std::vector<SymN> facts(K);
	static uint64_t uids = 1ul << 60;
	std::vector<std::vector<Lin>> more(K); // inequalities of the other states
	for (size_t i = 1; i < m; ++i)
		for (auto& sp : in[i]->dom.syms)
			for (auto& c : sp->cons)
			{
				Lin l = map(c, back[i]);
				if (l && inside(l)) { auto& v = more[l->t.back().first]; bool f = false; for (auto& x : v) if (x == l) { f = true; break; } if (!f) v.push_back(l); }
			}
	for (size_t k = K; k-- > 0;)
	{
		if (!need[k]) continue;
		SymN& f = facts[k];
		const SymN& a = in[0]->dom.S(k);
		f.uid = a.uid; f.lo = a.lo; f.hi = a.hi; f.dl = a.dl; f.dd = a.dd; f.set = a.set; f.alias = a.alias;
		if (f.dl && !inside(f.dl)) f.dl = Lin();
		if (f.alias && !inside(f.alias)) f.alias = Lin();
		for (size_t i = 1; i < m; ++i)
		{
			const SymN& b = in[i]->dom.S(to[i][k]);
			if (b.uid != a.uid && f.uid == a.uid) f.uid = ++uids;
			if (f.set) { if (b.set) { if (f.set != b.set) f.set = std::make_shared<IvSet>(ivUnion(*f.set, *b.set)); } else if (b.lo == b.hi) f.set = std::make_shared<IvSet>(ivUnion(*f.set, IvSet{ { b.lo.toLong(), b.lo.toLong() } })); else f.set = nullptr; }
			else if (b.set && f.lo == f.hi) f.set = std::make_shared<IvSet>(ivUnion(*b.set, IvSet{ { f.lo.toLong(), f.lo.toLong() } }));
			if (b.lo < f.lo) f.lo = b.lo;
			if (b.hi > f.hi) f.hi = b.hi;
			if (f.alias && !(b.alias && b.alias == map(f.alias, to[i]))) f.alias = Lin();
		}
		if (f.lo != f.hi && !f.alias)
		{
			std::vector<Lin> tried;
			auto add = [&](const Lin& c)
			{
				if (!inside(c)) return;
				for (auto& t : tried) if (t.same(c) || t == c) return;
				tried.push_back(c);
				for (size_t q = 0; q < m; ++q) { Lin x = q ? map(c, to[q]) : c; if (!implied(in[q]->dom, x->t.back().first, x)) return; }
				f.cons.push_back(c);
			};
			for (auto& c : a.cons) add(c);
			for (auto& c : more[k]) add(c);
		}
		auto mark = [&](const Lin& l) { if (l) for (auto& t : l->t) need[t.first] = 1; };
		mark(f.dl); mark(f.alias);
		for (auto& c : f.cons) mark(c);
	}
	// symbols without any facts but bounds, which only occur in one and the same proportion, become one
	std::map<std::vector<std::pair<size_t, std::string>>, std::vector<std::pair<SymId, Z>>> groups;
	{
		std::vector<std::vector<std::pair<size_t, Z>>> occ(K);
		size_t at = 0;
		auto count = [&](const Lin& l) { ++at; if (l) for (auto& t : l->t) if (t.first < K) occ[t.first].emplace_back(at, t.second); };
		for (auto& l : kept) count(l);
		for (size_t k = 0; k < K; ++k)
			if (need[k]) { count(facts[k].dl); count(facts[k].alias); for (auto& c : facts[k].cons) count(c); }
		for (size_t k = 0; k < K; ++k)
		{
			const SymN& f = facts[k];
			if (!need[k] || f.dl || f.alias || !f.cons.empty() || (f.set && f.set->size() > 1) || f.lo == f.hi) continue;
			Z g(0);
			for (auto& o : occ[k]) g = gcd(g, o.second);
			std::vector<std::pair<size_t, std::string>> sg;
			for (auto& o : occ[k]) sg.emplace_back(o.first, (o.second.sgn() < 0 ? -fdiv(-o.second, g) : fdiv(o.second, g)).str());
			groups[sg].emplace_back(k, g);
		}
	}
	std::map<SymId, Z> mult; // the first one of a group stands for it, what its coefficient is divided by
	for (auto& g : groups)
	{
		if (g.second.size() < 2) continue;
		SymId to = g.second[0].first;
		Z lo(0), hi(0);
		Z gg(0);
		for (auto& q : g.second) gg = gcd(gg, q.second);
		for (auto& q : g.second) { Z k = fdiv(q.second, gg); lo += facts[q.first].lo * k; hi += facts[q.first].hi * k; need[q.first] = 0; }
		need[to] = 1;
		SymN f;
		f.uid = ++uids; f.lo = lo; f.hi = hi;
		facts[to] = f;
		mult[to] = fdiv(g.second[0].second, gg);
	}
	std::vector<SymId> id(K, 0);
	for (size_t k = 0; k < K; ++k)
		if (need[k]) { id[k] = r.syms.size(); SymN* n = new SymN(facts[k]); n->rc = 0; r.syms.push_back(SymP(n)); }
	auto ren = [&](const Lin& l)
	{
		if (!l) return l;
		LinN* n = new LinN; Lin R(n);
		n->c = l->c;
		for (auto& t : l->t)
		{
			if (!need[t.first]) continue; // stands for a part of another one
			auto q = mult.find(t.first);
			n->t.emplace_back(id[t.first], q == mult.end() ? t.second : fdivE(t.second, q->second));
		}
		return R;
	};
	for (auto& p : r.syms)
	{
		SymN& n = p.mut();
		n.dl = ren(n.dl); n.alias = ren(n.alias);
		for (auto& c : n.cons) c = ren(c);
	}
	for (auto& l : kept) l = ren(l);
	std::vector<const MemoN*> ms;
	for (const MemoN* q = in[0]->dom.memo.get(); q; q = q->next.get())
	{
		bool ok = q->q < K && need[q->q] && facts[q->q].dl && facts[q->q].dl == q->l && facts[q->q].dd == q->d;
		for (auto& t : q->l->t) if (t.first >= K || !need[t.first] || mult.count(t.first)) { ok = false; break; }
		if (ok) ms.push_back(q);
	}
	for (size_t i = ms.size(); i-- > 0;)
	{
		auto n = std::make_shared<MemoN>();
		n->l = ren(ms[i]->l); n->d = ms[i]->d; n->q = id[ms[i]->q]; n->next = r.memo;
		n->h = n->l.hash() * 31 + n->d.hash();
		r.memo = n;
	}
	return r;
}

bool Engine::covered(const JoinEntry& e, State& n)
{
	if (!e.has || e.lo.empty()) return false;
	std::vector<Lin*> sl;
	visitSlots(n, e.isReturn, nullptr, sl);
	if (sl.size() != e.lo.size()) return false;
	if (e.base)
	{
		const Dom &d = e.st.dom, &x = n.dom;
		if (x.syms.size() < e.base) return false;
		for (SymId i = 0; i < e.base; ++i) if (d.S(i).uid != x.S(i).uid) return false;
		for (auto& k : e.kept) if (!(x.resolve(k.second) == *sl[k.first])) return false;
		bool same = n.src == &e && n.srcVisit == e.visits;
		for (SymId i = 0; !same && i < e.base; ++i)
		{
			const SymN &a = d.S(i), &b = x.S(i);
			if (b.lo < a.lo || b.hi > a.hi) return false;
			if (a.set) { IvSet q = b.set ? *b.set : IvSet{ { b.lo.toLong(), b.hi.toLong() } }; if (!(ivIntersect(*a.set, q) == q)) return false; }
			for (auto& c : a.cons) if (!implied(x, i, c)) return false;
			if (a.alias && !(x.resolve(Lin::sym(i)) == x.resolve(a.alias))) return false;
		}
	}
	for (auto& q : e.eqs)
	{
		Lin r(-q.c);
		for (auto& t : q.t) r = Lin::comb(r, Z(1), *sl[t.first], t.second);
		r = n.dom.resolve(r);
		if (!r.isConst() || !r->c.isZero()) return false;
	}
	for (auto& q : e.mods)
	{
		const Lin& l = *sl[q.first];
		if (!fmod(l->c - q.second.first, q.second.second).isZero()) return false;
		for (auto& t : l->t) if (!fmod(t.second, q.second.second).isZero()) return false;
	}
	for (size_t j = 0; j < sl.size(); ++j)
	{
		if (e.lo[j] > -INF && bound(n.dom, *sl[j], true) < e.lo[j]) return false;
		if (e.hi[j] < INF && bound(n.dom, *sl[j], false) > e.hi[j]) return false;
	}
	for (auto& r : e.rels)
	{
		Lin l = n.dom.resolve(Lin::comb(*sl[r.a], r.p, *sl[r.b], r.q));
		if (r.lo > -INF && !n.dom.proveGE(l.plus(-r.lo), 100)) return false;
		if (r.hi < INF && !n.dom.proveGE(Lin(r.hi) - l, 100)) return false;
	}
	return true;
}

static Z widen(const Z& old, const Z& now, bool low)
{
	static std::vector<Z> th;
	if (th.empty())
	{
		for (long x : { 0L, 1L, 3L, 7L, 9L, 15L, 31L, 63L, 99L, 127L, 255L, 999L, 2046L, 2047L, 2048L, 2049L, 4096L, 9999L, 10000L, 14096L, 20000L, 99999L, 100000L, 1L << 31, (1L << 32) - 1, 1L << 62 }) { th.push_back(Z(x)); if (x) th.push_back(Z(-x)); }
		for (unsigned k = 6; k <= 19; ++k) { th.push_back(Z::pow10(k)); th.push_back(Z::pow10(k) - Z(1)); } // significands of so many digits
		th.push_back(Z::pow2(64) - Z(1));
		std::sort(th.begin(), th.end());
	}
	if (low)
	{
		if (now >= old) return old;
		for (size_t i = th.size(); i-- > 0;) if (th[i] <= now) return th[i];
		return -INF;
	}
	if (now <= old) return old;
	for (auto& x : th) if (x >= now) return x;
	return INF;
}

void Engine::merge(JoinEntry& e)
{
	std::vector<State*> in;
	if (e.has) in.push_back(&e.st);
	for (auto& p : e.pend) in.push_back(&p);
	++counts["joins"];
	size_t m = in.size();
	std::vector<std::vector<Lin*>> S(m);
	for (size_t i = 0; i < m; ++i) visitSlots(*in[i], e.isReturn, nullptr, S[i]);
	size_t N = S[0].size();
	for (auto& x : S) if (x.size() != N) unsupported("states of different shapes are joined");
	// --- what is the same expression in all the states stays as it is
	std::vector<Lin> kept(N);
	Dom base = common(in, S, kept);
	std::vector<unsigned> rank(N), unrank;
	for (int k : { 1, 0 }) for (unsigned j = 0; j < N; ++j) if ((bool)kept[j] == (bool)k) { rank[j] = unrank.size(); unrank.push_back(j); }
	// --- affine hull
	struct Row { unsigned p; std::vector<std::pair<unsigned, Z>> v; }; // sorted by column, v[0] is the pivot
	std::map<unsigned, std::vector<std::pair<unsigned, Z>>> basis;
	auto comb = [](const std::vector<std::pair<unsigned, Z>>& a, const Z& k, const std::vector<std::pair<unsigned, Z>>& b, const Z& l)
	{
		std::vector<std::pair<unsigned, Z>> r;
		size_t i = 0, j = 0;
		while (i < a.size() || j < b.size())
		{
			if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) { r.emplace_back(a[i].first, a[i].second * k); ++i; }
			else if (i == a.size() || b[j].first < a[i].first) { r.emplace_back(b[j].first, b[j].second * l); ++j; }
			else { Z z = a[i].second * k + b[j].second * l; if (!z.isZero()) r.emplace_back(a[i].first, z); ++i; ++j; }
		}
		return r;
	};
	auto norm = [](std::vector<std::pair<unsigned, Z>>& v)
	{
		Z g(0);
		for (auto& x : v) { g = gcd(g, x.second); if (g.isOne()) break; }
		if (!v.empty() && v[0].second.sgn() < 0) g = -g;
		if (!g.isZero() && !g.isOne()) for (auto& x : v) x.second = g.sgn() > 0 ? fdiv(x.second, g) : fdiv(-x.second, -g);
	};
	auto insert = [&](std::vector<std::pair<unsigned, Z>> v)
	{
		while (!v.empty())
		{
			auto it = basis.find(v[0].first);
			if (it == basis.end()) { norm(v); basis[v[0].first] = v; return; }
			v = comb(v, it->second[0].second, it->second, -v[0].second);
			if (v.size() > 8) norm(v);
		}
	};
	std::set<std::vector<std::pair<unsigned, std::string>>> seenDir;
	for (size_t i = 0; i < m; ++i)
	{
		std::map<SymId, std::vector<std::pair<unsigned, Z>>> dirs;
		std::vector<std::pair<unsigned, Z>> d0;
		for (unsigned j = 0; j < N; ++j)
		{
			const Lin &x = *S[i][unrank[j]], &x0 = *S[0][unrank[j]];
			for (auto& t : x->t) dirs[t.first].emplace_back(j, t.second);
			if (i) { Z d = x->c - x0->c; if (!d.isZero()) d0.emplace_back(j, d); }
		}
		for (auto& d : dirs) insert(d.second);
		if (!d0.empty()) insert(d0);
	}
	// reduced form
	for (auto it = basis.rbegin(); it != basis.rend(); ++it)
		for (auto jt = basis.begin(); jt != basis.end() && jt->first < it->first; ++jt)
		{
			auto& v = jt->second;
			auto q = std::lower_bound(v.begin(), v.end(), it->first, [](const std::pair<unsigned, Z>& x, unsigned c) { return x.first < c; });
			if (q != v.end() && q->first == it->first) { v = comb(v, it->second[0].second, it->second, -q->second); norm(v); }
		}
	{
		std::map<unsigned, std::vector<std::pair<unsigned, Z>>> b2;
		for (auto& b : basis) { for (auto& t : b.second) t.first = unrank[t.first]; b2[unrank[b.first]] = std::move(b.second); }
		basis.swap(b2);
	}
	// --- bounds
	std::vector<Z> lo(N), hi(N);
	for (unsigned j = 0; j < N; ++j)
		for (size_t i = 0; i < m; ++i)
		{
			if (kept[j]) { lo[j] = bound(base, kept[j], true); hi[j] = bound(base, kept[j], false); break; }
			Z a = bound(in[i]->dom, *S[i][j], true), b = bound(in[i]->dom, *S[i][j], false);
			if (!i || a < lo[j]) lo[j] = a;
			if (!i || b > hi[j]) hi[j] = b;
		}
	bool wide = e.has && !e.lo.empty() && e.visits >= 3;
	const std::vector<Z> lo0 = lo, hi0 = hi;
	if (wide) for (unsigned j = 0; j < N; ++j) if (!kept[j]) { lo[j] = widen(e.lo[j], lo[j], true); hi[j] = widen(e.hi[j], hi[j], false); }
	// --- equations
	e.eqs.clear();
	std::vector<JoinEntry::Eq> eqOf(N);
	std::vector<char> dep(N, 0);
	std::map<unsigned, std::vector<std::pair<unsigned, const std::pair<unsigned, Z>*>>> colRows; // dependent column -> (pivot, entry)
	for (auto& b : basis) for (size_t q = 1; q < b.second.size(); ++q) colRows[b.second[q].first].emplace_back(b.first, &b.second[q]);
	for (unsigned j = 0; j < N; ++j)
	{
		if (basis.count(j)) continue;
		dep[j] = 1;
		JoinEntry::Eq q;
		Z l(1);
		auto cr = colRows.find(j);
		if (cr != colRows.end()) for (auto& t : cr->second) { const Z& d = basis[t.first][0].second; Z g = gcd(d, t.second->second); Z dd = fdiv(d, g); l = fdiv(l, gcd(l, dd)) * dd; }
		q.q = l;
		q.t.emplace_back(j, l);
		if (cr != colRows.end()) for (auto& t : cr->second) { const Z& d = basis[t.first][0].second; Z num = t.second->second * l; q.t.emplace_back(t.first, -(num.sgn() < 0 ? -fdiv(-num, d) : fdiv(num, d))); }
		q.c = Z(0);
		for (auto& t : q.t) q.c += t.second * (*S[0][t.first])->c;
		eqOf[j] = q;
		e.eqs.push_back(q);
	}
	// --- relations with the reading position and the digits of the tail
	unsigned pSlot = N, tlSlot = N;
	for (unsigned j = 0; j < N; ++j) { if (S[0][j] == &in[0]->str.P) pSlot = j; if (S[0][j] == &in[0]->gh.TL) tlSlot = j; }
	std::vector<JoinEntry::Rel> rels;
	auto addRel = [&](unsigned a, unsigned b, const Z& p, const Z& q)
	{
		JoinEntry::Rel r{ a, b, p, q, Z(0), Z(0) };
		for (size_t i = 0; i < m; ++i)
		{
			Lin l = in[i]->dom.resolve(Lin::comb(*S[i][a], p, *S[i][b], q));
			Z x = bound(in[i]->dom, l, true), y = bound(in[i]->dom, l, false);
			if (!i || x < r.lo) r.lo = x;
			if (!i || y > r.hi) r.hi = y;
		}
		// informative?
		Z al = p * (p.sgn() > 0 ? lo0[a] : hi0[a]), ah = p * (p.sgn() > 0 ? hi0[a] : lo0[a]), bl = q * (q.sgn() > 0 ? lo0[b] : hi0[b]), bh = q * (q.sgn() > 0 ? hi0[b] : lo0[b]);
		if (r.lo <= al + bl) r.lo = -INF;
		if (r.hi >= ah + bh) r.hi = INF;
		if (wide && e.visits >= 8)
		{
			for (auto& o : e.rels)
				if (o.a == a && o.b == b && o.p == p && o.q == q)
				{
					if (r.lo < o.lo) r.lo = -INF; else r.lo = o.lo;
					if (r.hi > o.hi) r.hi = INF; else r.hi = o.hi;
				}
		}
		if (r.lo > -INF || r.hi < INF || !wide) rels.push_back(r);
	};
	if (pSlot < N && lo[pSlot] < hi[pSlot])
		for (unsigned j = 0; j < N; ++j)
		{
			if (j == pSlot || (kept[j] && kept[pSlot]) || lo[j] == hi[j] || abs(lo[j]) > Z(1 << 20) || abs(hi[j]) > Z(1 << 20)) continue;
			if (dep[j] && (eqOf[j].t.size() <= 2 || eqOf[j].t.size() > 4)) continue;
			if (hi[j] - lo[j] <= Z(255)) continue;
			addRel(j, pSlot, Z(1), Z(-1));
			addRel(j, pSlot, Z(1), Z(1));
			if (in[0]->str.elem > 1) addRel(j, pSlot, Z(1), -Z((int)in[0]->str.elem)); // offsets are in bytes
		}
	if (tlSlot < N && in[0]->gh.tail && lo[tlSlot] < hi[tlSlot])
	{
		int n = in[0]->gh.n ? in[0]->gh.n : 4;
		for (unsigned j = 0; j < N; ++j)
			if (j != tlSlot && !(kept[j] && kept[tlSlot]) && lo[j].sgn() >= 0 && hi[j] >= Z(10) && hi[j] <= Z(255) && hi[j] - lo[j] >= Z(2) && !dep[j])
				for (long k = std::max(3L, (long)hi[j].bits()); k <= 8; ++k) addRel(j, tlSlot, Z::pow10(n), Z(-(1L << k)));
	}
	if (getenv("VP_SLOTS"))
		for (unsigned j = 0; j < N; ++j)
		{
			fprintf(stderr, "  slot %u%s%s:", j, dep[j] ? " dep" : "", kept[j] ? " kept" : "");
			for (size_t i = 0; i < m && i < 60; ++i) fprintf(stderr, " | %s", S[i][j]->str().c_str());
			fprintf(stderr, "\n");
		}
	if (getenv("VP_SLOTS"))
		for (auto& q : rels) fprintf(stderr, "  rel %s*%u + %s*%u in [%s,%s]\n", q.p.str().c_str(), q.a, q.q.str().c_str(), q.b, q.lo.str().c_str(), q.hi.str().c_str());
	// --- the new state
	State r = *in[0];
	r.dom = base;
	e.kept.clear();
	e.mods.clear();
	for (unsigned j = 0; j < N; ++j) if (kept[j]) e.kept.emplace_back(j, kept[j]);
	e.base = base.syms.size();
	std::vector<Lin*> T;
	rawSlots = true;
	visitSlots(r, e.isReturn, nullptr, T);
	rawSlots = false;
	std::vector<Lin> nv = kept;
	for (auto& b : basis)
	{
		unsigned j = b.first;
		if (kept[j]) continue;
		// multiples
		Z g(0);
		for (size_t i = 0; i < m; ++i)
		{
			const Lin &l = *S[i][j], &l0 = *S[0][j];
			for (auto& t : l->t) g = gcd(g, t.second);
			Z d = l->c - l0->c;
			if (!d.isZero()) g = gcd(g, d);
		}
		if (abs(g) > Z(1) && lo[j] > -INF && hi[j] < INF)
		{
			if (g.sgn() < 0) g = -g;
			Z c = fmod((*S[0][j])->c, g);
			Z a = -fdiv(-(lo[j] - c), g), b = fdiv(hi[j] - c, g);
			e.mods.push_back({ j, { c, g } });
			nv[j] = (r.dom.fresh(a, b) * g).plus(c);
			continue;
		}
		Lin x = r.dom.fresh(lo[j], hi[j]);
		if (!x.isConst())
		{
			// characters
			IvSet set; bool ok = lo[j].fitsLong() && hi[j].fitsLong() && abs(lo[j]) <= Z(1L << 32) && abs(hi[j]) <= Z(1L << 32), any = false;
			for (size_t i = 0; ok && i < m; ++i)
			{
				const Lin& l = *S[i][j];
				if (l.isConst()) set = ivUnion(set, IvSet{ { l->c.toLong(), l->c.toLong() } });
				else if (l->t.size() == 1 && l->t[0].second.isOne() && l->c.isZero() && in[i]->dom.S(l->t[0].first).set) { set = ivUnion(set, *in[i]->dom.S(l->t[0].first).set); any = true; }
				else ok = false;
				if (set.size() > 16) ok = false;
			}
			if (ok && any && set.size() > 1) r.dom.refineSet(x->t[0].first, set);
		}
		nv[j] = x;
	}
	for (unsigned j = 0; j < N; ++j)
	{
		if (!dep[j] || kept[j]) continue;
		Lin x(eqOf[j].c);
		for (size_t k = 1; k < eqOf[j].t.size(); ++k) x = Lin::comb(x, Z(1), nv[eqOf[j].t[k].first], -eqOf[j].t[k].second);
		const Z& q = eqOf[j].q;
		if (!q.isOne() && fmod(x->c, q).isZero() && std::all_of(x->t.begin(), x->t.end(), [&](const std::pair<SymId, Z>& t) { return fmod(t.second, q).isZero(); }))
		{
			LinN* n = new LinN; Lin R(n);
			n->c = fdiv(x->c, q);
			for (auto& t : x->t) n->t.emplace_back(t.first, fdiv(t.second, q));
			x = R;
		}
		else if (!q.isOne())
		{
			Lin y = r.dom.fresh(lo[j], hi[j]);
			r.dom.assumeEQ(Lin::comb(y, eqOf[j].q, x, Z(-1)));
			x = r.dom.resolve(y);
		}
		nv[j] = x;
	}
	for (unsigned j = 0; j < N; ++j)
		if (dep[j] && !kept[j] && !nv[j].isConst())
		{
			if (lo[j] > -INF && r.dom.ilo(nv[j]) < lo[j]) r.dom.assumeGE(nv[j].plus(-lo[j]));
			if (hi[j] < INF && r.dom.ihi(nv[j]) > hi[j]) r.dom.assumeGE(Lin(hi[j]) - nv[j]);
		}
	for (auto& q : rels)
	{
		Lin l = Lin::comb(nv[q.a], q.p, nv[q.b], q.q);
		if (q.lo > -INF) r.dom.assumeGE(l.plus(-q.lo));
		if (q.hi < INF) r.dom.assumeGE(Lin(q.hi) - l);
	}
	for (unsigned j = 0; j < N; ++j) *T[j] = r.dom.resolve(nv[j]);
	if (r.dom.bottom) unsupported("empty join");
	e.lo = lo; e.hi = hi; e.rels = rels;
	static const bool dbg = getenv("VP_JOIN");
	if (dbg)
	{
		fprintf(stderr, "JOIN %s %s:%u visit %u of %zu states, %u slots, %zu params: st=%s R=%d zr=%d tail=%d n=%d dot=%d", e.isReturn ? "return" : "header", e.fi->f->getName().str().c_str(), e.bb, e.visits, m, (unsigned)N, basis.size(), dfaName[r.gh.st], r.gh.R, r.gh.zr, r.gh.tail, r.gh.n, r.gh.dot);
		fprintf(stderr, " P=%s [%s,%s] sig=%s X=%s [%s,%s] TL=%s A=%s\n", r.str.P.str().c_str(), r.dom.ilo(r.str.P).str().c_str(), r.dom.ihi(r.str.P).str().c_str(), r.gh.sig.str().c_str(), r.gh.X.str().c_str(), r.dom.lower(r.gh.X).str().c_str(), r.dom.upper(r.gh.X).str().c_str(), r.gh.TL.str().c_str(), r.gh.A.str().c_str());
	}
	e.st = std::move(r);
	e.has = true;
}

bool Engine::popJoin()
{
	auto stale = [](const State& s) { return s.src && s.src->visits != s.srcVisit; };
	for (;;)
	{
		if (waiting.size() > 2 * waitingLive + 64)
		{
			// what was superseded is of no use any more
			size_t n = 0;
			for (auto* w : waiting)
			{
				if (w->exitOf >= 0 && stale(w->pend[0])) { joins.erase("X" + std::to_string(w->order)); continue; }
				waiting[n++] = w;
			}
			waiting.resize(n);
			waitingLive = n;
		}
		JoinEntry* best = nullptr;
		auto inLoop = [](const FnInfo* fi, unsigned bb, unsigned header) { auto& l = fi->bl[bb].loops; return std::find(l.begin(), l.end(), (int)header) != l.end(); };
		auto before = [&](JoinEntry* a, JoinEntry* b)
		{
			if (a->depth != b->depth) return a->depth > b->depth;
			if (a->fi == b->fi)
			{
				if (a->isReturn && !b->isReturn) return inLoop(a->fi, a->bb, b->bb);
				if (b->isReturn && !a->isReturn) return !inLoop(a->fi, b->bb, a->bb);
				if (a->exitOf >= 0 && b->exitOf < 0 && !b->isReturn && ((int)b->bb == a->exitOf || inLoop(a->fi, b->bb, a->exitOf))) return false;
				if (b->exitOf >= 0 && a->exitOf < 0 && !a->isReturn && ((int)a->bb == b->exitOf || inLoop(a->fi, a->bb, b->exitOf))) return true;
				if (!a->isReturn && !b->isReturn && a->bb != b->bb)
				{
					if (inLoop(a->fi, a->bb, b->bb)) return true;
					if (inLoop(a->fi, b->bb, a->bb)) return false;
				}
			}
			return a->order < b->order;
		};
		size_t at = 0;
		for (size_t i = 0; i < waiting.size(); ++i) if (!best || before(waiting[i], best)) { best = waiting[i]; at = i; }
		if (!best || (best->late && !later.empty())) return false;
		waiting[at] = waiting.back();
		waiting.pop_back();
		JoinEntry& e = *best;
		std::vector<State> keep;
		for (auto& p : e.pend) if (!stale(p) && p.dom.saturate() && !(e.has && covered(e, p))) keep.push_back(std::move(p));
		e.pend.swap(keep);
		if (e.exitOf >= 0)
		{
			State t;
			bool any = !e.pend.empty();
			if (any) t = std::move(e.pend[0]);
			joins.erase("X" + std::to_string(e.order));
			if (!any) continue;
			t.steps = 0;
			work.push_back(std::move(t));
			return true;
		}
		if (e.pend.empty()) continue;
		++e.visits;
		if (e.visits > 60) { cur = nullptr; unsupported("the analysis of a loop doesn't converge in " + e.fi->f->getName().str()); }
		merge(e); // a single state is only simplified
		e.pend.clear();
		State t = e.st;
		t.steps = 0;
		t.src = &e;
		t.srcVisit = e.visits;
		if (e.isReturn)
		{
			cur = e.call;
			try { Val v = t.retVal; t.retVal = Val(); if (e.late) { t.numeric = false; onJoinedCall(*this, t, e.call, v); } else finishCall(t, e.call, v); }
			catch (Stop&) { if (work.empty()) { if (!incomplete.empty()) return false; continue; } return true; }
		}
		work.push_back(std::move(t));
		return true;
	}
}
