// Linear-relational abstract domain.
//
// A state of the analysis describes integers by exact linear expressions over
// symbols.  A symbol carries an interval (optionally a union of intervals), and,
// when it stands for the quotient of a division by a constant, the two linear
// inequalities that define it.  Path conditions add linear inequalities.  Bounds
// of an expression are computed by back-substitution: symbols are eliminated
// newest first through the inequalities known for them.  All arithmetic is exact.
#pragma once
#include <map>
#include "zint.h"
#include <vector>
#include <string>
#include <memory>
#include <algorithm>
#include <cassert>
#include <climits>

typedef uint32_t SymId;

// ------------------------------------------------------------------ Lin
struct LinN
{
	int rc = 0;
	size_t h = 0;
	Z c;
	std::vector<std::pair<SymId, Z>> t; // ascending symbol ids, non-zero coefficients
};

class Lin
{
	LinN* n;
	void inc() { if (n) ++n->rc; }
	void dec() { if (n && --n->rc == 0) delete n; }
public:
	Lin() : n(nullptr) {}
	explicit Lin(LinN* x) : n(x) { inc(); }
	Lin(const Z& c) : n(new LinN) { n->rc = 1; n->c = c; }
	Lin(int c) : Lin(Z(c)) {}
	Lin(const Lin& o) : n(o.n) { inc(); }
	Lin(Lin&& o) noexcept : n(o.n) { o.n = nullptr; }
	~Lin() { dec(); }
	Lin& operator=(const Lin& o) { if (n != o.n) { dec(); n = o.n; inc(); } return *this; }
	Lin& operator=(Lin&& o) noexcept { std::swap(n, o.n); return *this; }
	static Lin sym(SymId s) { LinN* x = new LinN; x->t.emplace_back(s, Z(1)); return Lin(x); }
	explicit operator bool() const { return n; }
	const LinN* operator->() const { return n; }
	const LinN& get() const { return *n; }
	bool isConst() const { return n->t.empty(); }
	const Z& cst() const { return n->c; }
	bool same(const Lin& o) const { return n == o.n; }
	friend bool operator==(const Lin& a, const Lin& b)
	{
		if (a.n == b.n) return true;
		if (a->t.size() != b->t.size() || a->c != b->c) return false;
		for (size_t i = 0; i < a->t.size(); ++i)
			if (a->t[i].first != b->t[i].first || a->t[i].second != b->t[i].second) return false;
		return true;
	}
	// this*k + b*m + add
	static Lin comb(const Lin& a, const Z& k, const Lin& b, const Z& m, const Z& add = Z(0))
	{
		LinN* r = new LinN;
		Lin R(r);
		r->c = a->c * k + b->c * m + add;
		const auto &x = a->t, &y = b->t;
		r->t.reserve(x.size() + y.size());
		size_t i = 0, j = 0;
		while (i < x.size() || j < y.size())
		{
			if (j == y.size() || (i < x.size() && x[i].first < y[j].first))
			{
				Z v = x[i].second * k;
				if (!v.isZero()) r->t.emplace_back(x[i].first, std::move(v));
				++i;
			}
			else if (i == x.size() || y[j].first < x[i].first)
			{
				Z v = y[j].second * m;
				if (!v.isZero()) r->t.emplace_back(y[j].first, std::move(v));
				++j;
			}
			else
			{
				Z v = x[i].second * k + y[j].second * m;
				if (!v.isZero()) r->t.emplace_back(x[i].first, std::move(v));
				++i; ++j;
			}
		}
		return R;
	}
	Lin scale(const Z& k, const Z& add = Z(0)) const
	{
		LinN* r = new LinN; Lin R(r);
		r->c = n->c * k + add;
		if (!k.isZero()) { r->t.reserve(n->t.size()); for (auto& p : n->t) r->t.emplace_back(p.first, p.second * k); }
		return R;
	}
	Lin plus(const Z& k) const { if (k.isZero()) return *this; LinN* r = new LinN; r->c = n->c + k; r->t = n->t; return Lin(r); }
	friend Lin operator+(const Lin& a, const Lin& b)
	{
		if (a.isConst()) return b.plus(a.cst());
		if (b.isConst()) return a.plus(b.cst());
		return comb(a, Z(1), b, Z(1));
	}
	friend Lin operator-(const Lin& a, const Lin& b)
	{
		if (b.isConst()) return a.plus(-b.cst());
		return comb(a, Z(1), b, Z(-1));
	}
	friend Lin operator*(const Lin& a, const Z& k) { return k.isOne() ? a : a.scale(k); }
	friend Lin operator-(const Lin& a) { return a.scale(Z(-1)); }
	size_t hash() const
	{
		size_t h = n->c.hash();
		for (auto& p : n->t) h = h * 1000003 + p.first * 7919 + p.second.hash();
		return h;
	}
	std::string str() const
	{
		std::string s;
		for (auto& p : n->t) { if (!s.empty()) s += " + "; s += p.second.str() + "*s" + std::to_string(p.first); }
		if (s.empty() || !n->c.isZero()) { if (!s.empty()) s += " + "; s += n->c.str(); }
		return s;
	}
};

// ------------------------------------------------------------------ interval sets
typedef std::vector<std::pair<long, long>> IvSet; // sorted, disjoint

inline IvSet ivIntersect(const IvSet& a, const IvSet& b)
{
	IvSet r;
	for (auto& x : a) for (auto& y : b)
	{
		long l = std::max(x.first, y.first), h = std::min(x.second, y.second);
		if (l <= h) r.emplace_back(l, h);
	}
	std::sort(r.begin(), r.end());
	return r;
}
inline IvSet ivUnion(IvSet a, const IvSet& b)
{
	a.insert(a.end(), b.begin(), b.end());
	std::sort(a.begin(), a.end());
	IvSet r;
	for (auto& x : a)
		if (!r.empty() && x.first <= (r.back().second == LONG_MAX ? LONG_MAX : r.back().second + 1)) r.back().second = std::max(r.back().second, x.second);
		else r.push_back(x);
	return r;
}
inline IvSet ivMinus(const IvSet& a, const IvSet& b)
{
	IvSet r = a;
	for (auto& y : b)
	{
		IvSet q;
		for (auto& x : r)
		{
			if (y.second < x.first || y.first > x.second) { q.push_back(x); continue; }
			if (x.first < y.first) q.emplace_back(x.first, y.first - 1);
			if (x.second > y.second) q.emplace_back(y.second + 1, x.second);
		}
		r = q;
	}
	return r;
}

// ------------------------------------------------------------------ symbols
struct SymN
{
	int rc = 0;
	uint64_t uid = 0;                 // the same in all the states, which share the symbol
	Z lo, hi;
	std::shared_ptr<const IvSet> set; // union of intervals (characters)
	Lin dl; Z dd;                     // floor(dl / dd), when dl is set
	Lin alias;                        // equal to this expression
	std::vector<Lin> cons;            // inequalities >= 0, this symbol being the newest one of each
};
class SymP
{
	SymN* n;
public:
	SymP() : n(nullptr) {}
	explicit SymP(SymN* x) : n(x) { ++n->rc; }
	SymP(const SymP& o) : n(o.n) { if (n) ++n->rc; }
	SymP(SymP&& o) noexcept : n(o.n) { o.n = nullptr; }
	~SymP() { if (n && --n->rc == 0) delete n; }
	SymP& operator=(SymP o) { std::swap(n, o.n); return *this; }
	const SymN* operator->() const { return n; }
	SymN& mut() { if (n->rc > 1) { SymN* x = new SymN(*n); x->rc = 1; --n->rc; n = x; } return *n; }
};

struct MemoN { size_t h; Lin l; Z d; SymId q; std::shared_ptr<const MemoN> next; ~MemoN() { auto n = std::move(next); while (n && n.use_count() == 1) { auto m = std::move(const_cast<MemoN*>(n.get())->next); n = std::move(m); } } };

struct DomStats { unsigned long proves = 0, nodes = 0, syms = 0; };
extern DomStats domStats;
extern bool domChain; // quotients of one expression are related to each other

struct Dom
{
	std::vector<SymP> syms;
	std::shared_ptr<const MemoN> memo;
	bool bottom = false;

	const SymN& S(SymId s) const { return *syms[s].operator->(); }

	SymId newSym(const Z& lo, const Z& hi)
	{
		static uint64_t uids = 0;
		SymN* n = new SymN; n->uid = ++uids; n->lo = lo; n->hi = hi;
		syms.push_back(SymP(n));
		++domStats.syms;
		if (lo > hi) bottom = true;
		return syms.size() - 1;
	}
	Lin fresh(const Z& lo, const Z& hi) { if (lo == hi) return Lin(lo); return Lin::sym(newSym(lo, hi)); }

	bool pinned(SymId s) const { const SymN& n = S(s); return n.alias || n.lo == n.hi; }

	Lin resolve(const Lin& l) const
	{
		bool any = false;
		for (auto& p : l->t) if (pinned(p.first)) { any = true; break; }
		if (!any) return l;
		Lin r(l->c);
		LinN* keep = new LinN; Lin K(keep);
		for (auto& p : l->t)
		{
			const SymN& n = S(p.first);
			if (n.lo == n.hi) keep->c += n.lo * p.second;
			else if (n.alias) r = Lin::comb(r, Z(1), n.alias, p.second);
			else keep->t.push_back(p);
		}
		r = r + K;
		return resolve(r);
	}

	// interval evaluation
	Z ilo(const Lin& l) const
	{
		Z r = l->c;
		for (auto& p : l->t) { const SymN& n = S(p.first); r += p.second * (p.second.sgn() > 0 ? n.lo : n.hi); }
		return r;
	}
	Z ihi(const Lin& l) const
	{
		Z r = l->c;
		for (auto& p : l->t) { const SymN& n = S(p.first); r += p.second * (p.second.sgn() > 0 ? n.hi : n.lo); }
		return r;
	}

	static Lin normGE(const Lin& e) // e >= 0, divided by the gcd of the coefficients
	{
		if (e->t.empty()) return e;
		Z g(0);
		for (auto& p : e->t) { g = gcd(g, p.second); if (g.isOne()) return e; }
		LinN* n = new LinN; Lin R(n);
		n->c = fdiv(e->c, g);
		for (auto& p : e->t) n->t.emplace_back(p.first, fdiv(p.second, g));
		return R;
	}

	static const Z* coefOf(const Lin& l, SymId s)
	{
		for (auto& p : l->t) if (p.first == s) return &p.second;
		return nullptr;
	}

	// eliminate the newest symbol of e (coefficient k) with c >= 0 (coefficient of the same sign)
	static Lin elim(const Lin& e, const Z& k, const Lin& c, const Z& ck, bool slack = false)
	{
		Z a = abs(ck), b = abs(k), g = gcd(a, b);
		if (!g.isOne()) { a = fdiv(a, g); b = fdiv(b, g); }
		// a*e >= b*c - (a-1) is enough for the integer e to be non-negative
		return Lin::comb(e, a, c, -b, slack ? a - Z(1) : Z(0));
	}

	bool proveRec(const Lin& e0, int& budget) const
	{
		Lin e = normGE(e0);
		if (ilo(e).sgn() >= 0) return true;
		if (e->t.empty()) return false;
		if (--budget < 0) return false;
		++domStats.nodes;
		SymId s = e->t.back().first;
		const Z k = e->t.back().second;
		const SymN& n = S(s);
		for (auto& c : n.cons)
			if (c->t.size() == e->t.size() && c->c <= e->c && c->t == e->t) return true;
		for (size_t i = n.cons.size(); i-- > 0;)
		{
			Lin c = resolve(n.cons[i]);
			const Z* ck = coefOf(c, s);
			if (!ck || ck->sgn() != k.sgn() || c->t.back().first != s) continue;
			if (proveRec(elim(e, k, c, *ck, true), budget)) return true;
			if (budget < 0) return false;
		}
		if (n.dl)
		{
			Lin d = resolve(n.dl);
			// d - dd*s >= 0 ; dd*s + dd-1 - d >= 0
			Lin c = k.sgn() < 0 ? Lin::comb(d, Z(1), Lin::sym(s), -n.dd) : Lin::comb(d, Z(-1), Lin::sym(s), n.dd, n.dd - Z(1));
			if (c->t.size() && c->t.back().first == s && proveRec(elim(e, k, c, c->t.back().second, true), budget)) return true;
			if (budget < 0) return false;
		}
		if (e->t.size() > 1)
		{
			// interval of the symbol itself
			LinN* r = new LinN; Lin R(r);
			r->c = e->c + k * (k.sgn() > 0 ? n.lo : n.hi);
			r->t.assign(e->t.begin(), e->t.end() - 1);
			if (proveRec(R, budget)) return true;
		}
		return false;
	}
	// is e >= 0 implied?
	bool proveGE(const Lin& e, int budget = 600) const
	{
		++domStats.proves;
		Lin r = resolve(e);
		if (ilo(r).sgn() >= 0) return true;
		return proveRec(r, budget);
	}

	Z lowerRec(const Lin& e0, int& budget) const
	{
		Lin e = e0;
		Z g(0);
		for (auto& p : e->t) { g = gcd(g, p.second); if (g.isOne()) break; }
		Z add(0);
		if (!e->t.empty() && !g.isOne())
		{
			LinN* n = new LinN; Lin R(n);
			add = e->c;
			for (auto& p : e->t) n->t.emplace_back(p.first, fdiv(p.second, g));
			e = R;
		}
		else g = Z(1);
		Z best = ilo(e);
		if (e->t.size() >= 1 && --budget >= 0)
		{
			SymId s = e->t.back().first;
			const Z k = e->t.back().second;
			const SymN& n = S(s);
			for (auto& c : n.cons) if (c->t.size() == e->t.size() && c->t == e->t && e->c - c->c > best) best = e->c - c->c;
			auto use = [&](const Lin& c)
			{
				const Z* ck = coefOf(c, s);
				if (!ck || ck->sgn() != k.sgn() || c->t.back().first != s) return;
				Z a = abs(*ck), b = abs(k), gg = gcd(a, b);
				a = fdiv(a, gg);
				Z v = cdiv(lowerRec(elim(e, k, c, *ck), budget), a);
				if (v > best) best = v;
			};
			for (size_t i = n.cons.size(); i-- > 0 && budget >= 0;) use(resolve(n.cons[i]));
			if (n.dl && budget >= 0)
			{
				Lin d = resolve(n.dl);
				use(k.sgn() < 0 ? Lin::comb(d, Z(1), Lin::sym(s), -n.dd) : Lin::comb(d, Z(-1), Lin::sym(s), n.dd, n.dd - Z(1)));
			}
			if (e->t.size() > 1 && budget >= 0)
			{
				LinN* r = new LinN; Lin R(r);
				r->c = e->c + k * (k.sgn() > 0 ? n.lo : n.hi);
				r->t.assign(e->t.begin(), e->t.end() - 1);
				Z v = lowerRec(R, budget);
				if (v > best) best = v;
			}
		}
		return best * g + add;
	}
	Z lower(const Lin& e, int budget = 120) const { Lin r = resolve(e); if (r->t.size() == 0) return r->c; return lowerRec(r, budget); }
	Z upper(const Lin& e, int budget = 120) const { return -lower(-e, budget); }

	// ---------------------------------------------------------------- refinement
	void setBottom() { bottom = true; }

	void refine(SymId s, const Z& lo, const Z& hi)
	{
		if (bottom) return;
		const SymN& n = S(s);
		Z nl = n.lo < lo ? lo : n.lo, nh = n.hi > hi ? hi : n.hi;
		if (nl == n.lo && nh == n.hi) return;
		std::shared_ptr<const IvSet> set = n.set;
		if (set && nl <= nh)
		{
			IvSet r = ivIntersect(*set, IvSet{ { nl.toLong(), nh.toLong() } });
			if (r.empty()) { bottom = true; return; }
			nl = Z(r.front().first); nh = Z(r.back().second);
			set = std::make_shared<IvSet>(r);
		}
		if (nl > nh) { bottom = true; return; }
		SymN& m = syms[s].mut();
		m.lo = nl; m.hi = nh; m.set = set;
		if (m.dl)
		{
			Lin dl = m.dl; Z dd = m.dd;
			assumeGE(Lin::comb(dl, Z(1), Lin(dd * nl), Z(-1)));
			assumeGE(Lin::comb(Lin(dd * nh + dd - Z(1)), Z(1), dl, Z(-1)));
		}
		if (syms[s]->alias)
		{
			Lin al = syms[s]->alias;
			assumeGE(al.plus(-nl));
			assumeGE(Lin(nh) - al);
		}
		repin(s);
	}
	// a symbol became a constant: hand its inequalities over to older symbols
	void repin(SymId s)
	{
		if (bottom || syms[s]->lo != syms[s]->hi || syms[s]->cons.empty()) return;
		std::vector<Lin> cons; cons.swap(syms[s].mut().cons);
		for (auto& c : cons) assumeGE(c);
	}
	void refineSet(SymId s, const IvSet& set)
	{
		if (bottom) return;
		const SymN& n = S(s);
		IvSet cur = n.set ? *n.set : IvSet{ { n.lo.toLong(), n.hi.toLong() } };
		IvSet r = ivIntersect(cur, set);
		if (r.empty()) { bottom = true; return; }
		SymN& m = syms[s].mut();
		Z nl(r.front().first), nh(r.back().second);
		m.set = std::make_shared<IvSet>(r);
		if (nl > m.lo || nh < m.hi)
		{
			Lin dl = m.dl, al = m.alias; Z dd = m.dd;
			m.lo = nl; m.hi = nh;
			if (dl)
			{
				assumeGE(Lin::comb(dl, Z(1), Lin(dd * nl), Z(-1)));
				assumeGE(Lin::comb(Lin(dd * nh + dd - Z(1)), Z(1), dl, Z(-1)));
			}
			if (al) { assumeGE(al.plus(-nl)); assumeGE(Lin(nh) - al); }
		}
		repin(s);
	}

	// consequence of the inequality for the older symbols: the newest one, a quotient, is eliminated
	int projecting = 0;
	void project(const Lin& e, SymId s)
	{
		const SymN& n = S(s);
		if (!n.dl || projecting > 12) return;
		Lin d = resolve(n.dl);
		const Z k = e->t.back().second;
		// k > 0: s <= dl/dd ; k < 0: s >= (dl - dd + 1)/dd
		Lin c = k.sgn() > 0 ? Lin::comb(d, Z(1), Lin::sym(s), -n.dd) : Lin::comb(d, Z(-1), Lin::sym(s), n.dd, n.dd - Z(1));
		if (c->t.empty() || c->t.back().first != s) return;
		const Z ck = c->t.back().second;
		Z a = abs(ck), b = abs(k), g = gcd(a, b);
		Lin r = Lin::comb(e, fdiv(a, g), c, fdiv(b, g));
		++projecting;
		assumeGE(r);
		--projecting;
	}
	void assumeGE(const Lin& e0)
	{
		if (bottom) return;
		Lin e = normGE(resolve(e0));
		if (e->t.empty()) { if (e->c.sgn() < 0) bottom = true; return; }
		if (e->t.size() == 1)
		{
			SymId s = e->t[0].first; const Z& k = e->t[0].second;
			const SymN& n = S(s);
			// normalised: |k| == 1
			if (k.sgn() > 0) { if (n.lo < -e->c) refine(s, -e->c, n.hi); }
			else if (n.hi > e->c) refine(s, n.lo, e->c);
			return;
		}
		Z lo = ilo(e);
		if (lo.sgn() >= 0) return;
		if (proveGE(Lin(Z(-1)) - e, 200)) { bottom = true; return; }
		SymId s = e->t.back().first;
		for (auto& c : S(s).cons) if (c == e) return;
		syms[s].mut().cons.push_back(e);
		project(e, s);
		if (bottom) return;
		// interval propagation
		Z hi = ihi(e);
		for (auto& p : e->t)
		{
			if (bottom) return;
			const SymN& n = S(p.first);
			// p.second * s >= -(hi - contribution)
			Z rest = hi - p.second * (p.second.sgn() > 0 ? n.hi : n.lo);
			if (p.second.sgn() > 0)
			{
				Z b = cdiv(-rest, p.second);
				if (b > n.lo) { refine(p.first, b, n.hi); hi = ihi(e); }
			}
			else
			{
				Z b = fdiv(rest, -p.second);
				if (b < n.hi) { refine(p.first, n.lo, b); hi = ihi(e); }
			}
		}
	}
	void assumeEQ(const Lin& e0)
	{
		if (bottom) return;
		Lin e = resolve(e0);
		if (e->t.empty()) { if (!e->c.isZero()) bottom = true; return; }
		Z g(0);
		for (auto& p : e->t) g = gcd(g, p.second);
		if (!g.isOne())
		{
			if (!fmod(e->c, g).isZero()) { bottom = true; return; }
			LinN* n = new LinN; Lin R(n);
			n->c = fdiv(e->c, g);
			for (auto& p : e->t) n->t.emplace_back(p.first, fdiv(p.second, g));
			e = R;
		}
		if (e->t.size() == 1)
		{
			Z v = e->t[0].second.sgn() > 0 ? -e->c : e->c;
			SymId s = e->t[0].first;
			const SymN& n = S(s);
			if (v < n.lo || v > n.hi) { bottom = true; return; }
			if (n.set) { refineSet(s, IvSet{ { v.toLong(), v.toLong() } }); if (bottom) return; }
			refine(s, v, v);
			return;
		}
		assumeGE(e); assumeGE(-e);
		if (bottom) return;
		e = resolve(e);
		if (e->t.size() < 2) { if (!e->t.empty()) assumeEQ(e); return; }
		// only the newest symbol is replaced: constraints of other symbols refer to older ones
		for (size_t i = e->t.size() - 1, once = 1; once; once = 0)
		{
			const Z& k = e->t[i].second;
			if (!abs(k).isOne()) continue;
			SymId s = e->t[i].first;
			Lin rest = Lin::comb(e, k.sgn() > 0 ? Z(-1) : Z(1), Lin::sym(s), Z(1)); // s == rest
			if (coefOf(rest, s)) continue;
			const SymN n = S(s);
			SymN& m = syms[s].mut();
			m.alias = rest;
			std::vector<Lin> cons; cons.swap(m.cons);
			Lin dl = m.dl; Z dd = m.dd;
			assumeGE(rest.plus(-n.lo));
			assumeGE(Lin(n.hi) - rest);
			for (auto& c : cons) assumeGE(c);
			if (dl)
			{
				assumeGE(Lin::comb(dl, Z(1), rest, -dd));
				assumeGE(Lin::comb(dl, Z(-1), rest, dd, dd - Z(1)));
			}
			return;
		}
	}

	// tighten every symbol by its definition
	void propagate()
	{
		for (SymId i = 0; i < syms.size() && !bottom; ++i)
		{
			const SymN& n = S(i);
			if (n.lo == n.hi) continue;
			if (n.dl)
			{
				Lin d = resolve(n.dl); Z dd = n.dd;
				Z a = fdiv(ilo(d), dd), b = fdiv(ihi(d), dd);
				refine(i, a, b);
			}
			else if (n.alias) { Lin d = resolve(n.alias); refine(i, ilo(d), ihi(d)); }
		}
		for (SymId i = 0; i < syms.size() && !bottom; ++i)
			for (auto& c : S(i).cons)
				if (ihi(resolve(c)).sgn() < 0) bottom = true;
	}
	// propagates bounds along all the known relations until nothing changes; false: no such state
	bool saturate(int rounds = 12)
	{
		bool ch = true;
		while (ch && rounds-- > 0 && !bottom)
		{
			ch = false;
			auto upd = [&](SymId i, const Z& a, const Z& b) { const SymN& n = S(i); if (a > n.lo || b < n.hi) { refine(i, a, b); ch = true; } };
			for (SymId i = 0; i < syms.size() && !bottom; ++i)
			{
				const SymN& n = S(i);
				if (n.dl)
				{
					Lin d = resolve(n.dl); Z dd = n.dd;
					upd(i, fdiv(ilo(d), dd), fdiv(ihi(d), dd));
				}
				else if (n.alias) { Lin d = resolve(n.alias); upd(i, ilo(d), ihi(d)); }
				if (bottom) break;
				std::vector<Lin> cons = S(i).cons;
				for (auto& c0 : cons)
				{
					Lin e = normGE(resolve(c0));
					Z hi = ihi(e);
					if (hi.sgn() < 0) { bottom = true; break; }
					for (auto& p : e->t)
					{
						const SymN& m = S(p.first);
						Z rest = ihi(e) - p.second * (p.second.sgn() > 0 ? m.hi : m.lo);
						if (p.second.sgn() > 0) upd(p.first, cdiv(-rest, p.second), m.hi);
						else upd(p.first, m.lo, fdiv(rest, -p.second));
						if (bottom) break;
					}
					if (bottom) break;
				}
			}
		}
		return !bottom;
	}
	// is the system shown to have no integral solution by elimination of the equalities in it?
	bool contradicts() const
	{
		if (bottom) return true;
		std::vector<Lin> L;
		std::vector<char> used(syms.size(), 0);
		auto mark = [&](const Lin& l) { for (auto& p : l->t) used[p.first] = 1; };
		auto add = [&](const Lin& l) { Lin r = resolve(l); if (r->t.size() > 1) { mark(r); L.push_back(r); } };
		for (SymId i = 0; i < syms.size(); ++i)
		{
			const SymN& n = S(i);
			for (auto& c : n.cons) add(c);
			if (n.dl && !n.alias)
			{
				Lin d = resolve(n.dl), q = resolve(Lin::sym(i));
				add(Lin::comb(d, Z(1), q, -n.dd));
				add(Lin::comb(d, Z(-1), q, n.dd, n.dd - Z(1)));
			}
		}
		for (SymId i = 0; i < syms.size(); ++i)
			if (used[i]) { L.push_back(Lin::sym(i).plus(-S(i).lo)); L.push_back(Lin(S(i).hi) - Lin::sym(i)); }
		for (int round = 0; round < 120; ++round)
		{
			std::vector<std::pair<Lin, Z>> uniq;
			std::map<size_t, std::vector<size_t>> at;
			for (auto& e0 : L)
			{
				Lin e = normGE(e0);
				if (e->t.empty()) { if (e->c.sgn() < 0) return true; continue; }
				Lin base = e.plus(-e->c);
				auto& b = at[base.hash()];
				bool f = false;
				for (size_t k : b) if (uniq[k].first == base) { f = true; if (e->c < uniq[k].second) uniq[k].second = e->c; }
				if (!f) { b.push_back(uniq.size()); uniq.emplace_back(base, e->c); }
			}
			Lin eq;
			bool unit = false;
			for (auto& u : uniq)
			{
				Lin ng = -u.first;
				auto it = at.find(ng.hash());
				if (it == at.end()) continue;
				for (size_t k : it->second)
					if (uniq[k].first == ng)
					{
						Z sum = u.second + uniq[k].second;
						if (sum.sgn() < 0) return true;
						if (sum.isZero() && !unit)
						{
							for (auto& p : u.first->t) if (abs(p.second).isOne()) unit = true;
							if (unit || !eq) eq = u.first.plus(u.second);
						}
					}
			}
			L.clear();
			for (auto& u : uniq) L.push_back(u.first.plus(u.second));
			if (!eq) break;
			SymId v = 0; Z k(0);
			if (!unit)
			{
				// with v being the symbol of the least coefficient k, v + sum(c / k * x) is a new integer unknown
				Z g = abs(eq->c);
				for (auto& p : eq->t) { if (k.isZero() || abs(p.second) < abs(k)) { v = p.first; k = p.second; } g = gcd(g, p.second); }
				Lin sub = Lin(Z(0));
				for (auto& p : eq->t)
				{
					if (p.first == v) continue;
					Z q = k.sgn() > 0 ? fdiv(p.second, k) : fdiv(-p.second, -k);
					if (!q.isZero()) sub = Lin::comb(sub, Z(1), Lin::sym(p.first), q);
				}
				for (auto& e : L)
					if (const Z* c = coefOf(e, v)) e = Lin::comb(e, Z(1), sub, -*c);
				continue;
			}
			for (auto& p : eq->t) if (abs(p.second).isOne()) { v = p.first; k = p.second; }
			// k v + rest == 0
			for (auto& e : L)
				if (const Z* c = coefOf(e, v)) e = Lin::comb(e, Z(1), eq, -(*c * k));
		}
		// bounds
		std::map<SymId, std::pair<Z, Z>> B;
		const Z inf = Z::pow2(300);
		for (auto& e : L) for (auto& p : e->t) B.emplace(p.first, std::make_pair(-inf, inf));
		for (int round = 0; round < 8; ++round)
		{
			bool ch = false;
			for (auto& e : L)
				for (auto& p : e->t)
				{
					Z rest = e->c;
					for (auto& q : e->t) if (q.first != p.first) { auto& b = B[q.first]; rest = rest + q.second * (q.second.sgn() > 0 ? b.second : b.first); }
					auto& b = B[p.first];
					// p.second * x >= -rest
					if (p.second.sgn() > 0) { Z x = cdiv(-rest, p.second); if (x > b.first) { b.first = x; ch = true; } }
					else { Z x = fdiv(rest, -p.second); if (x < b.second) { b.second = x; ch = true; } }
					if (b.first > b.second) return true;
				}
			if (!ch) break;
		}
		return false;
	}
	// floor(l / d), d > 0 constant
	Lin floorDiv(const Lin& l0, const Z& d)
	{
		if (d.isOne()) return l0;
		Lin l = resolve(l0);
		if (l.isConst()) return Lin(fdiv(l->c, d));
		LinN* n1 = new LinN; Lin L1(n1);
		LinN* n2 = new LinN; Lin L2(n2);
		n1->c = fdiv(l->c, d); n2->c = l->c - n1->c * d;
		Z g(d);
		for (auto& p : l->t)
		{
			Z q = p.second.sgn() < 0 ? -fdiv(-p.second, d) : fdiv(p.second, d), r = p.second - q * d; // keeps the sign
			if (!q.isZero()) n1->t.emplace_back(p.first, q);
			if (!r.isZero()) { n2->t.emplace_back(p.first, r); g = gcd(g, r); }
		}
		if (n2->t.empty()) return L1;
		Z dd = d;
		if (!g.isOne())
		{
			n2->c = fdiv(n2->c, g);
			for (auto& p : n2->t) p.second = fdiv(p.second, g);
			dd = fdiv(d, g);
		}
		Z lo, hi;
		if (dd.isOne()) return L1 + L2;
		size_t h = L2.hash() * 31 + dd.hash();
		for (const MemoN* m = memo.get(); m; m = m->next.get())
			if (m->h == h && m->d == dd && m->l == L2)
				return L1 + resolve(Lin::sym(m->q));
		// quotients of the same expression by multiples of one another
		const MemoN* base = nullptr;
		for (const MemoN* m = domChain ? memo.get() : nullptr; m; m = m->next.get())
			if (m->d < dd && (!base || m->d > base->d) && fmod(dd, m->d).isZero() && m->l == L2) base = m;
		if (base)
		{
			Lin q = floorDiv(resolve(Lin::sym(base->q)), fdiv(dd, base->d));
			Lin qr = resolve(q);
			if (qr->t.size() == 1 && qr->c.isZero() && qr->t[0].second.isOne())
			{
				auto mn = std::make_shared<MemoN>();
				mn->h = h; mn->l = L2; mn->d = dd; mn->q = qr->t[0].first; mn->next = memo;
				memo = mn;
			}
			return L1 + q;
		}
		// the quotient of the original expression may have much tighter bounds, than that of the residue
		lo = fdiv(lower(L2, 60), dd); hi = fdiv(upper(L2, 60), dd);
		if (lo == hi) return L1.plus(lo);
		SymId q = newSym(lo, hi);
		SymN& m = syms[q].mut();
		m.dl = L2; m.dd = dd;
		auto mn = std::make_shared<MemoN>();
		mn->h = h; mn->l = L2; mn->d = dd; mn->q = q; mn->next = memo;
		memo = mn;
		for (const MemoN* k = domChain ? mn->next.get() : nullptr; k && !bottom; k = k->next.get())
			if (k->d > dd && fmod(k->d, dd).isZero() && k->l == L2)
			{
				Z r = fdiv(k->d, dd);
				Lin big = resolve(Lin::sym(k->q));
				assumeGE(Lin::comb(Lin::sym(q), Z(1), big, -r));
				assumeGE(Lin::comb(big, r, Lin::sym(q), Z(-1), r - Z(1)));
			}
		return L1 + Lin::sym(q);
	}
};
