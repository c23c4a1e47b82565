// Obligations of the printing part: for every finite value the characters left in the
// buffer form the documented grammar, and denote a number inside the rounding interval.
#include <cmath>
#include <set>
#include "modes.h"
using namespace llvm;

struct FloatFmt { unsigned w, mb; int bias; }; // value = m * 2^(e - bias - mb)
static FloatFmt fmtOf(char c) { return c == 'd' ? FloatFmt{ 64, 52, 1023 } : FloatFmt{ 32, 23, 127 }; }

struct Text
{
	bool ok = false;
	std::string why;
	std::vector<Lin> ch;
};

// characters up to the terminating NUL
static Text readText(State& s, int obj, unsigned unit, long maxLen)
{
	Text t;
	const Obj& o = *s.objs[obj];
	std::map<long, const Cell*> m;
	for (auto& c : o.cells) m[c.off] = &c;
	for (long i = 0; i <= maxLen; ++i)
	{
		auto it = m.find(i * unit);
		if (it == m.end() || it->second->size != unit || it->second->v.k != Val::Int)
		{
			t.why = "character " + std::to_string(i) + " of the output isn't set";
			return t;
		}
		Lin l = s.dom.resolve(it->second->v.l);
		Z mod = Z::pow2(unit * 8);
		if (l.isConst()) l = Lin(fmod(l->c, mod));
		else if (!(s.dom.ilo(l).sgn() >= 0 && s.dom.ihi(l) < mod) && !(s.dom.proveGE(l, 100) && s.dom.proveGE(Lin(mod - Z(1)) - l, 100)))
		{
			Z k = fdiv(s.dom.lower(l), mod);
			l = l.plus(-(k * mod));
		}
		if (l.isConst() && l->c.isZero()) { t.ok = true; return t; }
		t.ch.push_back(l);
	}
	t.why = "the output isn't terminated inside the buffer";
	return t;
}

struct Num
{
	bool ok = false, neg = false, sci = false, hasDot = false;
	std::string why;
	Lin N{ 0 };       // digits as an integer
	long q = 0;       // decimal exponent of the last digit
	unsigned digits = 0, intDigits = 0;
	long exp = 0;
	unsigned expDigits = 0;
	std::string shape;
};

static Num parseText(State& s, const Text& t)
{
	Num r;
	size_t i = 0;
	auto isC = [&](size_t k, char c) { return k < t.ch.size() && t.ch[k].isConst() && t.ch[k]->c == Z((int)c); };
	auto isD = [&](size_t k)
	{
		if (k >= t.ch.size()) return false;
		Lin l = t.ch[k];
		if (l.isConst()) return l->c >= Z((int)'0') && l->c <= Z((int)'9');
		return s.dom.proveGE(l.plus(-(int)'0')) && s.dom.proveGE(Lin((int)'9') - l);
	};
	for (auto& l : t.ch) r.shape += l.isConst() && l->c > Z(32) && l->c < Z(127) ? std::string(1, (char)l->c.toLong()) : std::string("d");
	if (isC(i, '-')) { r.neg = true; ++i; }
	size_t b = i;
	long fd = 0;
	for (; i < t.ch.size(); ++i)
	{
		if (isC(i, '.'))
		{
			if (r.hasDot) { r.why = "two decimal points"; return r; }
			r.hasDot = true;
			if (i == b) { r.why = "no digit before the decimal point"; return r; }
			if (!isD(i + 1)) { r.why = "no digit after the decimal point"; return r; }
			continue;
		}
		if (isC(i, 'e')) break;
		if (!isD(i)) { r.why = "character " + std::to_string(i) + " isn't a digit: " + t.ch[i].str(); return r; }
		r.N = r.N * Z(10) + t.ch[i].plus(-(int)'0');
		++r.digits;
		if (r.hasDot) ++fd; else ++r.intDigits;
	}
	if (!r.digits) { r.why = "no digits"; return r; }
	r.q = -fd;
	if (i < t.ch.size())
	{
		r.sci = true;
		++i;
		bool en = false;
		if (isC(i, '-')) { en = true; ++i; }
		for (; i < t.ch.size(); ++i)
		{
			if (!isD(i) || !t.ch[i].isConst()) { r.why = "exponent isn't a number"; return r; }
			r.exp = r.exp * 10 + (t.ch[i]->c.toLong() - '0');
			++r.expDigits;
		}
		if (r.expDigits < 1 || r.expDigits > 3) { r.why = "exponent has " + std::to_string(r.expDigits) + " digits"; return r; }
		if (en) r.exp = -r.exp;
		r.q += r.exp;
	}
	r.ok = true;
	return r;
}

static std::string constText(const Text& t)
{
	std::string r;
	for (auto& l : t.ch) r += l.isConst() && l->c >= Z(0) && l->c < Z(128) ? (char)l->c.toLong() : '?';
	return r;
}

void modePrint(Engine& E, Ctx& c)
{
	std::string fn = c.o("fn");
	char ft = c.o("type", "d")[0];
	unsigned unit = std::stoi(c.o("unit", "1"));
	bool pair = c.o("pair") == "1";
	unsigned unit2 = std::stoi(c.o("unit2", "4"));
	FloatFmt ff = fmtOf(ft);
	const Function* f = E.M.getFunction(fn);
	if (!f) { E.incomplete = "no entry " + fn; return; }
	auto* g = E.M.getNamedGlobal(std::string("h_max_buffer_size_") + ft);
	if (!g || !g->hasInitializer()) { E.incomplete = "buffer size"; return; }
	long maxb = cast<ConstantInt>(g->getInitializer())->getZExtValue();
	int emax = ff.w == 64 ? 2047 : 255;

	E.cfg.noAlloc = fn.compare(0, 6, "h_str_") != 0;
	// partition: sign x exponent field; the significand field is symbolic
	// (signs: 1 positive, 2 negative; 4, 8: sampled with the step 8 times greater)
	struct Unit { int sign, e; };
	std::vector<Unit> us;
	int step = std::stoi(c.o("step", "1")), phase = std::stoi(c.o("phase", "0")), signs = std::stoi(c.o("signs", "3"));
	int eFrom = std::stoi(c.o("from", "0")), eTo = std::stoi(c.o("to", std::to_string(emax)));
	// exponent fields of values, at which the width of the exponent or the notation changes, are always taken
	std::set<int> turns;
	{
		auto decade = [&](int k)
		{
			const double l2 = 3.3219280948873623;
			for (int x = (int)std::floor(k * l2); x <= (int)std::floor((k + 1) * l2); ++x)
				if (int e = x + emax / 2; e >= 0 && e <= emax) turns.insert(e);
		};
		for (int k : { -101, -100, -99, -11, -10, -9, 9, 10, 98, 99, 100 }) decade(k);
		for (int k = -5; k <= 22; ++k) decade(k);
	}
	for (int sg = 0; sg < 2; ++sg)
	{
		int st = signs >> sg & 1 ? step : signs >> sg & 4 ? 8 * step : 0;
		if (!st) continue;
		for (int e = eFrom; e <= eTo; ++e)
			if (e < 3 || e >= emax - 2 || e % st == phase % st || turns.count(e)) us.push_back({ sg, e });
	}

	E.refineState = [&](Engine& E, State& s)
	{
		Lin r = s.dom.resolve(s.named["m"]);
		Z a = s.dom.ilo(r), b = s.dom.ihi(r);
		if (b - a > Z(64)) return false;
		for (Z v = a; v <= b; v += Z(1))
		{
			State x = s;
			x.refined = true;
			x.dom.assumeEQ(r.plus(-v));
			x.dom.propagate();
			if (!x.dom.bottom) E.work.push_back(std::move(x));
		}
		return true;
	};
	std::function<void(Engine&, State&, const Val&)> finish;
	E.onReturn = [&](Engine& E, State& s, const Val& ret)
	{
		{ auto& o = E.oblig["returns"]; ++o.first; ++o.second; }
		// a few values left: one by one
		Lin r = s.dom.resolve(s.named["m"]);
		if (r.isConst()) { s.dom.propagate(); if (s.dom.bottom) return; }
		else
		{
			Z a = s.dom.ilo(r), b = s.dom.ihi(r);
			if (b - a <= Z(64))
			{
				for (Z v = a; v <= b; v += Z(1))
				{
					State x = s;
					x.dom.assumeEQ(r.plus(-v));
					x.dom.propagate();
					if (!x.dom.bottom) finish(E, x, ret);
				}
				return;
			}
		}
		finish(E, s, ret);
	};
	finish = [&](Engine& E, State& s, const Val& ret)
	{
		Z sg = s.named["sign"]->c;
		bool neg = !sg.isZero();
		long e = s.named["exp"]->c.toLong();
		Lin m = s.named["m"];
		int nb = pair ? 2 : 1;
		for (auto& o : s.objs)
			if (o->kind == OK::Errno)
				for (auto& c : o->cells)
					E.check(s, "errno", c.off == 0 && c.v.k == Val::Int && s.dom.resolve(c.v.l - s.named["errno"]) == Lin(0), "printing changes errno");
		Text ts[2];
		Lin lens[2];
		for (int k = 0; k < nb; ++k)
		{
			int obj = (int)s.named["buf" + std::to_string(k)]->c.toLong();
			unsigned u = k == 0 ? unit : unit2;
			ts[k] = readText(s, obj, u, maxb - 1);
			if (!E.check(s, "terminated", ts[k].ok, ts[k].why)) return;
			if (pair)
			{
				int lo = (int)s.named["len" + std::to_string(k)]->c.toLong();
				const Obj& ob = *s.objs[lo];
				lens[k] = ob.cells.empty() ? Lin(-1) : s.dom.resolve(ob.cells[0].v.l);
			}
			else lens[k] = s.dom.resolve(ret.l);
			bool lok = lens[k].isConst() && fmod(lens[k]->c, Z::pow2(64)) == Z((long)ts[k].ch.size());
			E.check(s, "length", lok, "returned value differs from the number of the characters: " + lens[k].str() + " instead of " + std::to_string(ts[k].ch.size()));
		}
		if (pair)
		{
			bool same = ts[0].ch.size() == ts[1].ch.size();
			auto cmp = [&](State& x)
			{
				for (size_t i = 0; i < ts[0].ch.size(); ++i)
				{
					Lin d = x.dom.resolve(ts[0].ch[i] - ts[1].ch[i]);
					if (!(d.isConst() && d->c.isZero()) && !(x.dom.proveGE(d) && x.dom.proveGE(-d))) return false;
				}
				return true;
			};
			same = same && cmp(s);
			E.check(s, "char-types", same, "the texts differ: " + constText(ts[0]) + " and " + constText(ts[1]));
			return;
		}
		const Text& t = ts[0];
		m = s.dom.resolve(m);
		if (e == emax)
		{
			std::string x = constText(t);
			bool nan = s.dom.proveGE(m.plus(-1));
			bool inf = m.isConst() && m->c.isZero();
			if (nan) E.check(s, "special", x == "nan", "NaN is printed as \"" + x + "\"");
			else if (inf) E.check(s, "special", x == (neg ? "-inf" : "inf"), "infinity is printed as \"" + x + "\"");
			else E.check(s, "special", false, "NaN and infinity aren't distinguished: both are printed as \"" + x + "\"");
			return;
		}
		if (e == 0 && m.isConst() && m->c.isZero())
		{
			std::string x = constText(t);
			E.check(s, "special", x == "0", "zero is printed as \"" + x + "\"");
			return;
		}
		if (e == 0 && !s.dom.proveGE(m.plus(-1)))
		{
			Z lo = s.dom.lower(m);
			E.check(s, "special", false, "zero isn't distinguished from other values");
			return;
		}
		Num n = parseText(s, t);
		if (!E.check(s, "grammar", n.ok, n.why + " in \"" + n.shape + "\"")) return;
		E.check(s, "sign", n.neg == neg, neg ? "no sign of a negative value" : "sign of a positive value");
		// notation: width of the plain decimal form without its leading and decimal point characters
		{
			// position of the decimal point relative to the first significant digit
			size_t lead = neg ? 1 : 0;
			unsigned zeros = 0; // leading zero characters of the digit string
			size_t i = lead;
			for (; i < t.ch.size(); ++i)
			{
				if (t.ch[i].isConst() && t.ch[i]->c == Z((int)'.')) continue;
				if (t.ch[i].isConst() && t.ch[i]->c == Z((int)'0')) ++zeros; else break;
			}
			if (n.sci)
			{
				bool ok = n.intDigits == 1 && zeros == 0 && s.dom.proveGE(t.ch[lead].plus(-(int)'1'));
				E.check(s, "canonical", ok, "decimal exponent notation without exactly one non-zero digit before the point: \"" + n.shape + "\"");
				long digs = n.digits;
				long k = n.q, dp = digs + k;
				long width = std::max(dp, -k);
				E.check(s, "notation", width > 16, "decimal exponent notation is used for a value, which plain notation takes " + std::to_string(width) + " digits: \"" + n.shape + "\"");
			}
			else
			{
				long digs = (long)n.digits - zeros;
				bool ok = n.intDigits == 1 || (zeros == 0 && s.dom.proveGE(t.ch[lead].plus(-(int)'1')));
				E.check(s, "canonical", ok, "superfluous leading zeros: \"" + n.shape + "\"");
				(void)digs;
				long width = n.hasDot ? std::max<long>(n.intDigits == 1 && zeros ? 0 : n.intDigits, -n.q) : n.intDigits;
				E.check(s, "notation", width <= 16, "plain notation is used for a value, which takes " + std::to_string(width) + " digits: \"" + n.shape + "\"");
			}
		}
		// digits: no more than make sense, and none that says nothing
		{
			std::vector<Lin> ds; // from the first significant digit on
			bool frac = false;
			for (size_t i = neg ? 1 : 0; i < t.ch.size(); ++i)
			{
				const Lin& c = t.ch[i];
				if (c.isConst() && c->c == Z((int)'e')) break;
				if (c.isConst() && c->c == Z((int)'.')) { frac = i + 1 < t.ch.size(); continue; }
				if (ds.empty() && c.isConst() && c->c == Z((int)'0')) continue;
				ds.push_back(c);
			}
			if (!frac && !n.sci) while (!ds.empty() && ds.back().isConst() && ds.back()->c == Z((int)'0')) ds.pop_back();
			E.check(s, "digits", ds.size() <= (ff.w == 64 ? 17u : 9u), std::to_string(ds.size()) + " significant digits are printed: \"" + n.shape + "\"");
			if (frac || n.sci)
			{
				bool ok = !ds.empty();
				if (ok && !s.dom.proveGE(ds.back().plus(-(int)'1'), 4000))
				{
					State a = s;
					a.dom.assumeGE(Lin(Z((int)'0')) - a.dom.resolve(ds.back()));
					ok = a.dom.bottom;
				}
				E.check(s, "trailing", ok, "the last digit may be a superfluous zero: \"" + n.shape + "\"");
			}
		}
		// value: N * 10^q strictly between the midpoints with the neighbours
		Lin M = e ? m.plus(Z::pow2(ff.mb)) : m;
		long be = (e ? e : 1) - ff.bias - (long)ff.mb;  // v = M * 2^be
		// N*10^q  vs (2M +- 1) * 2^(be-1); lower neighbour is closer for powers of two
		auto gap = [&](State& x, const Lin& bound, long b2, bool upper)
		{
			// upper: bound*2^b2 - N*10^q > 0 ; lower: N*10^q - bound*2^b2 > 0
			Z p2(1), p10(1);
			Lin L = bound, R = n.N;
			if (b2 >= 0) p2 = Z::pow2(b2); else p10 = Z::pow2(-b2);
			if (n.q >= 0) p10 = p10 * Z::pow10(n.q); else p2 = p2 * Z::pow10(-n.q);
			Lin d = Lin::comb(L, p2, R, -p10);
			if (!upper) d = -d;
			d = x.dom.resolve(d.plus(-1));
			return x.dom.proveGE(d, 4000);
		};
		bool up = gap(s, (M * Z(2)).plus(1), be - 1, true);
		bool lo;
		if (e <= 1) lo = gap(s, (M * Z(2)).plus(-1), be - 1, false);
		else
		{
			State a = s, b = s;
			a.dom.assumeEQ(m);
			b.dom.assumeGE(m.plus(-1));
			lo = true;
			if (!a.dom.bottom) lo = lo && gap(a, (a.dom.resolve(M) * Z(4)).plus(-1), be - 2, false);
			if (!b.dom.bottom) lo = lo && gap(b, (b.dom.resolve(M) * Z(2)).plus(-1), be - 1, false);
		}
		if (!(up && lo) && getenv("VP_DUMP"))
		{
			fprintf(stderr, "--- %s  N=%s q=%ld m=%s e=%ld\n", n.shape.c_str(), s.dom.resolve(n.N).str().c_str(), n.q, m.str().c_str(), e);
			for (SymId i = 0; i < s.dom.syms.size(); ++i)
			{
				const SymN& y = s.dom.S(i);
				fprintf(stderr, "s%u [%s,%s]", i, y.lo.str().c_str(), y.hi.str().c_str());
				if (y.alias) fprintf(stderr, " = %s", y.alias.str().c_str());
				if (y.dl) fprintf(stderr, " floor((%s)/%s)", y.dl.str().c_str(), y.dd.str().c_str());
				for (auto& q : y.cons) fprintf(stderr, "  {%s>=0}", q.str().c_str());
				fprintf(stderr, "\n");
			}
		}
		E.check(s, "roundtrip", up && lo, std::string("the printed number may be ") + (up ? "" : "above ") + (lo ? "" : "below ") + "the interval, which rounds to the value: \"" + n.shape + "\"");
	};

	for (;;)
	{
		long k = __sync_fetch_and_add(c.counter, 1);
		if (k >= (long)us.size()) break;
		Unit u = us[k];
		State s = E.start(f);
		Z m52 = Z::pow2(ff.mb);
		Lin m = s.dom.fresh(Z(0), m52 - Z(1));
		s.named["sign"] = Lin(u.sign); s.named["exp"] = Lin(u.e); s.named["m"] = m;
		s.note((u.sign ? std::string("negative, ") : std::string("positive, ")) + "exponent field " + std::to_string(u.e));
		Frame& fr = s.top();
		fr.regs[0] = Val::mkInt(ff.w, m.plus(Z(u.e) * m52 + (u.sign ? Z::pow2(ff.w - 1) : Z(0))));
		for (int b = 0; b < (pair ? 2 : 1); ++b)
		{
			unsigned un = b == 0 ? unit : unit2;
			int o = E.newObj(s, OK::Arg, Lin(Z(maxb * un)), "buffer");
			s.objs[o].mut().isArray = true;
			fr.regs[1 + b] = Val::mkPtr(o, Lin(0));
			s.named["buf" + std::to_string(b)] = Lin(o);
		}
		if (pair)
			for (int b = 0; b < 2; ++b)
			{
				int o = E.newObj(s, OK::Arg, Lin(8), "length");
				fr.regs[3 + b] = Val::mkPtr(o, Lin(0));
				s.named["len" + std::to_string(b)] = Lin(o);
			}
		for (size_t o = 0; o < s.objs.size(); ++o)
			if (s.objs[o]->kind == OK::Errno)
			{
				s.named["errno"] = s.dom.fresh(Z(0), Z::pow2(31) - Z(1));
				E.storeCell(s, o, 0, 4, Val::mkInt(32, s.named["errno"]));
			}
		fr.objBase = s.objs.size();
		E.counts["partitions"]++;
		E.run(std::move(s));
		if (E.tooMany || !E.incomplete.empty()) break;
	}
}
