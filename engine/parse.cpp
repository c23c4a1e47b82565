// Obligations of the parsing part: for every text the end position, the sign, the status and the
// value returned without the fallback function are those the text denotes, and the result of the
// fallback function is returned as it is.
#include <sstream>
#include "modes.h"
using namespace llvm;

static Z powZ(unsigned b, long e) { return b == 10 ? Z::pow10(e) : Z::pow2(e); }

// b * 2^p + add - n * 10^q >= 0 (or the opposite), exactly
static bool provePow(State& s, const Lin& b, long p, const Lin& n, long q, bool bGreater, long strict)
{
	Z kb(1), kn(1);
	if (p >= 0) kb = powZ(2, p); else kn = powZ(2, -p);
	if (q >= 0) kn = kn * powZ(10, q); else kb = kb * powZ(10, -q);
	Lin d = Lin::comb(b, kb, n, -kn);
	if (!bGreater) d = -d;
	return s.dom.proveGE(s.dom.resolve(d.plus(Z(-strict))), 4000);
}

void modeParse(Engine& E, Ctx& c)
{
	std::string fn = c.o("fn"), kind = c.o("entry", "atof"); // atof, null, string
	const Function* f = E.M.getFunction(fn);
	if (!f || f->isDeclaration()) { E.incomplete = "no entry " + fn; return; }
	bool dbl = c.o("type", "d") == "d";
	unsigned elem = std::stoi(c.o("unit", "1"));
	unsigned w = dbl ? 64 : 32, mb = dbl ? 52 : 23;
	int bias = dbl ? 1023 : 127, emax = dbl ? 2047 : 255;
	E.scanMode = true;
	E.elemBits = elem * 8;
	E.cfg.rankSplit = true;
	E.cfg.noAlloc = true;
	E.cfg.kappa = dbl ? 19 : 9;
	E.cfg.bigStep = std::stol(c.o("step", "1"));
	E.cfg.bigPhase = std::stol(c.o("phase", "0"));
	E.cfg.bigEdge = std::stol(c.o("edge", "8"));
	{
		std::stringstream at(c.o("at", ""));
		for (std::string k; std::getline(at, k, ',');) E.cfg.bigAt.insert(std::stol(k));
	}
	const Z sgBit = Z::pow2(w - 1), infBits = Z(emax) * Z::pow2(mb);

	State s = E.start(f);
	int so = E.newObj(s, OK::String, Lin(Z(0)), "text");
	StrInfo& t = s.str;
	t.maxLen = std::stol(c.o("len", "2048"));
	t.obj = so; t.elem = elem; t.bits = elem * 8;
	t.isSigned = c.o("signed", elem == 2 ? "0" : "1") == "1";
	s.gh.active = true;
	auto arg = [&](long size, const char* nm) { int o = E.newObj(s, OK::Arg, Lin(Z(size)), nm); return o; };
	int eo = -1, lenObj = -1;
	std::vector<Val> args;
	if (kind == "string")
	{
		int b = arg(32, "std::basic_string");
		E.storeCell(s, b, 0, 8, Val::mkPtr(so, Lin(0)));
		E.storeCell(s, b, 8, 8, Val::mkInt(64, s.dom.fresh(Z(0), Z(t.maxLen))));
		args.push_back(Val::mkPtr(b, Lin(0)));
		lenObj = b;
	}
	else args.push_back(Val::mkPtr(so, Lin(0)));
	if (kind == "atof")
	{
		eo = arg(8, "end pointer");
		args.push_back(Val::mkPtr(eo, Lin(0)));
	}
	int vo = arg(w / 8, "value"), sto = arg(1, "status");
	args.push_back(Val::mkPtr(vo, Lin(0)));
	args.push_back(Val::mkPtr(sto, Lin(0)));
	int er = -1;
	for (size_t i = 0; i < s.objs.size(); ++i) if (s.objs[i]->kind == OK::Errno) er = i;
	s.named["errno"] = s.dom.fresh(Z(0), Z::pow2(31) - Z(1));
	E.storeCell(s, er, 0, 4, Val::mkInt(32, s.named["errno"]));
	if (args.size() != f->arg_size()) { E.incomplete = "arguments of " + fn; return; }
	for (size_t i = 0; i < args.size(); ++i) s.top().regs[i] = args[i];
	s.top().objBase = s.objs.size();
	if (E.mayRead(f)) E.tagEntry(s, s.top());
	(void)lenObj;

	auto count = [&](State& s) { return !(s.shared && E.cfg.rank); };
	auto check = [&](State& s, const char* kind, bool ok, const std::string& msg)
	{
		if (ok && !count(s)) return true;
		if (!ok && getenv("VP_DUMP"))
		{
			const Ghost& g = s.gh;
			fprintf(stderr, "   ghost: st=%s tok=%d neg=%d nz=%d tail=%d esat=%d eneg=%d sig=%s X=%s [%s,%s] TL=%s A=%s fb=%d\n", dfaName[g.st], (int)g.tok, g.neg, g.nz, g.tail, g.esat, g.eneg, s.dom.resolve(g.sig).str().c_str(), s.dom.resolve(g.X).str().c_str(), s.dom.lower(g.X).str().c_str(), s.dom.upper(g.X).str().c_str(), s.dom.resolve(g.TL).str().c_str(), s.dom.resolve(g.A).str().c_str(), g.fb);
		}
		return E.check(s, kind, ok, msg);
	};

	E.onExternal = [&](Engine& E, State& s, const CallBase* cb, const std::string& n, const std::vector<Val>& a)
	{
		static const std::set<std::string> others { "strtod", "strtof", "strtold", "wcstod", "wcstof", "wcstold", "atof", "__isoc23_strtod", "sscanf" };
		if (others.count(n))
		{
			check(s, "fallback-args", false, n + "() is consulted instead of the fallback function of the caller");
			E.abandon();
		}
		if (n.compare(0, 12, "vp_fallback_") != 0) E.unsupported("call of an unknown external function " + n);
		Ghost& g = s.gh;
		check(s, "fallback-once", !g.fb, "the fallback function is called again");
		bool okText = a[0].k == Val::Ptr && a[0].obj == so && s.dom.resolve(a[0].l) == Lin(0);
		check(s, "fallback-args", okText, "the fallback function gets another text");
		check(s, "fallback-none", g.tok != Tok::None, "the fallback function is called for a text, which isn't a number");
		bool hasEnd = a[1].k == Val::Ptr && a[1].obj >= 0;
		if (a[1].k != Val::Ptr) { check(s, "fallback-args", false, "the fallback function gets an uninitialised end pointer"); E.abandon(); }
		check(s, "fallback-args", hasEnd || eo < 0, "the fallback function gets no end pointer");
		g = Ghost();
		g.active = g.fb = true; g.st = D_DONE;
		g.fbBits = Val::mkInt(w, Lin(0));
		E.joinCall(s, cb, hasEnd ? a[1] : Val());
	};
	E.onJoinedCall = [&](Engine& E, State& s, const CallBase* cb, const Val& end)
	{
		Ghost& g = s.gh;
		g.fbEnd = s.dom.fresh(Z(0), Z(t.maxLen)) * Z((int)elem);
		if (end.k == Val::Ptr) E.storeScalar(s, end, 8, Val::mkPtr(so, g.fbEnd));
		s.note("fallback function called");
		// zero, finite, infinity, NaN
		const std::pair<Z, Z> cls[] = { { Z(0), Z(0) }, { Z(1), infBits - Z(1) }, { infBits, infBits }, { infBits + Z(1), sgBit - Z(1) } };
		for (int k = 0; k < 24; ++k)
		{
			State x = s;
			Val ev;
			int e = k % 3 + 1;
			x.gh.fbErr = e % 3;
			x.gh.fbCls = k / 3 + 1;
			const auto& cl = cls[k / 3 % 4];
			const Z sg = k / 12 ? sgBit : Z(0);
			x.gh.fbBits = Val::mkInt(w, x.dom.fresh(cl.first + sg, cl.second + sg));
			if (e == 1) ev = Val::mkInt(32, Lin(34));
			if (e == 2) ev = Val::mkInt(32, x.dom.fresh(Z(1), Z(33)));
			if (e < 3) { E.storeCell(x, er, 0, 4, ev); x.named["errno"] = ev.l; }
			static const char* const names[] = { "zero", "a finite value", "infinity", "NaN" };
			x.note(std::string("it returns ") + names[k / 3 % 4]);
			x.note(e == 1 ? "it sets ERANGE" : e == 2 ? "it sets another error" : "it leaves errno alone");
			try { E.finishCall(x, cb, x.gh.fbBits); }
			catch (Stop&) { if (E.tooMany || !E.incomplete.empty()) throw; continue; }
			E.work.push_back(std::move(x));
		}
		throw Stop();
	};

	std::function<void(Engine&, State&)> value;
	auto cellOf = [&](State& s, int o, unsigned size) -> const Val*
	{
		for (auto& x : s.objs[o]->cells) if (x.off == 0 && x.size == size) return &x.v;
		return nullptr;
	};
	// normalises a value modulo 2^w
	auto norm = [&](State& s, const Lin& l0, unsigned w)
	{
		Lin l = s.dom.resolve(l0);
		Z m = Z::pow2(w);
		// multiples of 2^w
		Lin up(0);
		for (auto& p : l->t) if (fmod(p.second, m).isZero()) up = Lin::comb(up, Z(1), Lin::sym(p.first), p.second);
		l = s.dom.resolve(l - up);
		Z k = fdiv(s.dom.ilo(l), m);
		if (k == fdiv(s.dom.ihi(l), m)) return l.plus(-(k * m));
		k = fdiv(s.dom.lower(l), m);
		return l.plus(-(k * m));
	};
	auto statusName = [](const Lin& l) { return !l.isConst() ? std::string("indefinite") : l->c == Z(0) ? "success" : l->c == Z(1) ? "underflow" : l->c == Z(2) ? "overflow" : "unknown"; };

	E.onReturn = [&](Engine& E, State& s, const Val&)
	{
		const Ghost& g = s.gh;
		if (count(s)) { auto& o = E.oblig["returns"]; ++o.first; ++o.second; }
		if (getenv("VP_END")) { Lin N = s.dom.resolve(g.sig * Z(10000) + g.TL); fprintf(stderr, "END shared=%d tail=%d fb=%d exp=%d tok=%d esat=%d neg=%d X=%s sig=%s N=%s..%s part=%zx syms=%zu\n", s.shared, g.tail, g.fb, g.hasExp, (int)g.tok, g.esat, g.neg, s.dom.resolve(g.X).str().c_str(), s.dom.resolve(g.sig).str().c_str(), s.dom.lower(N).str().c_str(), s.dom.upper(N).str().c_str(), s.part0, s.dom.syms.size()); if (getenv("VP_END")[0] == (char)50) { std::string o = "TRAIL "; for (auto t = s.trail; t; t = t->prev) o += t->s + "|"; fprintf(stderr, "%s END X=%s N=%s part=%zx\n", o.c_str(), s.dom.resolve(g.X).str().c_str(), s.dom.lower(N).str().c_str(), s.part0); } }
		const Val* v = cellOf(s, vo, w / 8);
		const Val* st = cellOf(s, sto, 1);
		if (!check(s, "uninit", v && st && v->k == Val::Int && st->k == Val::Int, "value or status isn't set")) return;
		Lin bits = norm(s, v->l, w), stat = norm(s, st->l, 8);
		const Val* e = eo >= 0 ? cellOf(s, eo, 8) : nullptr;
		if (eo >= 0 && !check(s, "end", e && e->k == Val::Ptr && e->obj == so, "the end position isn't set or doesn't belong to the text")) return;
		auto eq = [&](const Lin& a, const Lin& b) { Lin d = s.dom.resolve(a - b); return d.isConst() ? d->c.isZero() : s.dom.proveGE(d) && s.dom.proveGE(-d); };
		{
			const Val* en = cellOf(s, er, 4);
			bool ok = en && en->k == Val::Int && eq(norm(s, en->l, 32), norm(s, s.named["errno"], 32));
			check(s, "errno", ok, !g.fb ? "errno is changed by a conversion, which doesn't need the fallback function" : g.fbErr ? "the error set by the fallback function isn't left in errno" : "errno is changed, though the fallback function has left it alone");
		}
		if (g.fb)
		{
			check(s, "fallback-result", eq(bits, g.fbBits.l), "the result of the fallback function isn't returned as it is");
			if (e) check(s, "fallback-end", eq(e->l, g.fbEnd), "the end position reported by the fallback function isn't returned as it is");
			const Lin b = s.dom.resolve(g.fbBits.l);
			if (g.fbErr == 0) check(s, "stale", eq(stat, Lin(0)), "an error, which happened before the call, is taken for the one of the call: " + statusName(stat));
			else if (g.fbErr == 2) check(s, "fallback-status", eq(stat, Lin(0)), "an error other than ERANGE is reported as " + statusName(stat));
			else
			{
				// zero, infinity or anything else
				auto isAny = [&](const Z& x)
				{
					if (b->t.size() == 1 && b->t[0].second.isOne() && b->c.isZero() && x.fitsLong())
						if (const auto& set = s.dom.S(b->t[0].first).set)
						{
							bool in = false;
							for (auto& p : *set) if (x.toLong() >= p.first && x.toLong() <= p.second) in = true;
							if (!in) return false;
						}
					return b.isConst() ? b->c == x : !(s.dom.proveGE(b.plus(-(x + Z(1)))) || s.dom.proveGE(Lin(x - Z(1)) - b));
				};
				bool z = eq(b, Lin(0)) || eq(b, Lin(sgBit)), i = eq(b, Lin(infBits)) || eq(b, Lin(infBits + sgBit));
				bool mayZ = isAny(Z(0)) || isAny(sgBit), mayI = isAny(infBits) || isAny(infBits + sgBit);
				bool ok = z ? eq(stat, Lin(1)) : i ? eq(stat, Lin(2)) : !mayZ && !mayI && eq(stat, Lin(0));
				check(s, "fallback-status", ok, std::string("a range error of the fallback function with the result ") + (z ? "zero" : i ? "infinity" : mayZ || mayI ? "not distinguished" : "finite") + " is reported as " + statusName(stat));
			}
			return;
		}
		if (!check(s, "consumed", g.st == D_DONE, std::string("the conversion ends before the extent of the number is known, state '") + dfaName[g.st] + "'")) return;
		if (getenv("VP_EV") && e && !eq(e->l, g.A * Z((int)elem))) fprintf(stderr, "END %s A=%s res=%s\n", e->l.str().c_str(), g.A.str().c_str(), s.dom.resolve(g.A).str().c_str());
		if (e) check(s, "end", eq(e->l, g.A * Z((int)elem)), "reported end position isn't the end of the number");
		// sign
		bool neg = g.neg && g.tok != Tok::None;
		Lin mag = neg ? s.dom.resolve(bits.plus(-sgBit)) : bits;
		bool sok = s.dom.proveGE(mag) && s.dom.proveGE(Lin(sgBit - Z(1)) - mag);
		if (!check(s, "sign", sok, neg ? "the result of a text with a minus sign is positive" : "the result of a text without a minus sign is negative"))
		{
			mag = neg ? bits : s.dom.resolve(bits.plus(-sgBit));
			if (!(s.dom.proveGE(mag) && s.dom.proveGE(Lin(sgBit - Z(1)) - mag))) return;
		}
		auto success = [&](const char* what) { check(s, "status", eq(stat, Lin(0)), std::string(what) + " is reported as " + statusName(stat)); };
		switch (g.tok)
		{
		case Tok::None:
			check(s, "nothing", eq(mag, Lin(0)), "text, which isn't a number, gives a value other than zero");
			success("text, which isn't a number,");
			return;
		case Tok::Inf:
			check(s, "special", eq(mag, Lin(infBits)), "infinity is read as another value");
			success("infinity");
			return;
		case Tok::Nan:
			check(s, "special", s.dom.proveGE(mag.plus(-(infBits + Z(1)))), "NaN is read as another value");
			success("NaN");
			return;
		default: break;
		}
		if (!g.nz)
		{
			check(s, "zero", eq(mag, Lin(0)), "zero is read as another value");
			success("zero");
			return;
		}
		State x = s;
		x.named["mag"] = mag;
		x.named["status"] = stat;
		value(E, x);
	};

	value = [&](Engine& E, State& s)
	{
		const Ghost& g = s.gh;
		Lin mag = s.dom.resolve(s.named["mag"]), stat = s.dom.resolve(s.named["status"]);
		auto is = [&](const Lin& a, int k) { Lin d = s.dom.resolve(a.plus(-k)); return d.isConst() ? d->c.isZero() : s.dom.proveGE(d) && s.dom.proveGE(-d); };
		// N <= value / 10^q <= N + up
		Lin N = g.tail ? g.sig * Z(10000) + g.TL : g.sig;
		long up = g.tail ? 1 : 0;
		long sh = g.tail ? 4 : 0;
		Lin X = s.dom.resolve(g.X);
		auto xbound = [&](bool low) -> std::pair<bool, long>
		{
			Z b = low ? s.dom.lower(X) : s.dom.upper(X);
			if (g.esat && (g.eneg ? low : !low)) return { false, 0 };
			if (!b.fitsLong() || abs(b) > Z(40000)) return { false, 0 };
			return { true, b.toLong() };
		};
		auto xl = xbound(true), xh = xbound(false);
		Lin l = mag;
		Z elo = fdiv(s.dom.lower(l), Z::pow2(mb)), ehi = fdiv(s.dom.upper(l), Z::pow2(mb));
		if (elo != ehi)
		{
			if (ehi - elo > Z(4)) { check(s, "rounding", false, "nothing is known of the result"); return; }
			for (Z k = elo; k <= ehi; k += Z(1))
			{
				State x = s;
				x.dom.assumeGE(l.plus(-(k * Z::pow2(mb))));
				x.dom.assumeGE(Lin((k + Z(1)) * Z::pow2(mb) - Z(1)) - l);
				if (!x.dom.bottom && x.dom.saturate()) value(E, x);
			}
			return;
		}
		long e = elo.toLong();
		auto ctx = [&]() { return std::string(g.tail ? " (more digits than the significand holds)" : "") + ", decimal exponent " + (X.isConst() ? X->c.str() : "[" + s.dom.lower(X).str() + "," + s.dom.upper(X).str() + "]") + (g.esat ? " and beyond" : ""); };
		Lin M = l.plus(-(Z(e) * Z::pow2(mb))); // significand field
		if (e == emax)
		{
			if (!check(s, "rounding", is(M, 0), "a number is read as NaN" + ctx())) return;
			// at least halfway from the greatest finite value to the next power of two
			bool ok = xl.first && provePow(s, Lin(Z::pow2(mb + 2) - Z(1)), emax - 1 - bias - (long)mb - 1, N, xl.second - sh, false, 0);
			check(s, "overflow", ok, "a number in the range of the type may be read as infinity" + ctx());
			check(s, "status", is(stat, 2), "overflow is reported as " + statusName(stat) + ctx());
			return;
		}
		if (e == 0)
		{
			bool nzM = s.dom.proveGE(M.plus(-1));
			if (!nzM && !is(M, 0))
			{
				State a = s, b = s;
				a.dom.assumeEQ(M); b.dom.assumeGE(M.plus(-1));
				if (!a.dom.bottom && a.dom.saturate()) value(E, a);
				if (!b.dom.bottom && b.dom.saturate()) value(E, b);
				return;
			}
			if (!nzM)
			{
				bool ok = xh.first && provePow(s, Lin(1), 1 - bias - (long)mb - 1, N.plus(up), xh.second - sh, true, 0);
				check(s, "underflow", ok, "a number, which doesn't round to zero, may be read as zero" + ctx());
				check(s, "status", is(stat, 1), "underflow is reported as " + statusName(stat) + ctx());
				return;
			}
		}
		check(s, "status", is(stat, 0), "finite non-zero result is reported as " + statusName(stat) + ctx());
		if (e) M = M.plus(Z::pow2(mb));
		long be = (e ? e : 1) - bias - (long)mb;
		bool hi = xh.first && provePow(s, (M * Z(2)).plus(1), be - 1, N.plus(up), xh.second - sh, true, 1);
		bool lo = true;
		if (!xl.first) lo = false;
		else
		{
			auto low = [&](State& y, const Lin& b, long p) { return provePow(y, y.dom.resolve(b), p, y.dom.resolve(N), xl.second - sh, false, 1); };
			Lin field = e ? M.plus(-Z::pow2(mb)) : M;
			if (e <= 1) lo = low(s, (M * Z(2)).plus(-1), be - 1);
			else
			{
				State a = s, b = s;
				a.dom.assumeEQ(field); b.dom.assumeGE(field.plus(-1));
				if (!a.dom.bottom) lo = lo && low(a, (M * Z(4)).plus(-1), be - 2);
				if (!b.dom.bottom) lo = lo && low(b, (M * Z(2)).plus(-1), be - 1);
			}
		}
		if (!(hi && lo) && getenv("VP_DUMP")) fprintf(stderr, "   M=%s be=%ld N=%s up=%ld\n", s.dom.resolve(M).str().c_str(), be, s.dom.resolve(N).str().c_str(), up);
		check(s, "rounding", hi && lo, std::string("the number may be ") + (hi ? "below" : lo ? "above" : "outside") + " the interval rounding to the result" + ctx());
	};
	E.counts["partitions"] += 1;
	E.run(std::move(s));
}
