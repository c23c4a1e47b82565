// Models of the functions, which bodies aren't part of the analysed module.
#include "engine.h"
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <cstring>
#pragma STDC FP_CONTRACT OFF
using namespace llvm;

static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }

// length of a zero terminated array of units
static Lin stringLength(Engine& E, State& s, const Val& p, unsigned unit)
{
	for (long i = 0;; ++i)
	{
		Val q = p;
		q.l = p.l.plus(Z(i * unit));
		Val c = E.loadScalar(s, q, unit, Type::getIntNTy(E.M.getContext(), unit * 8));
		if (c.k == Val::Undef) { E.violation(s, "uninit", "length of a string, which isn't zero terminated"); E.abandon(); }
		if (E.decideEQ(s, E.asU(s, c))) return Lin(Z(i));
		if (i > 4096) E.unsupported("length of a long string");
	}
}

// functions of <cctype>, <cwctype> and <cstring>, which look at characters
static bool characterFunction(Engine& E, State& s, const CallBase* cb, const std::string& n0, const std::vector<Val>& a, unsigned w)
{
	auto ret = [&](const Val& v) { E.finishCall(s, cb, v); return true; };
	std::string n = n0;
	const bool wide = n.compare(0, 3, "isw") == 0 || n.compare(0, 3, "tow") == 0;
	if (wide) n.erase(2, 1);
	typedef std::vector<std::pair<int, int>> Set;
	static const std::map<std::string, Set> classes = {
		{ "isdigit", { { '0', '9' } } }, { "isalpha", { { 'A', 'Z' }, { 'a', 'z' } } }, { "isalnum", { { '0', '9' }, { 'A', 'Z' }, { 'a', 'z' } } },
		{ "isspace", { { 9, 13 }, { ' ', ' ' } } }, { "isupper", { { 'A', 'Z' } } }, { "islower", { { 'a', 'z' } } }, { "isblank", { { 9, 9 }, { ' ', ' ' } } },
		{ "isxdigit", { { '0', '9' }, { 'A', 'F' }, { 'a', 'f' } } }, { "iscntrl", { { 0, 31 }, { 127, 127 } } }, { "isprint", { { 32, 126 } } }, { "isgraph", { { 33, 126 } } },
		{ "ispunct", { { 33, 47 }, { 58, 64 }, { 91, 96 }, { 123, 126 } } }, { "toupper", { { 'a', 'z' } } }, { "tolower", { { 'A', 'Z' } } } };
	auto it = classes.find(n);
	if (it != classes.end() && a.size() == 1)
	{
		Lin x = wide ? E.asU(s, a[0]) : E.asS(s, a[0]);
		const bool maps = n[0] == 't';
		if (!wide && !(s.dom.proveGE(x.plus(1)) && s.dom.proveGE(Lin(255) - x)))
		{
			bool in = E.decideGE(s, x.plus(1)) && E.decideGE(s, Lin(255) - x);
			if (!in) { E.violation(s, "oob-read", n0 + "() gets a value, which is not one of unsigned char"); E.abandon(); }
		}
		if (E.decideGE(s, x) && E.decideGE(s, Lin(127) - x))
		{
			bool in = false;
			for (auto& r : it->second) if (E.decideGE(s, x.plus(-r.first)) && E.decideGE(s, Lin(r.second) - x)) { in = true; break; }
			if (maps) return ret(Val::mkInt(w, in ? x.plus(n == "toupper" ? -32 : 32) : x));
			return ret(Val::mkInt(w, in ? s.dom.fresh(Z(1), Z(1L << 30)) : Lin(0)));
		}
		// depends on the locale
		if (maps) return ret(Val::mkInt(w, wide ? s.dom.fresh(Z(0), Z((1L << 32) - 1)) : s.dom.fresh(Z(-1), Z(255))));
		if (n == "isdigit" || n == "isxdigit") return ret(Val::mkInt(w, Lin(0)));
		return ret(Val::mkInt(w, s.dom.fresh(Z(0), Z(1))));
	}
	n = n0;
	Type* el = Type::getInt8Ty(E.M.getContext());
	unsigned unit = 1;
	if (n.compare(0, 3, "wcs") == 0 || n.compare(0, 4, "wmem") == 0)
	{
		n = n[1] == 'c' ? "str" + n.substr(3) : n.substr(1);
		unit = 4;
		el = Type::getInt32Ty(E.M.getContext());
	}
	auto at = [&](const Val& p, long i)
	{
		Val q = p;
		q.l = p.l.plus(Z(i * (long)unit));
		Val c = E.loadScalar(s, q, unit, el);
		return unit == 1 ? E.asU(s, c) : E.asS(s, c);
	};
	const bool bounded = n == "strncmp" || n == "strncasecmp" || n == "memcmp" || n == "memchr" || n == "strnlen";
	long count = 1 << 20;
	if (bounded)
	{
		Lin l = E.asU(s, a[n == "strnlen" ? 1 : 2]);
		if (!l.isConst()) { E.enumerate(s, l, 300, "length of a memory block"); }
		count = l->c.fitsLong() ? std::min(l->c.toLong(), count) : count;
	}
	if (n == "strcmp" || n == "strncmp" || n == "memcmp" || n == "strcasecmp" || n == "strncasecmp" || n == "bcmp")
	{
		const bool fold = n.find("case") != std::string::npos, mem = n[0] != 's';
		if (n == "bcmp") { Lin l = E.asU(s, a[2]); if (!l.isConst()) E.unsupported("bcmp"); count = l->c.toLong(); }
		auto lower = [&](const Lin& x) { return fold && E.decideGE(s, x.plus(-'A')) && E.decideGE(s, Lin('Z') - x) ? x.plus(32) : x; };
		if (mem) for (long i = 0; i < count; ++i) { at(a[0], i); at(a[1], i); }
		for (long i = 0; i < count; ++i)
		{
			if (i > 4096) E.unsupported("comparison of long strings");
			Lin x = lower(at(a[0], i)), y = lower(at(a[1], i));
			if (!E.decideEQ(s, x - y))
			{
				bool g = E.decideGE(s, x - y);
				return ret(Val::mkInt(w, g ? s.dom.fresh(Z(1), Z(1L << 30)) : s.dom.fresh(Z(-(1L << 30)), Z(-1))));
			}
			if (!mem && E.decideEQ(s, x)) break;
		}
		return ret(Val::mkInt(w, Lin(0)));
	}
	if (n == "strchr" || n == "memchr")
	{
		Lin c = E.asU(s, a[1]);
		if (unit == 4) c = E.asS(s, a[1]);
		else if (!(s.dom.ilo(c).sgn() >= 0 && s.dom.ihi(c) < Z(256))) c = E.asU(s, Val::mkInt(8, a[1].l)); // converted to char
		for (long i = 0; i < count; ++i)
		{
			if (i > 4096) E.unsupported("search in a long string");
			Lin x = at(a[0], i);
			if (E.decideEQ(s, x - c)) { Val q = a[0]; q.l = q.l.plus(Z(i * (long)unit)); return ret(q); }
			if (n == "strchr" && E.decideEQ(s, x)) break;
		}
		return ret(Val::mkPtr(-1, Lin(0)));
	}
	if (n == "strnlen")
	{
		long i = 0;
		for (; i < count; ++i)
		{
			if (i > 4096) E.unsupported("length of a long string");
			if (E.decideEQ(s, at(a[0], i))) break;
		}
		return ret(Val::mkInt(w, Lin(Z(i))));
	}
	return false;
}

static Val fpFunction(Engine& E, State& s, unsigned id, unsigned fw, const std::vector<Val>& a)
{
	double x[3] = { 0, 0, 0 };
	bool known = true;
	for (size_t i = 0; i < a.size() && i < 3; ++i)
	{
		if (a[i].k != Val::Int) continue;
		Lin l = E.asU(s, a[i]);
		if (!l.isConst()) { known = false; break; }
		uint64_t u = l->c.toU64();
		if (fw == 64) memcpy(&x[i], &u, 8);
		else { uint32_t v = u; float g; memcpy(&g, &v, 4); x[i] = g; }
	}
	if (!known)
	{
		E.counts["fp-unknown"]++;
		return Val::mkInt(fw, s.dom.fresh(Z(0), Z::pow2(fw) - Z(1)));
	}
	double r = 0;
	switch (id)
	{
	case Intrinsic::trunc: r = std::trunc(x[0]); break;
	case Intrinsic::floor: r = std::floor(x[0]); break;
	case Intrinsic::ceil: r = std::ceil(x[0]); break;
	case Intrinsic::round: r = std::round(x[0]); break;
	case Intrinsic::rint: case Intrinsic::nearbyint: r = std::nearbyint(x[0]); break;
	case Intrinsic::fmuladd: r = fw == 64 ? x[0] * x[1] + x[2] : (double)((float)x[0] * (float)x[1] + (float)x[2]); break;
	case Intrinsic::fma: r = fw == 64 ? std::fma(x[0], x[1], x[2]) : (double)std::fma((float)x[0], (float)x[1], (float)x[2]); break;
	case Intrinsic::log10: r = std::log10(x[0]); break;
	case Intrinsic::log2: r = std::log2(x[0]); break;
	case Intrinsic::log: r = std::log(x[0]); break;
	case Intrinsic::pow: r = std::pow(x[0], x[1]); break;
	default: r = std::sqrt(x[0]); break;
	}
	uint64_t u = 0;
	if (fw == 64) memcpy(&u, &r, 8);
	else { float g = (float)r; uint32_t v; memcpy(&v, &g, 4); u = v; }
	return Val::mkInt(fw, Lin(Z((unsigned long)u)));
}

bool Engine::model(State& s, const CallBase* cb, const Function* f, const std::vector<Val>& a)
{
	std::string n = f->getName().str();
	unsigned w = cb->getType()->isIntegerTy() ? cb->getType()->getIntegerBitWidth() : 0;
	auto ret = [&](const Val& v) { finishCall(s, cb, v); return true; };
	if (f->isIntrinsic())
	{
		switch (f->getIntrinsicID())
		{
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
			copyMem(s, a[0], a[1], asU(s, a[2]), f->getIntrinsicID() == Intrinsic::memmove);
			return ret(Val());
		case Intrinsic::memset: case Intrinsic::memset_inline:
			setMem(s, a[0], a[1], asU(s, a[2]), 1);
			return ret(Val());
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
			if (a[1].k == Val::Ptr && a[1].obj >= 0) s.objs[a[1].obj].mut().cells.clear();
			return ret(Val());
		case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
		case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
			return ret(Val());
		case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
		case Intrinsic::strip_invariant_group:
			return ret(a[0]);
		case Intrinsic::is_constant:
			return ret(Val::mkInt(1, Lin(0)));
		case Intrinsic::objectsize:
			return ret(Val::mkInt(w, Lin(Z::pow2(w) - Z(1))));
		case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
			violation(s, "terminate", "the program is stopped");
			abandon();
		case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
		{
			bool sg = f->getIntrinsicID() == Intrinsic::smin || f->getIntrinsicID() == Intrinsic::smax;
			bool mn = f->getIntrinsicID() == Intrinsic::smin || f->getIntrinsicID() == Intrinsic::umin;
			Lin x = sg ? asS(s, a[0]) : asU(s, a[0]), y = sg ? asS(s, a[1]) : asU(s, a[1]);
			bool ge = decideGE(s, x - y);
			return ret(Val::mkInt(w, ge == mn ? y : x));
		}
		case Intrinsic::abs:
		{
			Lin x = asS(s, a[0]);
			bool neg = !decideGE(s, x);
			if (neg)
			{
				bool ok = s.dom.proveGE(x.plus(Z::pow2(w - 1) - Z(1)));
				if (!check(s, "signed-overflow", ok, "absolute value may overflow")) abandon();
			}
			return ret(Val::mkInt(w, neg ? -x : x));
		}
		case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop:
		{
			Lin x = asU(s, a[0]);
			if (f->getIntrinsicID() == Intrinsic::ctlz)
			{
				// split by the position of the highest bit
				for (unsigned k = w; k-- > 0;)
					if (decideGE(s, x.plus(-Z::pow2(k)))) return ret(Val::mkInt(w, Lin((int)(w - 1 - k))));
				return ret(Val::mkInt(w, Lin((int)w)));
			}
			if (x.isConst())
			{
				unsigned c = 0;
				if (f->getIntrinsicID() == Intrinsic::cttz) c = x->c.isZero() ? w : x->c.ctz();
				else for (Z z = x->c; !z.isZero(); z = fdiv(z, Z(2))) c += fmod(z, Z(2)).isOne();
				return ret(Val::mkInt(w, Lin((int)c)));
			}
			return ret(Val::mkInt(w, s.dom.fresh(Z(0), Z((int)w))));
		}
		case Intrinsic::fabs:
		{
			unsigned fw = cb->getType()->isDoubleTy() ? 64 : 32;
			if (!cb->getType()->isDoubleTy() && !cb->getType()->isFloatTy()) unsupported("fabs");
			Lin x = asU(s, a[0]);
			Z sg = Z::pow2(fw - 1);
			return ret(Val::mkInt(fw, decideGE(s, x.plus(-sg)) ? x.plus(-sg) : x));
		}
		case Intrinsic::copysign:
		{
			unsigned fw = cb->getType()->isDoubleTy() ? 64 : 32;
			if (!cb->getType()->isDoubleTy() && !cb->getType()->isFloatTy()) unsupported("copysign");
			Z sg = Z::pow2(fw - 1);
			Lin x = asU(s, a[0]), y = asU(s, a[1]);
			if (decideGE(s, x.plus(-sg))) x = x.plus(-sg);
			return ret(Val::mkInt(fw, decideGE(s, y.plus(-sg)) ? x.plus(sg) : x));
		}
		case Intrinsic::is_fpclass:
		{
			unsigned fw = cb->getArgOperand(0)->getType()->isDoubleTy() ? 64 : 32;
			unsigned mb = fw == 64 ? 52 : 23;
			Z sg = Z::pow2(fw - 1), inf = fw == 64 ? Z(0x7ff) * Z::pow2(52) : Z(0xff) * Z::pow2(23);
			Lin x = asU(s, a[0]);
			unsigned mask = (unsigned)asU(s, a[1])->c.toLong();
			bool neg = decideGE(s, x.plus(-sg));
			if (neg) x = x.plus(-sg);
			unsigned cls;
			if (decideGE(s, x.plus(-(inf + Z(1))))) cls = decideGE(s, x.plus(-(inf + Z::pow2(mb - 1)))) ? 2 : 1;
			else if (decideEQ(s, x.plus(-inf))) cls = neg ? 4 : 512;
			else if (decideEQ(s, x)) cls = neg ? 32 : 64;
			else if (decideGE(s, x.plus(-Z::pow2(mb)))) cls = neg ? 8 : 256;
			else cls = neg ? 16 : 128;
			return ret(Val::mkInt(1, Lin((cls & mask) ? 1 : 0)));
		}
		case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
		case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
		{
			auto id = f->getIntrinsicID();
			bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
			unsigned iw = cast<StructType>(cb->getType())->getElementType(0)->getIntegerBitWidth();
			Lin x = sg ? asS(s, a[0]) : asU(s, a[0]), y = sg ? asS(s, a[1]) : asU(s, a[1]), r;
			if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) r = x + y;
			else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) r = x - y;
			else if (x.isConst()) r = y * x->c;
			else if (y.isConst()) r = x * y->c;
			else { r = mulVal(s, Val::mkInt(iw, x), Val::mkInt(iw, y), iw).l; }
			r = s.dom.resolve(r);
			Z lo = sg ? -Z::pow2(iw - 1) : Z(0), hi = sg ? Z::pow2(iw - 1) - Z(1) : Z::pow2(iw) - Z(1);
			bool ov = !decideGE(s, r.plus(-lo)) || !decideGE(s, Lin(hi) - r);
			Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val>>();
			v.agg->push_back(Val::mkInt(iw, r));
			v.agg->push_back(Val::mkInt(1, Lin(ov ? 1 : 0)));
			return ret(v);
		}
		case Intrinsic::usub_sat: case Intrinsic::uadd_sat:
		{
			Lin x = asU(s, a[0]), y = asU(s, a[1]);
			if (f->getIntrinsicID() == Intrinsic::usub_sat) return ret(Val::mkInt(w, decideGE(s, x - y) ? x - y : Lin(0)));
			Lin r = x + y; Z hi = Z::pow2(w) - Z(1);
			return ret(Val::mkInt(w, decideGE(s, Lin(hi) - r) ? r : Lin(hi)));
		}
		case Intrinsic::fshl: case Intrinsic::fshr:
		{
			Lin k = asU(s, a[2]);
			Z c = fmod(enumerate(s, k, 256, "rotate amount"), Z((int)w));
			Lin x = asU(s, a[0]), y = asU(s, a[1]);
			long sh = c.toLong();
			if (f->getIntrinsicID() == Intrinsic::fshr) sh = w - sh;
			// (x:y) << sh, upper half
			Lin hiPart = s.dom.floorDiv(y, Z::pow2(w - sh));
			return ret(Val::mkInt(w, x * Z::pow2(sh) + hiPart));
		}
		case Intrinsic::trunc: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint:
		case Intrinsic::fmuladd: case Intrinsic::fma:
		case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::sqrt:
		{
			unsigned fw = cb->getType()->isDoubleTy() ? 64 : 32;
			if (!cb->getType()->isDoubleTy() && !cb->getType()->isFloatTy()) unsupported("floating point intrinsic");
			return ret(fpFunction(*this, s, f->getIntrinsicID(), fw, a));
		}
		default:
			unsupported("intrinsic " + n);
		}
	}
	if (!f->isDeclaration()) return false;
	// --- harness vocabulary
	if (n == "vp_check")
	{
		Lin c = asU(s, a[0]);
		std::string msg = "the required relation";
		if (a.size() > 1 && a[1].k == Val::Ptr && a[1].obj >= 0)
		{
			const Obj& o = *s.objs[a[1].obj];
			if (o.gv && o.gv->hasInitializer())
				if (auto* d = dyn_cast<ConstantDataArray>(o.gv->getInitializer())) if (d->isCString()) msg = d->getAsCString().str();
		}
		bool z = decideEQ(s, c);
		check(s, "harness", !z, msg);
		if (z) abandon();
		return ret(Val());
	}
	if (n == "vp_assume")
	{
		if (decideEQ(s, asU(s, a[0]))) throw Stop();
		return ret(Val());
	}
	if (n == "vp_any_u64") return ret(Val::mkInt(64, s.dom.fresh(Z(0), Z::pow2(64) - Z(1))));
	if (n == "vp_any_u32") return ret(Val::mkInt(32, s.dom.fresh(Z(0), Z::pow2(32) - Z(1))));
	if (n == "vp_any_int") return ret(Val::mkInt(32, s.dom.fresh(Z(0), Z::pow2(32) - Z(1))));
	if (n == "vp_range") // vp_range(lo, hi)
	{
		Lin lo = asS(s, a[0]), hi = asS(s, a[1]);
		return ret(Val::mkInt(w, s.dom.fresh(lo->c, hi->c)));
	}
	if (n == "vp_choice")
	{
		State t = s;
		finishCall(t, cb, Val::mkInt(1, Lin(0)));
		work.push_back(std::move(t));
		return ret(Val::mkInt(1, Lin(1)));
	}
	if (n == "vp_each") // split over [lo, hi]
	{
		Lin lo = asS(s, a[0]), hi = asS(s, a[1]);
		std::string nm = "each" + std::to_string(s.steps);
		Lin x;
		auto it = s.named.find("vp_each");
		if (it == s.named.end()) { x = s.dom.fresh(lo->c, hi->c); s.named["vp_each"] = x; }
		else x = it->second;
		Z k = enumerate(s, x, 100000, "case");
		s.named.erase("vp_each");
		return ret(Val::mkInt(w, Lin(k)));
	}
	// --- C and C++ library
	if (n == "memcpy" || n == "memmove") { copyMem(s, a[0], a[1], asU(s, a[2]), n == "memmove"); return ret(a[0]); }
	if (n == "memset") { setMem(s, a[0], Val::mkInt(8, asU(s, a[1])), asU(s, a[2]), 1); return ret(a[0]); }
	if (n == "wmemset") { setMem(s, a[0], a[1], asU(s, a[2]), 4); return ret(a[0]); }
	if (n == "wmemmove" || n == "wmemcpy") { copyMem(s, a[0], a[1], asU(s, a[2]) * Z(4), n == "wmemmove"); return ret(a[0]); }
	if (n == "strlen") return ret(Val::mkInt(64, stringLength(*this, s, a[0], 1)));
	if (n == "wcslen") return ret(Val::mkInt(64, stringLength(*this, s, a[0], 4)));
	static const std::map<std::string, unsigned> fpFns = {
		{ "trunc", Intrinsic::trunc }, { "floor", Intrinsic::floor }, { "ceil", Intrinsic::ceil }, { "round", Intrinsic::round },
		{ "rint", Intrinsic::rint }, { "nearbyint", Intrinsic::nearbyint }, { "log10", Intrinsic::log10 }, { "log2", Intrinsic::log2 },
		{ "log", Intrinsic::log }, { "pow", Intrinsic::pow }, { "sqrt", Intrinsic::sqrt } };
	{
		std::string b = n;
		if (cb->getType()->isFloatTy() && !b.empty() && b.back() == 'f') b.pop_back();
		auto it = fpFns.find(b);
		if (it != fpFns.end() && (cb->getType()->isDoubleTy() || cb->getType()->isFloatTy()))
			return ret(fpFunction(*this, s, it->second, cb->getType()->isDoubleTy() ? 64 : 32, a));
	}
	if (characterFunction(*this, s, cb, n, a, w)) return true;
	if (n == "abs" || n == "labs" || n == "llabs")
	{
		Lin x = asS(s, a[0]);
		bool neg = !decideGE(s, x);
		if (neg && !check(s, "signed-overflow", s.dom.proveGE(x.plus(Z::pow2(w - 1) - Z(1))), "absolute value may overflow")) abandon();
		return ret(Val::mkInt(w, neg ? -x : x));
	}
	if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "calloc" || n == "realloc" || n == "aligned_alloc" || n == "posix_memalign" || n == "strdup" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t")
	{
		counts["allocations"]++;
		if (cfg.noAlloc) { violation(s, "alloc", "memory is allocated"); }
		if (n == "realloc" || n == "posix_memalign" || n == "strdup") unsupported("call of " + n);
		Lin size = asU(s, a[n == "aligned_alloc" ? 1 : 0]);
		if (n == "calloc") { Lin k = asU(s, a[1]); if (!k.isConst()) unsupported("calloc"); size = size * k->c; }
		int o = newObj(s, OK::Heap, size, "heap block");
		if (n == "calloc") setMem(s, Val::mkPtr(o, Lin(0)), Val::mkInt(8, Lin(0)), size, 1);
		return ret(Val::mkPtr(o, Lin(0)));
	}
	if (n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvSt11align_val_t")
	{
		if (a[0].k == Val::Ptr && a[0].obj >= 0) { Obj& o = s.objs[a[0].obj].mut(); o.alive = false; o.cells.clear(); }
		return ret(Val());
	}
	if (n == "__assert_fail" || n == "__assert" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_")
	{
		std::string what;
		if (auto* c = dyn_cast<Constant>(cb->getArgOperand(n == "__assert_fail" ? 0 : 3)))
			if (auto* g = dyn_cast<GlobalVariable>(c->stripPointerCasts()))
				if (g->hasInitializer()) if (auto* d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isCString()) what = d->getAsCString().str();
		violation(s, "assert", "assertion may fail: " + what);
		abandon();
	}
	if (n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "quick_exit" || n == "raise")
	{
		violation(s, "terminate", "the program may be stopped by " + demangle(n));
		abandon();
	}
	if (n.find("__throw_") != std::string::npos || n == "__cxa_allocate_exception" || n == "__cxa_throw" || n == "__cxa_rethrow" || n == "__cxa_bad_cast")
	{
		violation(s, "throw", n == "__cxa_allocate_exception" ? std::string("an exception may be thrown") : "an exception may be thrown by " + demangle(n));
		abandon();
	}
	if (n == "__errno_location")
	{
		for (size_t i = 0; i < s.objs.size(); ++i)
			if (s.objs[i]->kind == OK::Errno) return ret(Val::mkPtr((int)i, Lin(0)));
	}
	return false;
}
