// Analysis of small specification harnesses: the obligations are written in the harness with
// the vp_* vocabulary, pointer arguments are separate objects of the caller.
#include "modes.h"
using namespace llvm;

static Z power(unsigned b, unsigned n) { Z r(1); while (n--) r *= Z((int)b); return r; }

// is m * 2^e within half a unit (of m) from 10^k, and m normalized?
static bool powerOk(const Z& m, long e, long k, unsigned bits, std::string& why)
{
	if (!(m >= Z::pow2(bits - 1) && m < Z::pow2(bits))) { why = "significand of the power isn't normalized"; return false; }
	Z n(1), d(1);
	if (k >= 0) n = power(10, k); else d = power(10, -k);
	if (e >= 0) d *= Z::pow2(e); else n *= Z::pow2(-e);
	// |m - n/d| <= 1/2
	if (abs(m * d - n) * Z(2) > d) { why = "stored power isn't the nearest one to the exact value"; return false; }
	return true;
}

void modeHarness(Engine& E, Ctx& c)
{
	const Function* f = c.M.getFunction(c.o("fn"));
	if (!f || f->isDeclaration()) { E.incomplete = "entry point " + c.o("fn") + " isn't found"; return; }
	E.cfg.rankSplit = true;
	domChain = true;
	State s = E.start(f);
	std::vector<Val> args;
	unsigned i = 0;
	for (auto& a : f->args())
	{
		Val v;
		if (a.getType()->isPointerTy())
		{
			int o = E.newObj(s, OK::Arg, Lin(64), "argument " + std::to_string(i));
			v = Val::mkPtr(o, Lin(0));
		}
		else if (a.getType()->isIntegerTy()) { unsigned w = a.getType()->getIntegerBitWidth(); v = Val::mkInt(w, s.dom.fresh(Z(0), Z::pow2(w) - Z(1))); }
		else { unsigned w = c.M.getDataLayout().getTypeStoreSizeInBits(a.getType()); v = Val::mkInt(w, s.dom.fresh(Z(0), Z::pow2(w) - Z(1))); }
		args.push_back(v);
		s.top().regs[i++] = v;
	}
	s.top().objBase = s.objs.size();
	std::string expect = c.o("expect"), kind = c.o("kind", "harness");
	auto same = [](Engine& E, State& s, const Val& a, const Val& b)
	{
		if (a.k != b.k) return false;
		if (a.k == Val::Ptr) return a.obj == b.obj && s.dom.resolve(a.l - b.l) == Lin(0);
		if (a.k == Val::Int) return s.dom.resolve(a.l - b.l) == Lin(0);
		return false;
	};
	E.onExternal = [&](Engine& E, State& s, const CallBase* cb, const std::string& n, const std::vector<Val>& a)
	{
		if (n == "vp_check_power") // (significand, exponent, decimal exponent, bits)
		{
			Lin m = E.asU(s, a[0]), e = E.asS(s, a[1]), k = E.asS(s, a[2]), b = E.asU(s, a[3]);
			if (!m.isConst() || !e.isConst() || !k.isConst()) E.unsupported("power isn't a constant of the program");
			std::string why;
			bool ok = powerOk(m->c, e->c.toLong(), k->c.toLong(), b->c.toLong(), why);
			E.check(s, "power", ok, why + ": 10^" + k->c.str());
			E.finishCall(s, cb, Val());
			return;
		}
		if (!expect.empty())
		{
			if (!E.check(s, "callee", n == expect, "calls " + n + " instead of " + expect)) E.abandon();
			bool ok = a.size() == args.size();
			for (size_t i = 0; ok && i < a.size(); ++i) ok = same(E, s, a[i], args[i]);
			E.check(s, "arguments", ok, "arguments of " + n + " aren't those of the caller");
			bool once = !s.named.count("result");
			E.check(s, "once", once, n + " is called again");
			unsigned w = c.M.getDataLayout().getTypeStoreSizeInBits(cb->getType());
			Lin r = s.dom.fresh(Z(0), Z::pow2(w) - Z(1));
			s.named["result"] = r;
			E.finishCall(s, cb, Val::mkInt(w, r));
			return;
		}
		E.unsupported("call of an unknown external function " + n);
	};
	E.onReturn = [&](Engine& E, State& s, const Val& r)
	{
		if (expect.empty()) { E.check(s, "reached", true, ""); return; }
		auto it = s.named.find("result");
		E.check(s, "result", it != s.named.end() && r.k == Val::Int && s.dom.resolve(r.l - it->second) == Lin(0), "the result of " + expect + " isn't returned unchanged");
	};
	E.run(std::move(s));
}
