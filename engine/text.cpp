// The text being parsed: characters appear when the program reads them, and the specification
// automaton follows what the text read so far denotes.
#include "engine.h"
using namespace llvm;

enum Cls { K_NUL, K_ZERO, K_NZ, K_DIGIT, K_DOT, K_PLUS, K_MINUS, K_E, K_I, K_N, K_F, K_T, K_Y, K_A, K_OPEN, K_CLOSE, K_ALNUM, K_OTHER };
static const char* const clsName[] = { "NUL", "0", "1-9", "0-9", ".", "+", "-", "e", "i", "n", "f", "t", "y", "a", "(", ")", "alnum", "other" };

static IvSet letter(char c) { long l = c, u = c - 32; return IvSet{ { u, u }, { l, l } }; }
static IvSet one(char c) { return IvSet{ { (long)c, (long)c } }; }
static IvSet clsSet(int k)
{
	switch (k)
	{
	case K_NUL: return IvSet{ { 0, 0 } };
	case K_ZERO: return one('0');
	case K_NZ: return IvSet{ { '1', '9' } };
	case K_DIGIT: return IvSet{ { '0', '9' } };
	case K_DOT: return one('.');
	case K_PLUS: return one('+');
	case K_MINUS: return one('-');
	case K_E: return letter('e');
	case K_I: return letter('i');
	case K_N: return letter('n');
	case K_F: return letter('f');
	case K_T: return letter('t');
	case K_Y: return letter('y');
	case K_A: return letter('a');
	case K_OPEN: return one('(');
	case K_CLOSE: return one(')');
	case K_ALNUM: return IvSet{ { '0', '9' }, { 'A', 'Z' }, { '_', '_' }, { 'a', 'z' } };
	}
	return IvSet();
}
static IvSet allChars(const StrInfo& t)
{
	if (t.isSigned) { long h = 1L << (t.bits - 1); return IvSet{ { -h, h - 1 } }; }
	return IvSet{ { 0, (1L << t.bits) - 1 } };
}
static std::vector<int> relevant(Dfa st)
{
	switch (st)
	{
	case D_START: return { K_ZERO, K_NZ, K_DOT, K_PLUS, K_MINUS, K_I, K_N };
	case D_SIGN: return { K_ZERO, K_NZ, K_DOT, K_I, K_N };
	case D_INT: return { K_ZERO, K_NZ, K_DOT, K_E };
	case D_DOT0: return { K_ZERO, K_NZ };
	case D_FRAC: return { K_ZERO, K_NZ, K_E };
	case D_EXP0: return { K_DIGIT, K_PLUS, K_MINUS };
	case D_EXP1: case D_EXPD: return { K_DIGIT };
	case D_I1: case D_I4: return { K_N };
	case D_I2: return { K_F };
	case D_I3: case D_I5: return { K_I };
	case D_I6: return { K_T };
	case D_I7: return { K_Y };
	case D_N1: return { K_A };
	case D_N2: return { K_N };
	case D_N3: return { K_OPEN };
	case D_NP: return { K_ALNUM, K_CLOSE };
	default: return {};
	}
}

static void clearRun(Ghost& g) { g.run = g.dz = false; g.ZS = g.ZE = g.DP = Lin(0); }

// the significand is over
static void endDigits(Ghost& g)
{
	if (g.tail) g.TL = g.TL * Z::pow10(4 - g.n);
	else g.TL = Lin(0);
	g.n = 0; g.R = 0; g.zr = false;
	g.Zr = g.FD = Lin(0);
	g.dot = false;
	clearRun(g);
	if (!g.nz) { g.sig = Lin(0); g.X = Lin(0); }
}
static void endNumber(Ghost& g)
{
	if (g.tok == Tok::Number && g.hasExp && g.nz)
	{
		g.X = g.eneg ? g.X - g.EV : g.X + g.EV;
		if (!g.esat) g.eneg = g.hasExp = false;
	}
	else { g.eneg = g.esat = g.hasExp = false; }
	g.EV = Lin(0);
}

// s: the state with the character c appended to the text
void Engine::advance(State s, int k, const Lin& c, std::vector<State>& out)
{
	Ghost& g = s.gh;
	if (s.dom.bottom) return;
	const Lin P = s.str.P; // after the character
	auto done = [&](Dfa st) { g.st = st; out.push_back(std::move(s)); };
	auto stop = [&]()
	{
		if (g.st <= D_FRAC) endDigits(g);
		endNumber(g);
		done(D_DONE);
	};
	auto digit = [&](Dfa next)
	{
		g.tok = Tok::Number;
		g.A = P;
		if (k == K_ZERO)
		{
			if (!g.R) { if (g.dot) g.FD = g.FD.plus(1); }
			else if (!g.tail)
			{
				if (!g.zr) { g.zr = true; g.ZS = P.plus(-1); }
				g.Zr = g.Zr.plus(1);
				if (!g.dot) g.X = g.X.plus(1);
			}
			else
			{
				if (g.n < 4) { g.TL = g.TL * Z(10); ++g.n; }
				if (!g.dot) g.X = g.X.plus(1);
			}
			done(next);
			return;
		}
		g.nz = true;
		Lin d = c.plus(-(int)'0');
		if (!g.R)
		{
			g.sig = d; g.R = 1;
			g.X = g.dot ? -g.FD.plus(1) : Lin(0);
			g.FD = g.DP = Lin(0);
			done(next);
			return;
		}
		if (!g.dot) g.X = g.X.plus(1);
		if (g.tail)
		{
			if (g.n < 4) { g.TL = g.TL * Z(10) + d; ++g.n; }
			done(next);
			return;
		}
		int kappa = cfg.kappa, pad = kappa - g.R;
		// zeros and the digit fit
		for (int z = 0; z + 1 <= pad; ++z)
		{
			if (!g.zr && z) break;
			State t = s;
			Ghost& h = t.gh;
			if (g.zr) { if (!z) continue; t.dom.assumeEQ(g.Zr.plus(-z)); if (t.dom.bottom) continue; }
			h.sig = h.sig * Z::pow10(z + 1) + d;
			h.X = h.X.plus(-(z + 1));
			h.R += z + 1;
			h.zr = false; h.Zr = Lin(0);
			clearRun(h);
			h.st = next;
			out.push_back(std::move(t));
		}
		if (!g.zr && pad) return;
		// the digit is beyond the significand
		Lin left = g.Zr.plus(-pad); // zeros of the tail
		for (int z = 0; z <= 4; ++z)
		{
			State t = s;
			Ghost& h = t.gh;
			if (z < 4) t.dom.assumeEQ(left.plus(-z)); else t.dom.assumeGE(left.plus(-4));
			if (t.dom.bottom) continue;
			h.sig = h.sig * Z::pow10(pad);
			h.X = h.X.plus(-pad);
			h.R = kappa;
			h.tail = true;
			h.n = z < 4 ? z + 1 : 4;
			h.TL = z < 4 ? d : Lin(0);
			h.run = h.zr;
			if (!h.zr) clearRun(h);
			h.ZE = h.run ? P.plus(-1) : Lin(0);
			h.zr = false; h.Zr = Lin(0);
			h.st = next;
			out.push_back(std::move(t));
			if (!g.zr) break;
		}
	};
	switch (g.st)
	{
	case D_START:
	case D_SIGN:
		switch (k)
		{
		case K_PLUS: done(D_SIGN); return;
		case K_MINUS: g.neg = true; done(D_SIGN); return;
		case K_ZERO: case K_NZ: digit(D_INT); return;
		case K_DOT: g.dot = true; g.DP = P.plus(-1); done(D_DOT0); return;
		case K_I: done(D_I1); return;
		case K_N: done(D_N1); return;
		}
		stop(); return;
	case D_INT:
		if (k == K_ZERO || k == K_NZ) { digit(D_INT); return; }
		if (k == K_DOT)
		{
			g.dot = true; g.A = P;
			if (g.zr) g.dz = true;
			if (g.zr || !g.R) g.DP = P.plus(-1);
			done(D_FRAC);
			return;
		}
		if (k == K_E) { endDigits(g); done(D_EXP0); return; }
		stop(); return;
	case D_DOT0:
		if (k == K_ZERO || k == K_NZ) { digit(D_FRAC); return; }
		stop(); return;
	case D_FRAC:
		if (k == K_ZERO || k == K_NZ) { digit(D_FRAC); return; }
		if (k == K_E) { endDigits(g); done(D_EXP0); return; }
		stop(); return;
	case D_EXP0:
		if (k == K_PLUS || k == K_MINUS) { g.eneg = k == K_MINUS; done(D_EXP1); return; }
		// fall through
	case D_EXP1:
	case D_EXPD:
		if (k == K_DIGIT)
		{
			g.hasExp = true; g.A = P;
			if (!g.nz) { done(D_EXPD); return; } // doesn't matter for zero
			if (g.esat) { done(D_EXPD); return; }
			Lin e = g.EV * Z(10) + c.plus(-(int)'0');
			Z hi = s.dom.upper(e);
			if (hi >= Z(10000))
			{
				State t = s;
				t.dom.assumeGE(e.plus(-10000));
				t.gh.EV = Lin(10000); t.gh.esat = true; t.gh.st = D_EXPD;
				if (!t.dom.bottom) out.push_back(std::move(t));
				s.dom.assumeGE(Lin(9999) - e);
				if (s.dom.bottom) return;
			}
			g.EV = e;
			done(D_EXPD);
			return;
		}
		if (g.st != D_EXPD) { g.hasExp = false; }
		stop(); return;
	case D_I1: if (k == K_N) { done(D_I2); return; } stop(); return;
	case D_I2: if (k == K_F) { g.tok = Tok::Inf; g.A = P; done(D_I3); return; } stop(); return;
	case D_I3: if (k == K_I) { done(D_I4); return; } stop(); return;
	case D_I4: if (k == K_N) { done(D_I5); return; } stop(); return;
	case D_I5: if (k == K_I) { done(D_I6); return; } stop(); return;
	case D_I6: if (k == K_T) { done(D_I7); return; } stop(); return;
	case D_I7: if (k == K_Y) g.A = P; stop(); return;
	case D_N1: if (k == K_A) { done(D_N2); return; } stop(); return;
	case D_N2: if (k == K_N) { g.tok = Tok::Nan; g.A = P; done(D_N3); return; } stop(); return;
	case D_N3: if (k == K_OPEN) { done(D_NP); return; } stop(); return;
	case D_NP: if (k == K_ALNUM) { done(D_NP); return; } if (k == K_CLOSE) g.A = P; stop(); return;
	case D_DONE: done(D_DONE); return;
	}
}

// one more character of the text gets known
void Engine::materialize(State& s)
{
	IvSet rest = allChars(s.str);
	std::vector<std::pair<int, IvSet>> gs;
	auto add = [&](int k, IvSet set) { rest = ivMinus(rest, set); if (!set.empty()) gs.emplace_back(k, set); };
	add(K_NUL, clsSet(K_NUL));
	for (int k : relevant(s.gh.st)) add(k, ivIntersect(rest, clsSet(k)));
	add(K_OTHER, rest);
	std::vector<State> out;
	for (auto& g : gs)
	{
		State t = s;
		if (g.first != K_NUL) t.dom.assumeGE(Lin(Z(t.str.maxLen - 1)) - t.str.P);
		if (t.dom.bottom) continue;
		Lin c;
		if (g.second.size() == 1 && g.second[0].first == g.second[0].second) c = Lin(Z(g.second[0].first));
		else
		{
			SymId y = t.dom.newSym(Z(g.second.front().first), Z(g.second.back().second));
			t.dom.syms[y].mut().set = std::make_shared<IvSet>(g.second);
			c = Lin::sym(y);
		}
		t.str.P = t.dom.resolve(t.str.P.plus(1));
		t.str.win.insert(t.str.win.begin(), Val::mkInt(t.str.bits, c));
		if (t.str.win.size() > 64) t.str.win.pop_back();
		if (g.first == K_NUL) t.str.closed = true;
		t.note(std::string("'") + clsName[g.first] + "'");
		advance(std::move(t), g.first, c, out);
	}
	++counts["characters"];
	for (auto& t : out) if (!t.dom.bottom) { push(std::move(t)); ++forks; }
	throw Stop();
}

Val Engine::loadString(State& s, const Lin& off, unsigned bytes)
{
	StrInfo& t = s.str;
	if (bytes != t.elem) unsupported("read of the text with another character size");
	if (t.over) unsupported("unforeseen read of the text");
	s.readSince = true;
	if (s.numeric)
	{
		s.numeric = false;
		if (s.part != s.part0 && s.shared && cfg.rankSplit)
		{
			// the cases of the numeric part are shared out
			if (getenv("VP_EV")) fprintf(stderr, "EV %zx %zx steps=%lu R=%d tail=%d nz=%d st=%s P=%s sig=%s TL=%s\n", s.part, s.salt, s.steps, s.gh.R, s.gh.tail, s.gh.nz, dfaName[s.gh.st], s.dom.resolve(s.str.P).str().c_str(), s.dom.resolve(s.gh.sig).str().c_str(), s.dom.resolve(s.gh.TL).str().c_str());
			size_t h = (s.part ^ s.salt * 31) / 64;
			s.part = s.part * 1000003 ^ s.salt;
			digest = digest * 1000003 + h;
			if (cfg.nproc > 1 && h % cfg.nproc != (size_t)cfg.rank) throw Stop();
			s.shared = false;
			push(std::move(s));
			throw Stop();
		}
	}
	Lin o = s.dom.resolve(s.dom.floorDiv(off, Z((int)t.elem)));
	Lin dist = s.dom.resolve(t.P - o);
	auto oob = [&](const char* what)
	{
		++oblig["oob-read"].first;
		violation(s, "oob-read", what);
		abandon();
	};
	Val r;
	bool found = false;
	auto inRun = [&]()
	{
		const Ghost& g = s.gh;
		if (!(g.zr || g.run)) return false;
		return s.dom.proveGE(o - g.ZS) && s.dom.proveGE((g.zr ? t.P : g.ZE) - o.plus(1));
	};
	if (dist.isConst())
	{
		Z d = dist->c;
		if (d.sgn() <= 0)
		{
			if (t.closed) oob("characters after the terminating NUL are read");
			materialize(s);
		}
		if (d <= Z((long)t.win.size())) { r = t.win[d.toLong() - 1]; found = true; }
	}
	if (!found && inRun())
	{
		char c = '0';
		if (s.gh.dz && decideEQ(s, o - s.gh.DP)) c = '.';
		r = Val::mkInt(t.bits, Lin((int)c));
		found = true;
	}
	if (!found)
	{
		if (!dist.isConst())
		{
			if (!decideGE(s, dist.plus(-1)))
			{
				if (t.closed) oob("characters after the terminating NUL may be read");
				materialize(s);
			}
			for (size_t k = 1; !found && k <= t.win.size() && k <= 8; ++k)
				if (decideEQ(s, dist.plus(-(int)k))) { r = t.win[k - 1]; found = true; }
		}
		if (!found)
		{
			if (!s.dom.proveGE(o)) oob("characters before the beginning of the text may be read");
			IvSet set = ivMinus(allChars(t), clsSet(K_NUL));
			SymId y = s.dom.newSym(Z(set.front().first), Z(set.back().second));
			s.dom.syms[y].mut().set = std::make_shared<IvSet>(set);
			r = Val::mkInt(t.bits, Lin::sym(y));
			++counts["forgotten-characters"];
		}
	}
	auto& ob = oblig["oob-read"];
	++ob.first; ++ob.second;
	for (auto& cf : s.fr)
	{
		bool need = !cf->firstRead || !cf->scanned;
		for (auto& l : cf->loops) if (!l.firstRead) need = true;
		if (!need) continue;
		Frame& f = cf.mut();
		f.scanned = true;
		if (!f.firstRead) f.firstRead = o;
		for (auto& l : f.loops) if (!l.firstRead && (!f.fi->bl[l.header].unroll || l.visits > 70)) l.firstRead = o;
	}
	return r;
}
