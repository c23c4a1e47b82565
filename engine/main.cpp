#include "modes.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <ctime>
#include <cstring>
using namespace llvm;

void modeScan(Module& M, std::ostream& os);
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string esc(const std::string& s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}
static std::string b64(const std::string& s) { static const char* h = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; } return r.empty() ? "-" : r; }
static std::string unb(const std::string& s) { if (s == "-") return ""; std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)std::stoi(s.substr(i, 2), nullptr, 16); return r; }

int main(int argc, char** argv)
{
	std::map<std::string, std::string> opt;
	std::string file, mode;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		size_t p = a.find('=');
		if (p != std::string::npos) opt[a.substr(0, p)] = a.substr(p + 1);
		else if (mode.empty()) mode = a;
		else file = a;
	}
	if (mode == "scan")
	{
		LLVMContext ctx;
		SMDiagnostic err;
		auto M = parseIRFile(file, err, ctx);
		if (!M) { std::cerr << "can't read " << file << "\n"; return 2; }
		if (opt.count("out")) { std::ofstream f(opt["out"]); modeScan(*M, f); }
		else modeScan(*M, std::cout);
		return 0;
	}
	int np = opt.count("j") ? std::stoi(opt["j"]) : 8;
	double limit = opt.count("limit") ? std::stod(opt["limit"]) : 600;
	volatile long* counter = (volatile long*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now();
	std::vector<std::pair<pid_t, int>> kids;
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(file, err, ctx);
	for (int r = 0; r < np; ++r)
	{
		char tmpl[] = "/tmp/vpeXXXXXX";
		int fd = mkstemp(tmpl);
		unlink(tmpl);
		pid_t p = fork();
		if (p == 0)
		{
			std::string out;
			if (!M) { out = "incomplete " + b64("can't read " + file) + "\n"; }
			else
			{
				Engine E(*M);
				E.cfg.rank = r; E.cfg.nproc = np; E.cfg.deadline = t0 + limit;
				if (opt.count("maxviol")) E.cfg.maxViol = std::stoi(opt["maxviol"]);
				if (opt.count("kinds"))
				{
					std::istringstream ks(opt["kinds"]);
					for (std::string k; std::getline(ks, k, ',');) E.cfg.kinds.insert(k);
				}
				Ctx c{ *M, E.cfg, r, np, counter, opt };
				try
				{
					if (mode == "print") modePrint(E, c);
					else if (mode == "harness") modeHarness(E, c);
					else if (mode == "parse") modeParse(E, c);
					else E.incomplete = "unknown mode";
				}
				catch (Stop&) { if (E.incomplete.empty()) E.incomplete = "stopped"; }
				std::ostringstream os;
				if (!E.incomplete.empty()) os << "incomplete " << b64(E.incomplete) << "\n";
				for (auto& v : E.viols) os << "viol " << b64(v.second.kind) << " " << b64(v.second.where) << " " << b64(v.second.msg) << " " << b64(v.second.fn) << " " << b64(v.second.trail) << " " << v.second.count << "\n";
				for (auto& o : E.oblig) os << "oblig " << b64(o.first) << " " << o.second.first << " " << o.second.second << "\n";
				for (auto& o : E.counts) os << "count " << b64(o.first) << " " << o.second << "\n";
				os << "count " << b64("end-states") << " " << E.leaves << "\ncount " << b64("splits") << " " << E.forks << "\ncount " << b64("transfers") << " " << E.totalSteps << "\ncount " << b64("bound-queries") << " " << domStats.proves << "\n";
				if (E.incomplete.empty()) os << "digest " << E.digest << "\n";
				for (auto& f : E.fnSeen) os << "fn " << b64(demangle(f)) << "\n";
				std::set<std::string> lines;
				for (auto& fp : E.fns) for (auto& b : fp.second->bl) for (size_t q = 0; q < b.ins.size(); ++q) if (b.seen[q]) { auto* i = b.ins[q]; std::string w = E.where(i); if (w.find("include/floaxie/") == 0) lines.insert(w); }
				for (auto& l : lines) os << "line " << b64(l) << "\n";
				out = os.str();
			}
			size_t off = 0;
			while (off < out.size()) { ssize_t k = write(fd, out.data() + off, out.size() - off); if (k <= 0) break; off += k; }
			std::string done = "done x\n";
			if (write(fd, done.data(), done.size()) < 0) _exit(1);
			_exit(0);
		}
		kids.emplace_back(p, fd);
	}
	struct V { std::string f[5]; unsigned long n; };
	std::map<std::string, V> viols;
	std::map<std::string, std::pair<unsigned long, unsigned long>> ob;
	std::map<std::string, unsigned long> cnt;
	std::set<std::string> fns, lines;
	std::string incomplete, digest;
	for (auto& k : kids)
	{
		int st;
		waitpid(k.first, &st, 0);
		lseek(k.second, 0, SEEK_SET);
		std::string in;
		char buf[65536];
		ssize_t n;
		while ((n = read(k.second, buf, sizeof buf)) > 0) in.append(buf, n);
		close(k.second);
		bool done = false;
		std::istringstream is(in);
		std::string ln;
		while (std::getline(is, ln))
		{
			std::istringstream ls(ln);
			std::string t, a;
			ls >> t;
			if (t == "done") done = true;
			else if (t == "incomplete") { ls >> a; if (incomplete.empty()) incomplete = unb(a); }
			else if (t == "viol")
			{
				V v; std::string key;
				for (int i = 0; i < 5; ++i) { ls >> a; v.f[i] = unb(a); if (i < 3) key += v.f[i] + "|"; }
				ls >> v.n;
				auto it = viols.find(key);
				if (it == viols.end()) viols[key] = v; else it->second.n += v.n;
			}
			else if (t == "oblig") { unsigned long x, y; ls >> a >> x >> y; ob[unb(a)].first += x; ob[unb(a)].second += y; }
			else if (t == "count") { unsigned long x; ls >> a >> x; cnt[unb(a)] += x; }
			else if (t == "digest") { ls >> a; if (digest.empty()) digest = a; if (digest != a && incomplete.empty()) incomplete = "the workers disagree on the shared part"; }
			else if (t == "fn") { ls >> a; fns.insert(unb(a)); }
			else if (t == "line") { ls >> a; lines.insert(unb(a)); }
		}
		if (!done && incomplete.empty()) incomplete = "analyser process failed, status " + std::to_string(st);
	}
	std::ostringstream os;
	os << "{\"incomplete\": \"" << esc(incomplete) << "\",\n \"violations\": [";
	bool first = true;
	for (auto& v : viols)
	{
		os << (first ? "" : ",") << "\n  {\"kind\": \"" << esc(v.second.f[0]) << "\", \"where\": \"" << esc(v.second.f[1]) << "\", \"msg\": \"" << esc(v.second.f[2]) << "\", \"function\": \"" << esc(v.second.f[3]) << "\", \"trail\": \"" << esc(v.second.f[4]) << "\", \"count\": " << v.second.n << "}";
		first = false;
	}
	os << "],\n \"obligations\": {";
	first = true;
	for (auto& o : ob) { os << (first ? "" : ", ") << "\"" << esc(o.first) << "\": [" << o.second.first << ", " << o.second.second << "]"; first = false; }
	os << "},\n \"counts\": {";
	first = true;
	for (auto& o : cnt) { os << (first ? "" : ", ") << "\"" << esc(o.first) << "\": " << o.second; first = false; }
	os << "},\n \"functions\": [";
	first = true;
	for (auto& o : fns) { os << (first ? "" : ", ") << "\"" << esc(o) << "\""; first = false; }
	os << "],\n \"lines\": [";
	first = true;
	for (auto& o : lines) { os << (first ? "" : ", ") << "\"" << esc(o) << "\""; first = false; }
	os << "],\n \"wall_s\": " << (now() - t0) << "}\n";
	if (opt.count("out")) { std::ofstream f(opt["out"]); f << os.str(); }
	else std::cout << os.str();
	return 0;
}
