#pragma once
#include "engine.h"
struct Ctx
{
	llvm::Module& M;
	Config cfg;
	int rank, nproc;
	volatile long* counter;   // shared work counter
	std::map<std::string, std::string> opt;
	std::string o(const std::string& k, const std::string& d = "") const { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
};
void modePrint(Engine& E, Ctx& c);
void modeHarness(Engine& E, Ctx& c);
void modeParse(Engine& E, Ctx& c);
