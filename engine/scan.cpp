// Facts about the functions and variables of a module: calls, references to variables,
// linkage.  The rules over them are in ../vp/structural.py.
#include "engine.h"
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <iostream>
#include <sstream>
using namespace llvm;

static std::string esc(const std::string& s)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}
static std::string linkage(GlobalValue::LinkageTypes l)
{
	switch (l)
	{
	case GlobalValue::ExternalLinkage: return "external";
	case GlobalValue::InternalLinkage: case GlobalValue::PrivateLinkage: return "internal";
	case GlobalValue::LinkOnceAnyLinkage: case GlobalValue::LinkOnceODRLinkage: return "linkonce";
	case GlobalValue::WeakAnyLinkage: case GlobalValue::WeakODRLinkage: return "weak";
	case GlobalValue::AvailableExternallyLinkage: return "available";
	case GlobalValue::ExternalWeakLinkage: return "extern_weak";
	default: return "other";
	}
}
static std::string shortFile(const std::string& f)
{
	size_t p = f.find("include/floaxie/");
	return p == std::string::npos ? f : f.substr(p);
}

static void refs(const Value* v, std::set<const GlobalValue*>& out, std::set<const Value*>& seen)
{
	if (!seen.insert(v).second) return;
	if (auto* g = dyn_cast<GlobalValue>(v)) { out.insert(g); return; }
	if (auto* c = dyn_cast<Constant>(v)) for (auto& o : c->operands()) refs(o.get(), out, seen);
}

void modeScan(Module& M, std::ostream& os)
{
	auto where = [&](const Instruction* i) -> std::string
	{
		const DebugLoc& d = i->getDebugLoc();
		if (!d) return "";
		return shortFile(cast<DIScope>(d.getScope())->getFilename().str()) + ":" + std::to_string(d.getLine());
	};
	os << "{\"functions\": [";
	bool first = true;
	for (auto& f : M)
	{
		if (f.isIntrinsic()) continue;
		os << (first ? "\n " : ",\n "); first = false;
		std::string file; unsigned line = 0;
		if (auto* sp = f.getSubprogram()) { file = shortFile(sp->getFilename().str()); line = sp->getLine(); }
		os << "{\"name\": \"" << esc(f.getName().str()) << "\", \"text\": \"" << esc(demangle(f.getName().str())) << "\", \"linkage\": \"" << linkage(f.getLinkage())
			<< "\", \"decl\": " << (f.isDeclaration() ? "true" : "false") << ", \"nounwind\": " << (f.doesNotThrow() ? "true" : "false") << ", \"file\": \"" << esc(file) << "\", \"line\": " << line << ", \"uses\": [";
		bool fu = true;
		std::set<std::string> done;
		for (auto& b : f) for (auto& i : b)
		{
			if (isa<DbgInfoIntrinsic>(i)) continue;
			for (auto& op : i.operands())
			{
				std::set<const GlobalValue*> out; std::set<const Value*> seen;
				if (isa<Constant>(op.get())) refs(op.get(), out, seen);
				for (auto* g : out)
				{
					if (auto* gf = dyn_cast<Function>(g)) if (gf->isIntrinsic()) continue;
					std::string kind = "ref";
					if (auto* cb = dyn_cast<CallBase>(&i)) { if (cb->getCalledOperand()->stripPointerCasts() == g) kind = "call"; }
					else if (auto* st = dyn_cast<StoreInst>(&i)) { if (st->getPointerOperand() == op.get()) kind = st->isAtomic() ? "atomic" : "store"; }
					else if (auto* ld = dyn_cast<LoadInst>(&i)) kind = ld->isAtomic() ? "atomic" : "load";
					else if (isa<AtomicRMWInst>(&i) || isa<AtomicCmpXchgInst>(&i)) kind = "atomic";
					std::string rec = "[\"" + kind + "\", \"" + esc(g->getName().str()) + "\", \"" + esc(where(&i)) + "\"]";
					if (!done.insert(rec).second) continue;
					os << (fu ? "" : ", ") << rec; fu = false;
				}
			}
		}
		os << "]}";
	}
	os << "],\n \"variables\": [";
	first = true;
	for (auto& g : M.globals())
	{
		if (g.getName().starts_with("llvm.") || g.getName().starts_with(".str") || g.getName().starts_with("__const") || g.getName().starts_with("__PRETTY")) continue;
		bool cq = false; std::string file; unsigned line = 0;
		SmallVector<DIGlobalVariableExpression*, 1> gv;
		g.getDebugInfo(gv);
		for (auto* e : gv)
		{
			auto* v = e->getVariable();
			file = shortFile(v->getFilename().str()); line = v->getLine();
			const DIType* t = v->getType();
			while (t)
			{
				if (t->getTag() == dwarf::DW_TAG_const_type) { cq = true; break; }
				if (t->getTag() == dwarf::DW_TAG_array_type) { t = cast<DICompositeType>(t)->getBaseType(); continue; }
				if (t->getTag() == dwarf::DW_TAG_typedef || t->getTag() == dwarf::DW_TAG_volatile_type) { t = cast<DIDerivedType>(t)->getBaseType(); continue; }
				break;
			}
		}
		os << (first ? "\n " : ",\n "); first = false;
		os << "{\"name\": \"" << esc(g.getName().str()) << "\", \"text\": \"" << esc(demangle(g.getName().str())) << "\", \"linkage\": \"" << linkage(g.getLinkage()) << "\", \"decl\": " << (g.isDeclaration() ? "true" : "false")
			<< ", \"constant\": " << (g.isConstant() ? "true" : "false") << ", \"constqual\": " << (cq ? "true" : "false") << ", \"tls\": " << (g.isThreadLocal() ? "true" : "false") << ", \"file\": \"" << esc(file) << "\", \"line\": " << line << "}";
	}
	os << "]}\n";
}
