// effects MODULE.bc : interprocedural effect analysis on LLVM IR (no execution, no solver).
// For every function: which memory it may write, as roots (parameter i and everything reachable from it,
// a global, fresh memory), computed bottom-up to a fixpoint over the call graph, context-sensitively through
// summaries; which external functions it may call; which mutable globals it touches; where it turns
// pointers into numbers.  Output: JSON.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
typedef std::set<std::string> Roots;   // "P<i>": what parameter i points to, "P<i>*": what is reached through pointers found there, "G:<name>", "fresh", "fn", "L:": a local
struct Loc { std::string fn, file; unsigned line = 0; };
struct Summary { std::map<std::string, Loc> writes; Roots ret; std::map<std::string, Roots> flows; }; // flows: pointers stored into memory of a root
static std::map<const Function*, Summary> S;
static std::map<const Function*, std::map<const Value*, Roots>> PT;
static std::map<const Function*, std::map<std::string, Roots>> CT;    // contents of the memory of a root, per function
static std::map<const Function*, std::set<const Function*>> calls;
static std::map<const Function*, std::map<std::string, Loc>> ext;
static std::vector<std::pair<unsigned, const Function*>> vt;          // (slot, function)
static bool changed;
static Loc loc(const Instruction* I){ Loc l; l.fn = demangle(I->getFunction()->getName().str()); if (auto* d = I->getDebugLoc().get()) { l.line = d->getLine(); l.file = d->getFilename().str(); } return l; }
template<class T> static bool add(std::set<T>& a, const std::set<T>& b){ size_t n = a.size(); a.insert(b.begin(), b.end()); return a.size() != n; }
static Roots roots(const Function& F, const Value* v){
	if (auto* a = dyn_cast<Argument>(v)) return {"P" + std::to_string(a->getArgNo())};
	if (auto* g = dyn_cast<GlobalVariable>(v)) return {"G:" + g->getName().str()};
	if (isa<Function>(v)) return {"fn"};
	if (auto* c = dyn_cast<ConstantExpr>(v)) { Roots r; for (auto& o : c->operands()) add(r, roots(F, o)); return r; }
	if (isa<Constant>(v)) return {};
	return PT[&F][v];
}
static std::string allocaName(const AllocaInst* a){ std::string s; raw_string_ostream o(s); o << "L:" << (const void*)a; return s; }
static Roots contents(const Function& F, const Roots& p){ // pointers found in memory reached from p
	Roots r; for (auto& x : p) { auto it = CT[&F].find(x); if (it != CT[&F].end()) add(r, it->second);
		if (x[0] == 'P') r.insert(x.back() == '*' ? x : x + "*"); else if (x[0] == 'G' || x == "fresh") r.insert(x); } return r; }
static void store(Function& F, const Roots& to, const Roots& val, const Loc& l){
	for (auto& t : to) { if (!val.empty() && add(CT[&F][t], val)) changed = true;
		if (t[0] == 'P' || t[0] == 'G') { auto& s = S[&F]; if (s.writes.emplace(t, l).second) changed = true;
			Roots vis; for (auto& v : val) if (v[0] != 'L') vis.insert(v); if (!vis.empty() && add(s.flows[t], vis)) changed = true; } } }
static std::vector<const Function*> targets(const CallBase& C){
	if (auto* f = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts())) return {f};
	std::vector<const Function*> r;  // a virtual call: the functions in that slot of every vtable
	const Value* v = C.getCalledOperand(); int slot = -1;
	if (auto* l = dyn_cast<LoadInst>(v)) { auto* p = l->getPointerOperand(); if (auto* g = dyn_cast<GEPOperator>(p)) { if (auto* k = g->getNumIndices() == 1 ? dyn_cast<ConstantInt>(g->getOperand(1)) : nullptr) { slot = (int)k->getSExtValue(); p = g->getPointerOperand(); } } else slot = 0;
		if (slot >= 0 && isa<LoadInst>(p)) for (auto& x : vt) if ((int)x.first == slot && x.second->getFunctionType() == C.getFunctionType()) r.push_back(x.second); }
	return r;
}
static void visit(Function& F){
	auto& pt = PT[&F];
	for (auto& B : F) for (auto& I : B) {
		Roots r; Loc l = loc(&I);
		if (auto* a = dyn_cast<AllocaInst>(&I)) r = {allocaName(a)};
		else if (auto* ld = dyn_cast<LoadInst>(&I)) { if (ld->getType()->isPointerTy() || ld->getType()->isIntegerTy(64)) r = contents(F, roots(F, ld->getPointerOperand())); }
		else if (auto* st = dyn_cast<StoreInst>(&I)) { auto* t = st->getValueOperand()->getType(); store(F, roots(F, st->getPointerOperand()), t->isFloatingPointTy() ? Roots() : roots(F, st->getValueOperand()), l); continue; }
		else if (auto* x = dyn_cast<AtomicRMWInst>(&I)) { store(F, roots(F, x->getPointerOperand()), {}, l); continue; }
		else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) { store(F, roots(F, x->getPointerOperand()), {}, l); continue; }
		else if (auto* ret = dyn_cast<ReturnInst>(&I)) { if (ret->getReturnValue()) { Roots v, k = roots(F, ret->getReturnValue()); for (auto& x : k) if (x[0] != 'L') v.insert(x); if (add(S[&F].ret, v)) changed = true; } continue; }
		else if (auto* C = dyn_cast<CallBase>(&I)) {
			if (isa<DbgInfoIntrinsic>(C)) continue;
			if (auto* m = dyn_cast<MemIntrinsic>(C)) { Roots v; if (auto* t = dyn_cast<MemTransferInst>(m)) v = contents(F, roots(F, t->getSource())); store(F, roots(F, m->getDest()), v, l); continue; }
			auto ts = targets(*C);
			for (auto* f : ts) {
				if (calls[&F].insert(f).second) changed = true;
				if (f->isDeclaration()) {
					std::string n = f->getName().str();
					if (!f->isIntrinsic()) ext[&F].emplace(n, l);
					if (C->getType()->isPointerTy()) r.insert("fresh");
					static const std::set<std::string> wr = {"memcpy","memmove","memset","strcpy","strncpy","bzero"};
					if (wr.count(n)) { store(F, roots(F, C->getArgOperand(0)), C->arg_size() > 1 ? contents(F, roots(F, C->getArgOperand(1))) : Roots(), l); add(r, roots(F, C->getArgOperand(0))); }
				} else {
					auto deep = [&](const std::string& x) -> Roots { if (x[0] != 'P') return {x};
						unsigned k = std::stoul(x.substr(1)); Roots p; if (k < C->arg_size()) p = roots(F, C->getArgOperand(k));
						if (x.back() != '*') return p;
						Roots o = contents(F, p); for (int i = 0; i < 8; i++) if (!add(o, contents(F, o))) break; return o; };
					Summary s = S[f];
					for (auto& w : s.writes) { if (w.first[0] == 'G') { store(F, {w.first}, {}, w.second); } else store(F, deep(w.first), {}, w.second); }
					for (auto& fl : s.flows) { Roots v; for (auto& x : fl.second) add(v, deep(x)); if (!v.empty()) store(F, deep(fl.first), v, l); }
					for (auto& x : s.ret) add(r, deep(x));
				}
			}
			if (ts.empty()) { ext[&F].emplace("*indirect", l); if (C->getType()->isPointerTy()) r.insert("fresh"); }
		}
		else for (auto& o : I.operands()) if (!isa<BasicBlock>(o)) add(r, roots(F, o));
		if (!I.getType()->isPtrOrPtrVectorTy() && !I.getType()->isIntegerTy(64) && !I.getType()->isAggregateType()) r.clear();
		if (add(pt[&I], r)) changed = true;
	}
}
int main(int argc, char** argv){
	LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(argv[1], err, ctx); if (!M) { errs() << "cannot read " << argv[1] << "\n"; return 2; }
	for (auto& G : M->globals()) if (G.getName().starts_with("_ZTV") && G.hasInitializer())
		if (auto* s = dyn_cast<ConstantStruct>(G.getInitializer())) for (auto& o : s->operands()) if (auto* a = dyn_cast<ConstantArray>(o)) for (unsigned i = 2; i < a->getNumOperands(); i++) if (auto* f = dyn_cast<Function>(a->getOperand(i)->stripPointerCasts())) vt.push_back({i - 2, f});
	int rounds = 0; do { changed = false; for (auto& F : *M) if (!F.isDeclaration()) visit(F); } while (changed && ++rounds < 100);
	if (changed) { errs() << "no fixpoint\n"; return 2; }
	json::Array fs;
	unsigned nstores = 0, ncalls = 0;
	for (auto& F : *M) { if (F.isDeclaration()) continue;
		json::Object o; o["name"] = F.getName().str(); o["pretty"] = demangle(F.getName().str());
		if (auto* sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); o["artificial"] = sp->isArtificial(); }
		json::Array ws; for (auto& w : S[&F].writes) ws.push_back(json::Object{{"root", w.first}, {"fn", w.second.fn}, {"file", w.second.file}, {"line", (int64_t)w.second.line}}); o["writes"] = std::move(ws);
		json::Array cs; for (auto* c : calls[&F]) if (!c->isDeclaration()) cs.push_back(c->getName().str()); o["calls"] = std::move(cs);
		json::Array es; for (auto& e : ext[&F]) es.push_back(json::Object{{"name", e.first}, {"pretty", demangle(e.first)}, {"file", e.second.file}, {"line", (int64_t)e.second.line}}); o["external"] = std::move(es);
		json::Array gs, ps; std::set<const GlobalVariable*> seen;
		for (auto& B : F) for (auto& I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; if (isa<StoreInst>(I)) nstores++; if (isa<CallBase>(I)) ncalls++;
			std::vector<const Value*> st(I.op_begin(), I.op_end());
			while (!st.empty()) { const Value* v = st.back(); st.pop_back(); if (auto* c = dyn_cast<ConstantExpr>(v)) { for (auto& x : c->operands()) st.push_back(x); }
				if (auto* g = dyn_cast<GlobalVariable>(v)) if (!g->isConstant() && seen.insert(g).second) { bool dc = false; SmallVector<DIGlobalVariableExpression*, 1> ge; g->getDebugInfo(ge);
					for (auto* e : ge) { DIType* t = e->getVariable()->getType(); while (t) { auto* d = dyn_cast<DIDerivedType>(t); if (d && d->getTag() == dwarf::DW_TAG_const_type) { dc = true; break; } if (auto* a = dyn_cast<DICompositeType>(t)) { t = a->getTag() == dwarf::DW_TAG_array_type ? a->getBaseType() : nullptr; continue; } break; } }
					Loc l = loc(&I); gs.push_back(json::Object{{"name", g->getName().str()}, {"pretty", demangle(g->getName().str())}, {"const", dc}, {"file", l.file}, {"line", (int64_t)l.line}}); } }
			if (auto* p = dyn_cast<PtrToIntInst>(&I)) { bool diff = true; for (auto* u : p->users()) { auto* b = dyn_cast<BinaryOperator>(u); if (!b || b->getOpcode() != Instruction::Sub || !isa<PtrToIntInst>(b->getOperand(0)) || !isa<PtrToIntInst>(b->getOperand(1))) diff = false; }
				if (!diff) { Loc l = loc(&I); ps.push_back(json::Object{{"file", l.file}, {"line", (int64_t)l.line}}); } } }
		o["globals"] = std::move(gs); o["ptrtoint"] = std::move(ps);
		fs.push_back(std::move(o)); }
	outs() << json::Value(json::Object{{"functions", std::move(fs)}, {"rounds", rounds}, {"stores", (int64_t)nstores}, {"callsites", (int64_t)ncalls}}) << "\n";
	return 0;
}
