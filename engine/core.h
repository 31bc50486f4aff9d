// vpai: abstract interpreter for LLVM IR -- values, terms, memory, state.
#pragma once
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/DenseMap.h"
#include <vector>
#include <map>
#include <unordered_map>
#include <set>
#include <deque>
#include <memory>
#include <string>
#include <cmath>
#include <cstring>
#include <cfloat>
#include <algorithm>
#include <functional>
#include <chrono>
using namespace llvm;
typedef uint32_t TermId;
typedef ConstantRange CR;

static inline double asD(uint64_t x){ double d; memcpy(&d,&x,8); return d; }
static inline uint64_t asU(double d){ uint64_t x; memcpy(&x,&d,8); return x; }
static inline uint64_t mix(uint64_t h, uint64_t v){ h ^= v + 0x9e3779b97f4a7c15ULL + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdULL; h ^= h>>32; return h; }

enum Kind : uint8_t { KNone=0, KInt, KFloat, KPtr, KAgg, KZero, KUninit, KHavoc };
// un: 0 defined, 1 maybe undefined, 2 undefined
struct Val {
	uint8_t k=KNone, un=0, nan=0, w=0;
	TermId t=0;
	uint64_t a=0,b=0;
	bool operator==(Val const& o) const { return k==o.k&&un==o.un&&nan==o.nan&&w==o.w&&t==o.t&&a==o.a&&b==o.b; }
	bool operator!=(Val const& o) const { return !(*this==o); }
	double lo() const { return asD(a); }
	double hi() const { return asD(b); }
	CR cr() const {
		APInt A(w,a), B(w,b);
		if(a==b) return A.isAllOnes() ? CR::getFull(w) : CR::getEmpty(w);
		return CR(A,B);
	}
};
static Val mkInt(CR const& r, TermId t=0){
	Val v; v.k=KInt; v.w=r.getBitWidth(); v.t=t;
	v.a=r.getLower().getZExtValue(); v.b=r.getUpper().getZExtValue();
	return v;
}
static Val mkIntC(unsigned w, uint64_t c){ Val v; v.k=KInt; v.w=w; if(w<64) c&=((1ULL<<w)-1); v.a=c; v.b=c+1; if(w<64) v.b&=((1ULL<<w)-1); return v; }
static bool isC(Val const& v){ if(v.un==2) return false; if(v.k==KInt){ uint64_t m=v.w<64?((1ULL<<v.w)-1):~0ULL; return ((v.a+1)&m)==v.b && v.a!=v.b; } if(v.k==KFloat) return v.a==v.b && !v.nan; return false; }
static bool isEmptyInt(Val const& v){ uint64_t m=v.w<64?((1ULL<<v.w)-1):~0ULL; return v.k==KInt && v.a==v.b && v.a!=m; }
static int64_t sval(Val const& v){ return APInt(v.w,v.a).getSExtValue(); }
static Val mkF(unsigned w,double lo,double hi,bool nan,TermId t=0){ Val v; v.k=KFloat; v.w=w; v.nan=nan; v.t=t; if(lo==0) lo=0.0; if(hi==0) hi=0.0; v.a=asU(lo); v.b=asU(hi); return v; }
static Val mkFC(unsigned w,double c){ if(std::isnan(c)) return mkF(w,INFINITY,-INFINITY,true); return mkF(w,c,c,false); }
static bool fEmpty(Val const& v){ return !(v.lo()<=v.hi()); }
static Val fullF(unsigned w){ return mkF(w,-INFINITY,INFINITY,true); }

// ---- terms -------------------------------------------------------------
enum TOp : uint16_t { T_SYM=1, T_IC, T_FC, T_ADDC, T_CMP, T_FCMP, T_UCMP, T_CALL, T_BIN=100, T_CAST=200 };
struct Term { uint16_t op; uint8_t w; uint8_t n; TermId a[3]; uint64_t imm;
	bool operator==(Term const&o) const { return op==o.op&&w==o.w&&n==o.n&&a[0]==o.a[0]&&a[1]==o.a[1]&&a[2]==o.a[2]&&imm==o.imm; } };
struct TermH { size_t operator()(Term const& t) const { uint64_t h=mix(t.op,t.w); h=mix(h,t.imm); for(int i=0;i<t.n;i++) h=mix(h,t.a[i]); return h; } };
struct TermTab {
	std::vector<Term> v; std::unordered_map<Term,TermId,TermH> m;
	std::vector<Val> base; // for SYM
	std::vector<std::shared_ptr<std::vector<TermId>>> lv;
	uint64_t nsym=0;
	TermTab(){ v.push_back(Term{0,0,0,{0,0,0},0}); base.push_back(Val()); }
	TermId get(uint16_t op,uint8_t w,uint64_t imm,TermId a=0,TermId b=0,TermId c=0){
		Term t{op,w,(uint8_t)(c?3:b?2:a?1:0),{a,b,c},imm};
		auto it=m.find(t); if(it!=m.end()) return it->second;
		TermId id=v.size(); v.push_back(t); base.push_back(Val()); m.emplace(t,id); return id;
	}
	TermId sym(Val const& b){ TermId id=get(T_SYM,b.w,(++nsym)<<1); base[id]=b; base[id].t=0; return id; }
	TermId jsym(uint64_t key,unsigned w){ TermId id=get(T_SYM,w,(key<<1)|1); return id; }
	std::vector<TermId> const& leaves(TermId t){
		if(lv.size()<v.size()) lv.resize(v.size()+1024);
		if(lv[t]) return *lv[t];
		auto r=std::make_shared<std::vector<TermId>>();
		Term d=v[t];
		if(d.op==T_SYM) r->push_back(t);
		else { std::set<TermId> s; for(int i=0;i<d.n;i++){ auto const& x=leaves(d.a[i]); s.insert(x.begin(),x.end()); } r->assign(s.begin(),s.end()); }
		if(lv.size()<v.size()) lv.resize(v.size()+1024);
		lv[t]=r; return *lv[t];
	}
};
extern TermTab TT;

// ---- pointer sets --------------------------------------------------------
struct Tgt { uint32_t obj; int64_t lo,hi; uint32_t stride;
	bool operator==(Tgt const&o) const { return obj==o.obj&&lo==o.lo&&hi==o.hi&&(lo==hi||stride==o.stride); }
	bool operator<(Tgt const&o) const { return std::tie(obj,lo,hi,stride)<std::tie(o.obj,o.lo,o.hi,o.stride); } };
struct PSet { std::vector<Tgt> t; bool null=false, unk=false;
	bool operator<(PSet const&o) const { return std::tie(null,unk,t)<std::tie(o.null,o.unk,o.t); } };
struct PTab { std::vector<PSet> v; std::map<PSet,uint32_t> m;
	uint32_t get(PSet const& p){ auto it=m.find(p); if(it!=m.end()) return it->second; uint32_t i=v.size(); v.push_back(p); m[p]=i; return i; } };
extern PTab PT;
static Val mkPtr(PSet const& p,TermId t=0){ Val v; v.k=KPtr; v.w=64; v.a=PT.get(p); v.t=t; return v; }
static Val mkPtr1(uint32_t obj,int64_t off){ PSet p; p.t.push_back(Tgt{obj,off,off,1}); return mkPtr(p); }
static Val mkNull(){ PSet p; p.null=true; return mkPtr(p); }
static PSet const& PS(Val const& v){ return PT.v[v.a]; }
static bool isSingleP(Val const& v){ if(v.un==2) return false; PSet const& p=PS(v); return !p.unk && ((p.null&&p.t.empty())||(!p.null&&p.t.size()==1&&p.t[0].lo==p.t[0].hi)); }

// ---- aggregates -----------------------------------------------------------
extern std::vector<std::vector<Val>> AGG;
static Val mkAgg(std::vector<Val> const& x){ Val v; v.k=KAgg; AGG.push_back(x); v.a=AGG.size()-1; return v; }

// ---- memory ----------------------------------------------------------------
struct Cell { int64_t off; int64_t sz; Val v; };
struct Obj { int64_t size=0; bool heap=false, cst=false, freed=false; uint32_t site=0; std::string name; std::vector<Cell> c; };
typedef std::shared_ptr<Obj> ObjP;

struct FInfo {
	Function* F; int n=0; DenseMap<llvm::Value const*,int> idx;
	std::vector<llvm::Value const*> vals;
	DenseMap<BasicBlock const*,int> bbi;
	std::vector<std::vector<bool>> liveIn; // per block
	DenseMap<BasicBlock const*,int> heads; // loop head -> idx
	std::vector<std::set<BasicBlock const*>> loopBlocks;
	std::string dem; bool repo=false; int id=0;
	std::set<int> induct; // env indexes of induction phis
};
struct Frame {
	FInfo* f; BasicBlock* bb; BasicBlock* prev=nullptr; BasicBlock::iterator it;
	std::vector<Val> env; std::vector<uint32_t> allocas; std::vector<int> lc, ls; CallBase* site=nullptr; int nalloca=0;
};
struct Trace { std::shared_ptr<Trace> p; Instruction const* I; int n; 
	~Trace(){ // avoid deep recursion
		std::shared_ptr<Trace> q=std::move(p); while(q && q.use_count()==1){ std::shared_ptr<Trace> r=std::move(q->p); q=std::move(r);} } };
struct Rel { TermId a,b; uint8_t m; };
struct Region { uint32_t obj; int64_t off,len; int mode; };
struct State {
	std::vector<std::shared_ptr<Frame>> fr;
	std::vector<std::pair<uint32_t,ObjP>> mem;
	std::shared_ptr<std::vector<std::pair<TermId,Val>>> ref=std::make_shared<std::vector<std::pair<TermId,Val>>>();
	std::shared_ptr<std::vector<Rel>> rel=std::make_shared<std::vector<Rel>>();
	std::shared_ptr<std::vector<Region>> track=std::make_shared<std::vector<Region>>();
	std::shared_ptr<Trace> trace;
	uint32_t node=0, heapNext=0; int unroll=0, nsplit=0; uint64_t steps=0;
	Frame& top(){ auto& p=fr.back(); if(p.use_count()>1) p=std::make_shared<Frame>(*p); return *p; }
	Frame const& ctop() const { return *fr.back(); }
};
