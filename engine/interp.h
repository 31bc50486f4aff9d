// vpai: memory model and transfer functions
#pragma once
#include "domain.h"
typedef std::chrono::steady_clock Clock;
struct Kill {};                      // path ends
struct SplitEx { TermId t; std::vector<Val> vals; };
struct Broken { std::string msg; };  // analysis cannot continue on this construct
struct Alarm { std::string kind,msg,file,fn; int line; std::vector<std::string> stack,trace; bool definite; };
static const uint32_t HEAP0=0x10000000u, GLOB0=0x40000000u, FUN0=0x60000000u;

static Module* M; static const DataLayout* DL;
static std::map<Function*,std::unique_ptr<FInfo>> FI;
static std::vector<GlobalVariable*> GV; static DenseMap<GlobalVariable*,uint32_t> GVidx;
static std::vector<Function*> FV; static DenseMap<Function*,uint32_t> FVidx;
static std::map<uint32_t,ObjP> GDEF;
static std::vector<Alarm> ALARMS; static std::set<std::tuple<std::string,const Instruction*,std::string>> ALSEEN;
static std::set<std::string> NOTES; static std::set<std::string> REACHED;
static std::map<std::string,uint64_t> CNT; // obligation counters
static std::set<Function*> FSEEN; static std::set<const Instruction*> ISEEN, OBSITES;
static std::vector<int64_t> THR; static std::vector<double> FTHR;
static bool NOHEAP=false; static unsigned SPLITMAX=64;
static std::map<uint32_t,std::map<int64_t,std::pair<int64_t,Val>>> CELLT; // typed cells seen, per object
static std::set<std::pair<uint32_t,int64_t>> STRUCTCELL; static std::set<const Instruction*> STRUCTLOAD;
static bool isUn(Val const& v){ return v.un!=0; }

static std::string locOf(const Instruction* I, std::string* file=nullptr,int* line=nullptr){
	const DebugLoc& d=I->getDebugLoc(); std::string f="?"; int l=0;
	if(d){ f=d->getFilename().str(); l=d.getLine(); }
	if(file)*file=f; if(line)*line=l; return f+":"+std::to_string(l);
}
static bool inRepo(const Instruction* I){ const DebugLoc& d=I->getDebugLoc(); return d && d->getFilename().contains("/src/") && !d->getFilename().contains("/usr/"); }
static std::string shortFn(std::string s){ auto p=s.find('('); int dep=0; for(size_t i=0;i<s.size();i++){ if(s[i]=='<')dep++; if(s[i]=='>')dep--; if(s[i]=='('&&dep<=0&&i){p=i;break;} } return s.substr(0,p==std::string::npos?s.size():p); }
static void alarm(State const& S,const Instruction* I,std::string kind,std::string msg,bool definite=true){
	// report at the innermost repository frame
	const Instruction* at=I;
	if(!inRepo(at)) for(int i=(int)S.fr.size()-1;i>0;i--) if(S.fr[i]->site && inRepo(S.fr[i]->site)){ at=S.fr[i]->site; break; }
	if(!ALSEEN.insert({kind,at,msg}).second) return;
	Alarm A; A.kind=kind; A.msg=msg; A.definite=definite; locOf(at,&A.file,&A.line);
	A.fn=FI[const_cast<Function*>(at->getFunction())]?FI[const_cast<Function*>(at->getFunction())]->dem:at->getFunction()->getName().str();
	A.stack.push_back(shortFn(S.fr.back()->f->dem)+" at "+locOf(I));
	for(int i=(int)S.fr.size()-1;i>0;i--) if(S.fr[i]->site) A.stack.push_back(shortFn(S.fr[i-1]->f->dem)+" at "+locOf(S.fr[i]->site));
	int n=0; for(auto t=S.trace;t&&n<300;t=t->p,n++) A.trace.push_back(locOf(t->I)+(t->n>=0?(t->n?" taken":" not taken"):" call"));
	std::reverse(A.trace.begin(),A.trace.end());
	ALARMS.push_back(A);
}
// ---- objects ---------------------------------------------------------------
static Val zeroOf(Type* T){ if(T->isFloatingPointTy()) return mkFC(T->isFloatTy()?32:64,0); if(T->isPointerTy()) return mkNull(); if(T->isIntegerTy()) return mkIntC(T->getIntegerBitWidth(),0); throw Broken{"zero of unsupported type"}; }
static Val topOf(Type* T){ if(T->isFloatingPointTy()) return fullF(T->isFloatTy()?32:64); if(T->isPointerTy()){ PSet p; p.unk=true; return mkPtr(p);} if(T->isIntegerTy()) return mkInt(CR::getFull(T->getIntegerBitWidth())); throw Broken{"top of unsupported type"}; }
static Val undefOf(Type* T){ Val v=topOf(T); v.un=2; v.t=0; return v; }
static Val blockV(Kind k){ Val v; v.k=k; if(k==KUninit) v.un=2; return v; }
static ObjP newObj(int64_t size,Kind k,std::string name){ auto o=std::make_shared<Obj>(); o->size=size; o->name=name; if(size>0) o->c.push_back(Cell{0,size,blockV(k)}); return o; }
static Val constVal(Constant const* C);
static void flatten(Constant const* C,int64_t off,std::vector<Cell>& out){
	Type* T=C->getType(); int64_t sz=DL->getTypeAllocSize(T);
	if(isa<UndefValue>(C)){ out.push_back(Cell{off,sz,blockV(KUninit)}); return; }
	if(C->isNullValue() && (T->isAggregateType())){ if(sz) out.push_back(Cell{off,sz,blockV(KZero)}); return; }
	if(auto* S=dyn_cast<StructType>(T)){ auto* L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) flatten(C->getAggregateElement(i),off+L->getElementOffset(i),out); return; }
	if(auto* A=dyn_cast<ArrayType>(T)){ int64_t es=DL->getTypeAllocSize(A->getElementType()); for(uint64_t i=0;i<A->getNumElements();i++) flatten(C->getAggregateElement(i),off+i*es,out); return; }
	out.push_back(Cell{off,(int64_t)DL->getTypeStoreSize(T),constVal(C)});
}
static ObjP globObj(uint32_t id){
	auto it=GDEF.find(id); if(it!=GDEF.end()) return it->second;
	GlobalVariable* g=GV[id-GLOB0]; auto o=std::make_shared<Obj>(); o->name=g->getName().str(); o->size=DL->getTypeAllocSize(g->getValueType()); o->cst=g->isConstant();
	if(!g->hasInitializer()){ o->c.push_back(Cell{0,std::max<int64_t>(o->size,1),blockV(KHavoc)}); }
	else { std::vector<Cell> c; flatten(g->getInitializer(),0,c); int64_t pos=0; for(auto& x:c){ if(x.off>pos) o->c.push_back(Cell{pos,x.off-pos,blockV(KZero)}); o->c.push_back(x); pos=x.off+x.sz; } if(pos<o->size) o->c.push_back(Cell{pos,o->size-pos,blockV(KZero)}); }
	GDEF[id]=o; return o;
}
static uint32_t globId(GlobalVariable* g){ auto it=GVidx.find(g); if(it!=GVidx.end()) return GLOB0+it->second; GVidx[g]=GV.size(); GV.push_back(g); return GLOB0+GV.size()-1; }
static uint32_t funId(Function* f){ auto it=FVidx.find(f); if(it!=FVidx.end()) return FUN0+it->second; FVidx[f]=FV.size(); FV.push_back(f); return FUN0+FV.size()-1; }
static Obj const* peek(State const& S,uint32_t id){
	auto it=std::lower_bound(S.mem.begin(),S.mem.end(),id,[](auto const& p,uint32_t x){return p.first<x;});
	if(it!=S.mem.end()&&it->first==id) return it->second.get();
	if(id>=GLOB0&&id<FUN0) return globObj(id).get();
	return nullptr;
}
static Obj* own(State& S,uint32_t id){
	auto it=std::lower_bound(S.mem.begin(),S.mem.end(),id,[](auto const& p,uint32_t x){return p.first<x;});
	if(it==S.mem.end()||it->first!=id){ if(id>=GLOB0&&id<FUN0) it=S.mem.insert(it,{id,std::make_shared<Obj>(*globObj(id))}); else return nullptr; }
	else if(it->second.use_count()>1) it->second=std::make_shared<Obj>(*it->second);
	return it->second.get();
}
static void putObj(State& S,uint32_t id,ObjP o){
	auto it=std::lower_bound(S.mem.begin(),S.mem.end(),id,[](auto const& p,uint32_t x){return p.first<x;});
	if(it!=S.mem.end()&&it->first==id) it->second=o; else S.mem.insert(it,{id,o});
}
static void delObj(State& S,uint32_t id){
	auto it=std::lower_bound(S.mem.begin(),S.mem.end(),id,[](auto const& p,uint32_t x){return p.first<x;});
	if(it!=S.mem.end()&&it->first==id) S.mem.erase(it);
}
static size_t cellAt(Obj const& o,int64_t off){ // index of the cell containing off
	auto it=std::upper_bound(o.c.begin(),o.c.end(),off,[](int64_t x,Cell const& c){return x<c.off;}); return (it-o.c.begin())-1;
}
static bool isBlock(Val const& v){ return v.k>=KZero; }
static void splitAt(Obj& o,int64_t off){
	if(off<=0||off>=o.size) return; size_t i=cellAt(o,off); Cell c=o.c[i]; if(c.off==off) return;
	std::vector<Cell> parts;
	if(isBlock(c.v)){ parts={Cell{c.off,off-c.off,c.v},Cell{off,c.off+c.sz-off,c.v}}; }
	else { uint64_t bits=0; bool cst=isC(c.v)&&(c.v.k==KInt||c.v.k==KFloat); if(cst){ if(c.v.k==KInt) bits=c.v.a; else if(c.v.w==32){ float f=(float)c.v.lo(); uint32_t u; memcpy(&u,&f,4); bits=u; } else bits=c.v.a; }
		if(c.v.k==KPtr&&isSingleP(c.v)&&PS(c.v).null){ cst=true; bits=0; }
		for(int64_t k=0;k<c.sz;k++){ Val b; if(cst) b=mkIntC(8,(bits>>(8*k))&255); else { b=withTerm(mkInt(CR::getFull(8))); b.un=c.v.un; } parts.push_back(Cell{c.off+k,1,b}); } }
	o.c.erase(o.c.begin()+i); o.c.insert(o.c.begin()+i,parts.begin(),parts.end());
}
static void putCells(Obj& o,int64_t off,int64_t n,std::vector<Cell> const& cells){
	if(n<=0) return; splitAt(o,off); splitAt(o,off+n);
	size_t i=cellAt(o,off); size_t j=i; while(j<o.c.size()&&o.c[j].off<off+n) j++;
	if(j-i==cells.size()){ for(size_t k=0;k<cells.size();k++) o.c[i+k]=cells[k]; return; }
	o.c.erase(o.c.begin()+i,o.c.begin()+j); o.c.insert(o.c.begin()+i,cells.begin(),cells.end());
}
static std::vector<Cell> getCells(Obj const& o0,int64_t off,int64_t n){ // relative to off
	std::vector<Cell> r; if(n<=0) return r; Obj o; Obj const* p=&o0; 
	{ size_t i=cellAt(o0,off); bool need=o0.c[i].off!=off; if(off+n<o0.size){ size_t j=cellAt(o0,off+n); need|=o0.c[j].off!=off+n; } if(need){ o=o0; splitAt(o,off); splitAt(o,off+n); p=&o; } }
	for(size_t i=cellAt(*p,off);i<p->c.size()&&p->c[i].off<off+n;i++){ Cell c=p->c[i]; c.off-=off; r.push_back(c); }
	return r;
}
static void noteCell(uint32_t obj,int64_t off,int64_t sz,Val const& v){
	auto& m=CELLT[obj]; auto it=m.find(off); if(it!=m.end()&&it->second.first>=sz) return; Val z; z.k=v.k; z.w=v.w; m[off]={sz,z};
}
static Val convertTo(Val v,Type* T){ // reinterpret a scalar of the same size
	bool f=T->isFloatingPointTy(), p=T->isPointerTy(); unsigned w=f?(T->isFloatTy()?32:64):p?64:T->getIntegerBitWidth();
	if(v.un==2){ return undefOf(T); }
	if(f){ if(v.k==KFloat) return v; if(v.k==KInt&&isC(v)){ if(w==32){ uint32_t u=v.a; float g; memcpy(&g,&u,4); return mkFC(32,g);} return mkFC(64,asD(v.a)); } Val r=withTerm(fullF(w)); r.un=v.un; return r; }
	if(p){ if(v.k==KPtr) return v; if(v.k==KInt&&isC(v)&&v.a==0) return mkNull(); Val r=topOf(T); r.un=v.un; return r; }
	if(v.k==KInt){ if(v.w==w) return v; if(v.w>w){ Val r=mkInt(v.cr().truncate(w)); r.un=v.un; return withTerm(r);} Val r=mkInt(v.cr().zeroExtend(w)); r.un=v.un; return withTerm(r); }
	if(v.k==KPtr){ if(isSingleP(v)&&PS(v).null) return mkIntC(w,0); return v; }
	if(v.k==KFloat&&isC(v)){ if(v.w==32){ float g=(float)v.lo(); uint32_t u; memcpy(&u,&g,4); return mkIntC(w,u);} return mkIntC(w,v.a); }
	Val r=withTerm(mkInt(CR::getFull(w))); r.un=v.un; return r;
}
static Val readAt(State& S,uint32_t id,int64_t off,Type* T){
	Obj const* o=peek(S,id); int64_t sz=DL->getTypeStoreSize(T);
	size_t i=cellAt(*o,off); Cell const& c=o->c[i];
	if(c.off+c.sz>=off+sz){
		if(c.v.k==KZero) return zeroOf(T);
		if(c.v.k==KUninit) return undefOf(T);
		if(c.v.k==KHavoc){ Val v=withTerm(topOf(T)); if(id<GLOB0 || !o->cst){ Obj* w=own(S,id); putCells(*w,off,sz,{Cell{off,sz,v}}); } return v; }
		if(c.off==off&&c.sz==sz) return convertTo(c.v,T);
	}
	auto cs=getCells(*o,off,sz);
	bool anyUn=false,allUn=true,allC=true,allZero=true; uint64_t bits=0;
	for(auto& x:cs){ if(x.v.un) anyUn=true; if(x.v.un!=2) allUn=false; if(x.v.k!=KZero) allZero=false;
		if(x.v.k==KZero) continue; if(x.v.un){allC=false;continue;} if(x.v.k==KInt&&isC(x.v)&&x.off<8) bits|=x.v.a<<(8*x.off); else if(x.v.k==KPtr&&isSingleP(x.v)&&PS(x.v).null) ; else if(x.v.k==KFloat&&isC(x.v)&&x.off<8){ Type* IT=Type::getIntNTy(M->getContext(),x.v.w); bits|=convertTo(x.v,IT).a<<(8*x.off); } else allC=false; }
	if(allUn) return undefOf(T);
	if(allZero) return zeroOf(T);
	if(allC&&sz<=8&&!anyUn) return convertTo(mkIntC(sz*8,bits),T);
	if(T->isIntegerTy()&&sz<=8){ // a bundle of cells moved as one integer
		std::vector<Val> b; for(auto& x:cs){ b.push_back(mkIntC(64,x.off)); b.push_back(mkIntC(64,x.sz)); b.push_back(x.v); }
		Val v=mkAgg(b); v.nan=1; v.w=sz*8; return v; }
	Val v=withTerm(topOf(T)); if(anyUn) v.un=1; return v;
}
static void writeAt(State& S,uint32_t id,int64_t off,int64_t sz,Val v){
	Obj* o=own(S,id);
	if(v.k==KAgg&&v.nan){ std::vector<Cell> cs; auto const b=AGG[v.a]; for(size_t i=0;i+2<b.size();i+=3) cs.push_back(Cell{off+(int64_t)b[i].a,(int64_t)b[i+1].a,b[i+2]}); putCells(*o,off,sz,cs); return; }
	if(!isBlock(v)) noteCell(id,off,sz,v);
	size_t i=cellAt(*o,off); Cell& c=o->c[i]; if(c.off==off&&c.sz==sz){ c.v=v; return; }
	putCells(*o,off,sz,{Cell{off,sz,v}});
}
// ---- constants ---------------------------------------------------------------
static Val constVal(Constant const* C){
	Type* T=C->getType();
	if(auto* i=dyn_cast<ConstantInt>(C)){ if(i->getBitWidth()>64) throw Broken{"wide integer"}; return mkIntC(i->getBitWidth(),i->getZExtValue()); }
	if(auto* f=dyn_cast<ConstantFP>(C)){ if(T->isFloatTy()) return mkFC(32,f->getValueAPF().convertToFloat()); if(T->isDoubleTy()) return mkFC(64,f->getValueAPF().convertToDouble()); throw Broken{"fp type"}; }
	if(isa<ConstantPointerNull>(C)) return mkNull();
	if(isa<UndefValue>(C)){ if(T->isAggregateType()){ std::vector<Val> v; for(unsigned i=0;i<(T->isStructTy()?T->getStructNumElements():T->getArrayNumElements());i++) v.push_back(constVal(C->getAggregateElement(i))); return mkAgg(v);} return undefOf(T); }
	if(auto* g=dyn_cast<GlobalVariable>(C)) return mkPtr1(globId(const_cast<GlobalVariable*>(g)),0);
	if(auto* f=dyn_cast<Function>(C)) return mkPtr1(funId(const_cast<Function*>(f)),0);
	if(auto* a=dyn_cast<GlobalAlias>(C)) return constVal(a->getAliasee());
	if(T->isAggregateType()){ std::vector<Val> v; for(unsigned i=0;i<(T->isStructTy()?T->getStructNumElements():T->getArrayNumElements());i++) v.push_back(constVal(C->getAggregateElement(i))); return mkAgg(v); }
	if(auto* e=dyn_cast<ConstantExpr>(C)){
		if(e->getOpcode()==Instruction::GetElementPtr){ APInt off(64,0); if(cast<GEPOperator>(e)->accumulateConstantOffset(*DL,off)){ Val b=constVal(e->getOperand(0)); PSet p=PS(b); for(auto& t:p.t){ t.lo+=off.getSExtValue(); t.hi=t.lo; } return mkPtr(p); } }
		if(e->getOpcode()==Instruction::PtrToInt||e->getOpcode()==Instruction::IntToPtr||e->getOpcode()==Instruction::BitCast||e->getOpcode()==Instruction::AddrSpaceCast){ Val v=constVal(e->getOperand(0)); if(v.k==KInt&&T->isPointerTy()){ if(v.a==0) return mkNull(); return topOf(T);} return v; }
		if(e->getOpcode()==Instruction::Sub){ Val x=constVal(e->getOperand(0)),y=constVal(e->getOperand(1)); if(x.k==KPtr&&y.k==KPtr&&isSingleP(x)&&isSingleP(y)&&!PS(x).null&&!PS(y).null&&PS(x).t[0].obj==PS(y).t[0].obj) return mkIntC(64,PS(x).t[0].lo-PS(y).t[0].lo); if(T->isIntegerTy()) return mkInt(CR::getFull(T->getIntegerBitWidth())); }
		if(e->getOpcode()==Instruction::Trunc){ Val x=constVal(e->getOperand(0)); if(x.k==KInt) return castV(Instruction::Trunc,x,T,T->getIntegerBitWidth()); return mkInt(CR::getFull(T->getIntegerBitWidth())); }
	}
	throw Broken{"unsupported constant"};
}
// ---- function info -------------------------------------------------------------
static FInfo* finfo(Function* F){
	auto& p=FI[F]; if(p) return p.get();
	p=std::make_unique<FInfo>(); FInfo& f=*p; f.F=F; f.id=FI.size(); f.dem=demangle(F->getName().str());
	for(auto& a:F->args()){ f.idx[&a]=f.n++; f.vals.push_back(&a); }
	for(auto& b:*F) for(auto& i:b){ if(!i.getType()->isVoidTy()){ f.idx[&i]=f.n++; f.vals.push_back(&i);} if(inRepo(&i)) f.repo=true; }
	int k=0; for(auto& b:*F) f.bbi[&b]=k++;
	if(F->empty()) return &f;
	DominatorTree DT(*F); LoopInfo LI(DT);
	std::function<void(Loop*)> rec=[&](Loop* L){ f.heads[L->getHeader()]=f.loopBlocks.size(); std::set<BasicBlock const*> s(L->block_begin(),L->block_end()); f.loopBlocks.push_back(s); for(Loop* q:*L) rec(q); };
	for(Loop* L:LI) rec(L);
	// induction phis of integer type
	for(auto& hb:f.heads) for(auto& i:*const_cast<BasicBlock*>(hb.first)){ auto* ph=dyn_cast<PHINode>(&i); if(!ph) break; if(!ph->getType()->isIntegerTy()) continue; for(auto& v:ph->incoming_values()) if(auto* bo=dyn_cast<BinaryOperator>(v.get())) if((bo->getOpcode()==Instruction::Add||bo->getOpcode()==Instruction::Sub)&&(bo->getOperand(0)==ph||bo->getOperand(1)==ph)) f.induct.insert(f.idx[ph]); }
	// liveness
	f.liveIn.assign(k,std::vector<bool>(f.n,false)); bool ch=true;
	while(ch){ ch=false;
		for(auto bi=F->end();bi!=F->begin();){ --bi; BasicBlock& b=*bi; std::vector<bool> L(f.n,false);
			for(BasicBlock* s:successors(&b)){ auto const& q=f.liveIn[f.bbi[s]]; for(int i=0;i<f.n;i++) if(q[i]) L[i]=true; for(auto& ph:s->phis()){ L[f.idx[&ph]]=false; } for(auto& ph:s->phis()){ llvm::Value* v=ph.getIncomingValueForBlock(&b); auto it=f.idx.find(v); if(it!=f.idx.end()) L[it->second]=true; } }
			for(auto ii=b.rbegin();ii!=b.rend();++ii){ auto it=f.idx.find(&*ii); if(it!=f.idx.end()) L[it->second]=isa<PHINode>(*ii); if(isa<PHINode>(*ii)) continue; for(auto& u:ii->operands()){ auto jt=f.idx.find(u.get()); if(jt!=f.idx.end()) L[jt->second]=true; } }
			if(L!=f.liveIn[f.bbi[&b]]){ f.liveIn[f.bbi[&b]]=L; ch=true; } } }
	return &f;
}
static std::map<const Instruction*,std::vector<bool>> LIVEC;
static std::vector<bool> const& liveBefore(FInfo* f,const Instruction* I){ // live just before I executes (phis of the block already assigned)
	auto it=LIVEC.find(I); if(it!=LIVEC.end()) return it->second;
	BasicBlock* b=const_cast<BasicBlock*>(I->getParent()); std::vector<bool> L(f->n,false);
	for(BasicBlock* s:successors(b)){ auto const& q=f->liveIn[f->bbi[s]]; for(int i=0;i<f->n;i++) if(q[i]) L[i]=true; for(auto& ph:s->phis()) L[f->idx[&ph]]=false; for(auto& ph:s->phis()){ auto jt=f->idx.find(ph.getIncomingValueForBlock(b)); if(jt!=f->idx.end()) L[jt->second]=true; } }
	for(auto ii=b->rbegin();ii!=b->rend();++ii){ if(isa<PHINode>(*ii)) break; auto jt=f->idx.find(&*ii); if(jt!=f->idx.end()) L[jt->second]=false; for(auto& u:ii->operands()){ auto kt=f->idx.find(u.get()); if(kt!=f->idx.end()) L[kt->second]=true; } if(&*ii==I) break; }
	return LIVEC[I]=L;
}
