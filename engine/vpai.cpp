// vpai: abstract interpreter for LLVM IR with trace partitioning, merge points and widening.
#include "merge.h"
TermTab TT; PTab PT; std::vector<std::vector<Val>> AGG;
static std::vector<State> STACK;
static std::set<llvm::Value const*> STRUCTFP; static int UNROLL=150; static double BUDGET=300; static size_t MAXALARM=25; static bool INCOMPLETE=false; static std::string INCWHY; static uint64_t STEPS=0, PATHS=0; static size_t MAXSTACK=0;
static bool DEBUG=false; static bool TRACE=false;

static Val get(State& S,llvm::Value const* V){
	if(auto* C=dyn_cast<Constant>(V)) return constVal(C);
	Frame const& f=S.ctop(); Val v=f.env[f.f->idx.find(V)->second];
	if(v.k==KNone) throw Broken{"read of an unset register"};
	if(v.t){ if(Val* q=refFind(S,v.t)){ Val m=meetV(v,*q); if(m.k!=KNone){ m.t=v.t; m.un=v.un; if((m.k==KInt||m.k==KFloat)&&isC(m)) m.t=0; return m; } } }
	return v;
}
static void set(State& S,llvm::Value const* I,Val v){ Frame& f=S.top(); f.env[f.f->idx.find(I)->second]=v; }
static void retInt(State& S,CallBase* I,Val v){ if(!I->getType()->isVoidTy()) set(S,I,v); }
static void useUn(State& S,Instruction* I,Val& v,const char* what,Type* T=nullptr){
	if(!v.un) return; alarm(S,I,"uninit",std::string(v.un==2?"an uninitialised value":"a possibly uninitialised value")+" is "+what,v.un==2);
	if(v.un==2){ if(T) v=withTerm(topOf(T)); else { v.un=0; v=withTerm(v);} } v.un=0;
	if(v.k==KPtr&&PS(v).unk) throw Kill();
}
static bool rootLeaf(State& S,TermId t,TermId& leaf,unsigned max){
	for(int d=0;d<12;d++){ Val v=evalT(S,t,5); if(v.k==KInt&&!v.cr().isSizeLargerThan(max)&&!v.cr().isFullSet()) leaf=t; else if(v.k==KInt&&v.w<=4) leaf=t; else if(leaf) { }
		Term const& x=TT.v[t]; if(x.op==T_ADDC||(x.op>=T_CAST&&x.op!=T_CAST+Instruction::FPToSI&&x.op!=T_CAST+Instruction::FPToUI)) t=x.a[0]; else if(x.op==T_BIN+Instruction::Mul||x.op==T_BIN+Instruction::Shl){ if(TT.v[x.a[1]].op==T_IC) t=x.a[0]; else if(TT.v[x.a[0]].op==T_IC) t=x.a[1]; else break; } else break; }
	return leaf!=0;
}
static void splitOn(State& S,TermId t,unsigned max=SPLITMAX){
	TermId leaf=0; if(!rootLeaf(S,t,leaf,max)) leaf=t;
	Val v=evalT(S,leaf,5); SplitEx e; e.t=leaf; 
	if(v.k==KInt){ std::vector<uint64_t> xs; if(v.cr().isFullSet()&&v.w<=6){ for(unsigned i=0;i<(1u<<v.w);i++) xs.push_back(i);} else enumCR(v.cr(),xs); for(auto x:xs) e.vals.push_back(mkIntC(v.w,x)); }
	else if(v.k==KPtr){ PSet p=PS(v); if(p.null) e.vals.push_back(mkNull()); for(auto& x:p.t){ PSet q; q.t.push_back(x); e.vals.push_back(mkPtr(q)); } }
	throw e;
}
static bool canSplit(State& S,Val const& v,unsigned max=SPLITMAX){ return v.k==KInt&&v.t&&((!v.cr().isFullSet()&&!v.cr().isSizeLargerThan(max))||v.w<=4); }
// undecided i1: split
static bool decide(State& S,Val c,bool& out){ c=deep(S,c); if(isC(c)){ out=c.a&1; return true; } return false; }
static void splitBool(State& S,Val const& c){ SplitEx e; e.t=termOf(c); e.vals={mkIntC(1,1),mkIntC(1,0)}; throw e; }

struct Loc { uint32_t obj; int64_t lo,hi; uint32_t stride; bool one; };
static Loc target(State& S,Instruction* I,Val p,int64_t sz,bool write,const char* what){
	if(p.k!=KPtr){ if(p.k==KInt&&isC(p)){ alarm(S,I,"memory",std::string(what)+" through an integer address"); throw Kill(); } alarm(S,I,"memory",std::string(what)+" through a pointer of unknown origin",false); throw Kill(); }
	useUn(S,I,p,"used as an address");
	p=deep(S,p); PSet const ps=PS(p);
	if(ps.unk){ alarm(S,I,"memory",std::string(what)+" through a pointer of unknown origin",false); throw Kill(); }
	if((ps.null?1:0)+ps.t.size()>1){ if(!p.t) throw Broken{"multi-target pointer without identity"}; splitOn(S,p.t); }
	CNT["pointer dereferences checked"]++;
	if(ps.null||ps.t.empty()){ alarm(S,I,"memory",std::string(what)+" through a null pointer"); throw Kill(); }
	Tgt t=ps.t[0];
	if(t.obj>=FUN0){ alarm(S,I,"memory",std::string(what)+" of a function address"); throw Kill(); }
	Obj const* o=peek(S,t.obj);
	if(!o){ alarm(S,I,"memory",std::string(what)+" of an object whose lifetime has ended"); throw Kill(); }
	if(o->freed){ alarm(S,I,"memory",std::string(what)+" of freed memory (allocated at "+o->name+")"); throw Kill(); }
	if(write&&o->cst){ alarm(S,I,"memory","write to constant memory"); throw Kill(); }
	int64_t lo=t.lo,hi=t.hi;
	if(lo<0||hi+sz>o->size){ bool def=hi<0||lo+sz>o->size; alarm(S,I,"memory",std::string(what)+" of "+std::to_string(sz)+" bytes outside object "+(o->name.empty()?std::string("?"):o->name)+" of "+std::to_string(o->size)+" bytes"+(lo==hi?" at offset "+std::to_string(lo):""),lo==hi||def);
		if(def||lo==hi) throw Kill(); int64_t st=t.stride?t.stride:1; if(lo<0) lo+=((-lo+st-1)/st)*st; if(hi+sz>o->size) hi-=((hi+sz-o->size+st-1)/st)*st; if(lo>hi) throw Kill(); }
	return Loc{t.obj,lo,hi,t.stride?t.stride:1,lo==hi};
}
static Val loadAt(State& S,Instruction* I,Loc const& L,Type* T){
	if(L.one){ if(STRUCTLOAD.count(I)) STRUCTCELL.insert({L.obj,L.lo}); return readAt(S,L.obj,L.lo,T); }
	Val r; bool first=true; int64_t n=(L.hi-L.lo)/L.stride+1; if(n>4096) throw Broken{"range read over too many cells"};
	for(int64_t o=L.lo;o<=L.hi;o+=L.stride){ Val v=deep(S,readAt(S,L.obj,o,T)); if(first){ r=v; first=false; } else if(!(r==v)) { r=joinV(r,v); } }
	if(r.un==2) return r; if(!r.t) r=withTerm(r); return r;
}
static void storeAt(State& S,Loc const& L,int64_t sz,Val v,Type* T){
	if(L.one){ writeAt(S,L.obj,L.lo,sz,v); return; }
	int64_t n=(L.hi-L.lo)/L.stride+1; if(n>4096) throw Broken{"range write over too many cells"};
	for(int64_t o=L.lo;o<=L.hi;o+=L.stride){ Val q=deep(S,readAt(S,L.obj,o,T)); Val d=deep(S,v); Val j=(q==v)?v:joinV(q,d); if(j.un!=2&&!j.t) j=withTerm(j); writeAt(S,L.obj,o,sz,j); }
}
static Val loadT(State& S,Instruction* I,Val p,Type* T){
	if(auto* st=dyn_cast<StructType>(T)){ auto* L=DL->getStructLayout(st); std::vector<Val> v; for(unsigned i=0;i<st->getNumElements();i++){ PSet q=PS(p); for(auto& t:q.t){ t.lo+=L->getElementOffset(i); t.hi+=L->getElementOffset(i);} v.push_back(loadT(S,I,mkPtr(q),st->getElementType(i))); } return mkAgg(v); }
	if(auto* at=dyn_cast<ArrayType>(T)){ int64_t es=DL->getTypeAllocSize(at->getElementType()); std::vector<Val> v; for(uint64_t i=0;i<at->getNumElements();i++){ PSet q=PS(p); for(auto& t:q.t){ t.lo+=i*es; t.hi+=i*es;} v.push_back(loadT(S,I,mkPtr(q),at->getElementType())); } return mkAgg(v); }
	if(T->isVectorTy()) throw Broken{"vector load"};
	Loc L=target(S,I,p,DL->getTypeStoreSize(T),false,"read"); return loadAt(S,I,L,T);
}
static void storeT(State& S,Instruction* I,Val p,Val v,Type* T){
	if(auto* st=dyn_cast<StructType>(T)){ auto* L=DL->getStructLayout(st); auto a=AGG[v.a]; for(unsigned i=0;i<st->getNumElements();i++){ PSet q=PS(p); for(auto& t:q.t){ t.lo+=L->getElementOffset(i); t.hi+=L->getElementOffset(i);} storeT(S,I,mkPtr(q),a[i],st->getElementType(i)); } return; }
	if(auto* at=dyn_cast<ArrayType>(T)){ int64_t es=DL->getTypeAllocSize(at->getElementType()); auto a=AGG[v.a]; for(uint64_t i=0;i<at->getNumElements();i++){ PSet q=PS(p); for(auto& t:q.t){ t.lo+=i*es; t.hi+=i*es;} storeT(S,I,mkPtr(q),a[i],at->getElementType()); } return; }
	if(T->isVectorTy()) throw Broken{"vector store"};
	int64_t sz=DL->getTypeStoreSize(T); Loc L=target(S,I,p,sz,true,"write"); storeAt(S,L,sz,v,T);
}
static std::string cstr(State& S,Val p){ std::string r; if(p.k!=KPtr||!isSingleP(p)||PS(p).null) return "?"; Obj const* o=peek(S,PS(p).t[0].obj); if(!o) return "?"; int64_t off=PS(p).t[0].lo; for(;off<o->size;off++){ auto const& c=o->c[cellAt(*o,off)]; if(c.v.k!=KInt||c.v.w!=8||!isC(c.v)||c.v.a==0) break; r+=(char)c.v.a; } return r; }
static void endPath(State& S){ EXITS.insert(S.node); PATHS++; }
static uint64_t constOr(State& S,Instruction* I,Val v,const char* what){ v=deep(S,v); if(v.k==KInt&&isC(v)) return v.a; if(canSplit(S,v)) splitOn(S,v.t); throw Broken{std::string("unbounded ")+what}; }
static bool tryGoto(State& S,BasicBlock* to);

static void copyMem(State& S,Instruction* I,Val d,Val s,Val n,bool mayOverlap){
	int64_t len=constOr(S,I,n,"copy length"); if(len==0) return;
	Loc D=target(S,I,d,len,true,"write"), R=target(S,I,s,len,false,"read"); if(!D.one||!R.one) throw Broken{"copy with an unresolved address"};
	if(!mayOverlap&&D.obj==R.obj&&D.lo!=R.lo&&std::llabs(D.lo-R.lo)<len){ alarm(S,I,"memory","memcpy between overlapping regions"); }
	auto cs=getCells(*peek(S,R.obj),R.lo,len);
	for(auto& c:cs) if(c.v.k==KHavoc){ Obj* o=own(S,R.obj); (void)o; std::vector<Cell> by; for(int64_t k=0;k<c.sz;k++) by.push_back(Cell{R.lo+c.off+k,1,withTerm(mkInt(CR::getFull(8)))}); if(c.sz<=64) putCells(*own(S,R.obj),R.lo+c.off,c.sz,by); }
	cs=getCells(*peek(S,R.obj),R.lo,len);
	for(auto& c:cs){ c.off+=D.lo; if(!isBlock(c.v)) noteCell(D.obj,c.off,c.sz,c.v); }
	putCells(*own(S,D.obj),D.lo,len,cs);
}
static void fillMem(State& S,Instruction* I,Val d,Val b,Val n){
	int64_t len=constOr(S,I,n,"fill length"); if(len==0) return; Loc D=target(S,I,d,len,true,"write"); if(!D.one) throw Broken{"fill with an unresolved address"};
	b=deep(S,b); std::vector<Cell> cs; if(b.un==2) cs.push_back(Cell{D.lo,len,blockV(KUninit)}); else if(b.k==KInt&&isC(b)&&b.a==0) cs.push_back(Cell{D.lo,len,blockV(KZero)}); else for(int64_t k=0;k<len;k++) cs.push_back(Cell{D.lo+k,1,b});
	putCells(*own(S,D.obj),D.lo,len,cs);
}
static Val freshObj(State& S,Instruction* I,int64_t size,Kind k){ uint32_t id=HEAP0+S.heapNext++; auto o=newObj(size,k,locOf(I)); o->heap=true; putObj(S,id,o); return mkPtr1(id,0); }
static void doAllocHeap(State& S,CallBase* I,Val n,bool zero){
	if(NOHEAP) alarm(S,I,"heap","dynamic memory is allocated");
	int64_t len=constOr(S,I,n,"allocation size"); if(len>(1<<26)) throw Broken{"huge allocation"};
	set(S,I,freshObj(S,I,len,zero?KZero:KUninit)); S.top().it++;
}
static void doFree(State& S,CallBase* I,Val p){
	if(p.k!=KPtr) throw Broken{"free of a non-pointer"}; useUn(S,I,p,"passed to a deallocation function"); p=deep(S,p); PSet ps=PS(p);
	if(ps.unk){ alarm(S,I,"memory","deallocation of a pointer of unknown origin",false); throw Kill(); }
	if((ps.null?1:0)+ps.t.size()>1) splitOn(S,p.t);
	CNT["deallocations checked"]++;
	if(ps.null) return; Tgt t=ps.t[0]; Obj const* o=peek(S,t.obj);
	if(!o||!o->heap){ alarm(S,I,"memory","deallocation of memory that is not on the heap"); throw Kill(); }
	if(o->freed){ alarm(S,I,"memory","memory allocated at "+o->name+" is freed twice"); throw Kill(); }
	if(t.lo!=0||t.hi!=0){ alarm(S,I,"memory","deallocation of an interior pointer"); throw Kill(); }
	Obj* w=own(S,t.obj); w->freed=true; w->c.clear(); if(w->size) w->c.push_back(Cell{0,w->size,blockV(KUninit)});
}
static bool typeinfoBases(uint32_t ti,uint32_t want,int64_t off,int64_t& out){ // single-inheritance and vmi typeinfo
	if(ti==want){ out=off; return true; }
	auto o=globObj(ti); for(size_t i=2;i<o->c.size();i++){ auto& c=o->c[i]; if(c.v.k==KPtr&&isSingleP(c.v)&&!PS(c.v).null){ uint32_t b=PS(c.v).t[0].obj; if(b<GLOB0||b>=FUN0) continue; if(GV[b-GLOB0]->getName().starts_with("_ZTS")) continue; int64_t bo=0; if(i+1<o->c.size()&&o->c[i+1].v.k==KInt) bo=(int64_t)o->c[i+1].v.a>>8; if(typeinfoBases(b,want,off+bo,out)) return true; } }
	return false;
}
static bool opaqueStd(StringRef dem){ return dem.contains("basic_ostream")||dem.contains("std::ostream::")||dem.contains("std::istream::")||dem.contains("std::ios_base")||dem.contains("basic_istream")||dem.contains("std::endl"); }

// the scalar members of a type according to the debug information: offset, width in bits, 0 integer 1 float 2 pointer
struct Leaf { int64_t off; unsigned w; int k; };
static void leaves(DIType const* T,int64_t off,std::vector<Leaf>& out){
	if(!T) throw Broken{"object of unknown type"};
	if(auto* b=dyn_cast<DIBasicType>(T)){ out.push_back({off,(unsigned)b->getSizeInBits(),(int)(b->getEncoding()==dwarf::DW_ATE_float)}); return; }
	if(auto* d=dyn_cast<DIDerivedType>(T)){ switch(d->getTag()){ case dwarf::DW_TAG_pointer_type: case dwarf::DW_TAG_reference_type: out.push_back({off,64,2}); return;
		case dwarf::DW_TAG_member: if(d->isStaticMember()||d->isArtificial()||d->getName().starts_with("_vptr")) return; if(d->isBitField()) throw Broken{"bit field in an object"}; leaves(d->getBaseType(),off+d->getOffsetInBits()/8,out); return;
		case dwarf::DW_TAG_inheritance: leaves(d->getBaseType(),off+d->getOffsetInBits()/8,out); return;
		case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_atomic_type: leaves(d->getBaseType(),off,out); return; default: return; } }
	if(auto* c=dyn_cast<DICompositeType>(T)){ 
		if(c->getTag()==dwarf::DW_TAG_array_type){ int64_t n=1; for(auto* e:c->getElements()) if(auto* r=dyn_cast<DISubrange>(e)) if(auto* k=dyn_cast_if_present<ConstantInt*>(r->getCount())) n*=k->getSExtValue(); if(n<0||n>100000) throw Broken{"array of unknown length in an object"}; std::vector<Leaf> one; leaves(c->getBaseType(),0,one); int64_t sz=c->getSizeInBits()/8/(n?n:1); for(int64_t i=0;i<n;i++) for(auto l:one){ l.off+=off+i*sz; out.push_back(l); } return; }
		if(c->getTag()==dwarf::DW_TAG_enumeration_type){ out.push_back({off,(unsigned)c->getSizeInBits(),0}); return; }
		if(c->getTag()==dwarf::DW_TAG_union_type) throw Broken{"union in an object"};
		if(c->isForwardDecl()) throw Broken{"incomplete type in an object"};
		for(auto* e:c->getElements()) if(auto* t=dyn_cast<DIType>(e)) if(t->getTag()==dwarf::DW_TAG_member||t->getTag()==dwarf::DW_TAG_inheritance) leaves(t,off,out);
		return; }
	throw Broken{"object of an unsupported type"};
}
static std::vector<Leaf> leavesOfT(State& S){ auto* sp=S.ctop().f->F->getSubprogram(); if(!sp||sp->getTemplateParams().empty()) throw Broken{"the type of an object is not known"}; std::vector<Leaf> l; leaves(cast<DITemplateTypeParameter>(sp->getTemplateParams()[0])->getType(),0,l); return l; }
static Type* leafT(Leaf const& l){ auto& C=M->getContext(); return l.k==2?(Type*)PointerType::get(C,0):l.k==1?(l.w==32?Type::getFloatTy(C):l.w==64?Type::getDoubleTy(C):Type::getX86_FP80Ty(C)):(Type*)Type::getIntNTy(C,l.w); }
// what an asserted condition is made of (VPVAL=1, with --debug)
static void printT(State const& S, TermId t, int depth, std::set<TermId>& seen, std::string& o){
	Val v=evalT(S,t,4); Term const& d=TT.v[t]; char b[200]; seen.insert(t);
	if(v.k==KFloat) snprintf(b,sizeof b,"%*st%u op%u imm%llu [%.17g,%.17g]%s\n",depth*2,"",t,d.op,(unsigned long long)d.imm,v.lo(),v.hi(),v.nan?" NaN":""); else snprintf(b,sizeof b,"%*st%u op%u imm%llu [%lld..%lld)\n",depth*2,"",t,d.op,(unsigned long long)d.imm,(long long)v.a,(long long)v.b);
	o+=b; if(depth<6) for(int i=0;i<d.n;i++) printT(S,d.a[i],depth+1,seen,o);
}
static bool intrinsic(State& S,CallBase* I,Function* F,std::string const& n){ // returns false if not handled; advances on its own when needed
	auto A=[&](unsigned i){ return get(S,I->getArgOperand(i)); };
	auto next=[&]{ S.top().it++; };
	if(n=="vp_any_bool"){ set(S,I,withTerm(mkInt(CR::getFull(1)))); Val v=get(S,I); if(I->getType()->getIntegerBitWidth()!=1){ set(S,I,withTerm(mkInt(CR(APInt(I->getType()->getIntegerBitWidth(),0),APInt(I->getType()->getIntegerBitWidth(),2))))); } next(); return true; }
	if(n=="vp_any_int"||n=="vp_any_uint"){ Val a=A(0),b=A(1); unsigned w=I->getType()->getIntegerBitWidth(); APInt lo(w,a.a),hi(w,(b.a+1)&(w<64?((1ULL<<w)-1):~0ULL)); Val v=lo==hi?mkInt(CR::getFull(w)):mkInt(CR(lo,hi)); if(!isC(v)) v=withTerm(v); set(S,I,v); next(); return true; }
	if(n=="vp_any_double"){ Val a=A(0),b=A(1); Val v=mkF(64,a.lo(),b.hi(),false); if(!isC(v)) v=withTerm(v); set(S,I,v); next(); return true; }
	if(n=="vp_any_fp"){ set(S,I,withTerm(fullF(64))); next(); return true; }
	if(n=="vp_pure_int"){ Val f=A(0),a=A(1),b=A(2),k=A(3); unsigned w=I->getType()->getIntegerBitWidth(); useUn(S,I,k,"hashed",I->getArgOperand(3)->getType()); APInt lo(w,a.a),hi(w,b.a+1); Val v=lo==hi?mkInt(CR::getFull(w)):mkInt(CR(lo,hi)); TermId t=TT.get(T_CALL,w,1000+f.a,termOf(k)); if(TT.base[t].k==KNone) TT.base[t]=v; v.t=t; set(S,I,v); next(); return true; }
	if(n=="vp_havoc"||n=="vp_uninit"){ Val p=A(0); int64_t len=constOr(S,I,A(1),"length"); Loc L=target(S,I,p,len,true,"write"); putCells(*own(S,L.obj),L.lo,len,{Cell{L.lo,len,blockV(n=="vp_havoc"?KHavoc:KUninit)}}); next(); return true; }
	if(n=="vp_track"||n=="vp_untrack"||n=="vp_track_range"){ Val p=A(0); int64_t len=constOr(S,I,A(1),"length"); Loc L=target(S,I,p,len,false,"track"); auto t=std::make_shared<std::vector<Region>>(*S.track); Region r{L.obj,L.lo,len,n=="vp_track"?1:n=="vp_untrack"?2:0}; bool dup=false; for(auto& q:*t) if(q.obj==r.obj&&q.off==r.off&&q.len==r.len) dup=true; if(!dup) t->insert(t->begin(),r); S.track=t; next(); return true; }
	if(n=="vp_track_max"){ TRACKMAX=A(0).a; next(); return true; }
	if(n=="vp_track_all"){ TRACKALL=A(0).a&1; next(); return true; }
	if(n=="vp_unroll"){ UNROLL=A(0).a; next(); return true; }
	if(n=="vp_splitmax"){ SPLITMAX=A(0).a; next(); return true; }
	if(n=="vp_noheap"){ NOHEAP=A(0).a&1; next(); return true; }
	if(n=="vp_reach"){ REACHED.insert(cstr(S,A(0))); next(); return true; }
	if(n=="vp_split"){ Val v=deep(S,A(0)); if(!isC(v)){ if(!canSplit(S,v,4096)) throw Broken{"vp_split of an unbounded value"}; splitOn(S,v.t,4096);} set(S,I,v); next(); return true; }
	if(n=="vp_assume"){ Val c=A(0); bool b; if(decide(S,c,b)){ if(!b) throw Kill(); next(); return true; } if(c.w==1||true){ Val one=mkIntC(c.w,1); if(!assume(S,termOf(c),one)) throw Kill(); } next(); return true; }
	if(n=="vp_assert"){ Val c=A(0); useUn(S,I,c,"asserted",I->getArgOperand(0)->getType()); bool b; CNT["assertions checked"]++; if(ISEEN.insert(I).second) OBSITES.insert(I);
		if(!decide(S,c,b)){ if(getenv("VPVAL")){ std::string o; std::set<TermId> seen; printT(S,termOf(c),0,seen,o); fprintf(stderr,"%s",o.c_str()); for(auto&r:*S.rel) if(seen.count(r.a)&&seen.count(r.b)) fprintf(stderr,"rel t%u t%u m%u\n",r.a,r.b,r.m); } splitBool(S,c); }
		if(!b){ alarm(S,I,"assert",cstr(S,A(1))); throw Kill(); } next(); return true; }
	if(n=="vp_same"){ Val x=deep(S,A(0)),y=deep(S,A(1)); bool eq; if(x.un||y.un) eq=x.un==y.un&&x.un==2; else if(isC(x)&&isC(y)) eq=x.a==y.a; else if(termOf(x)==termOf(y)) eq=true; else eq=cmpF(S,termOf(x),x,termOf(y),y)==EQ; if(!eq&&getenv("VPVAL")){ std::string o; std::set<TermId> seen; printT(S,termOf(x),0,seen,o); o+="against\n"; printT(S,termOf(y),0,seen,o); fprintf(stderr,"%s",o.c_str()); for(auto&r:*S.rel) if(seen.count(r.a)&&seen.count(r.b)) fprintf(stderr,"rel t%u t%u m%u\n",r.a,r.b,r.m); if(getenv("VPMEM")){ for(auto&r:*S.rel) fprintf(stderr,"allrel t%u t%u m%u\n",r.a,r.b,r.m); for(auto&p:S.mem) for(auto&c:p.second->c) fprintf(stderr,"cell %u+%ld:%ld k%d t%u a%lx\n",p.first,(long)c.off,(long)c.sz,(int)c.v.k,c.v.t,(long)c.v.a); } } retInt(S,I,mkIntC(I->getType()->getIntegerBitWidth(),eq)); next(); return true; }
	if(n=="vp_same_mem"){ Val p=A(0),q=A(1); int64_t len=constOr(S,I,A(2),"length"); Loc P=target(S,I,p,len,false,"read"),Q=target(S,I,q,len,false,"read"); auto a=getCells(*peek(S,P.obj),P.lo,len),b=getCells(*peek(S,Q.obj),Q.lo,len);
		// expand blocks against the other side
		bool eq=true; std::set<int64_t> cuts; for(auto&c:a) cuts.insert(c.off); for(auto&c:b) cuts.insert(c.off); cuts.insert(len); Obj oa,ob; oa.size=ob.size=len; oa.c=a; ob.c=b; int64_t prev=-1; for(auto c:cuts){ if(prev>=0&&eq){ auto x=getCells(oa,prev,c-prev),y=getCells(ob,prev,c-prev); if(x.size()!=1||y.size()!=1) eq=false; else { Val u=x[0].v,v=y[0].v; auto nz=[&](Val z){ if(z.k==KInt&&isC(z)&&z.a==0&&!z.un) z=blockV(KZero); else if(z.k==KFloat&&isC(z)&&z.a==0&&!z.un) z=blockV(KZero); else if(z.k==KPtr&&isSingleP(z)&&PS(z).null) z=blockV(KZero); else if(z.un==2) z=blockV(KUninit); return z; }; 
				if(!isBlock(u)) u=deep(S,u); if(!isBlock(v)) v=deep(S,v); u=nz(u); v=nz(v); if(u.k!=v.k||u.un!=v.un) eq=false; else if(isBlock(u)){ if(u.k==KHavoc) eq=false; } else if(u.k==KPtr) eq=u.a==v.a; else if(isC(u)&&isC(v)) eq=u.a==v.a; else if(termOf(u)!=termOf(v)){ uint8_t m=u.k==KFloat?cmpF(S,termOf(u),u,termOf(v),v):cmpI(S,termOf(u),u,termOf(v),v); eq=m==EQ; } } } prev=c; }
		retInt(S,I,mkIntC(I->getType()->getIntegerBitWidth(),eq)); next(); return true; }
	if(n=="vp_fill_raw"){ Val p=A(0); for(auto& l:leavesOfT(S)){ Val q=p; Loc L=target(S,I,p,1,false,"write"); Val v=l.k==2?freshObj(S,I,8,KUninit):l.k==1?withTerm(fullF(l.w)):l.w==8?withTerm(mkInt(CR(APInt(8,0),APInt(8,2)))):withTerm(mkInt(CR::getFull(l.w))); storeT(S,I,mkPtr1(L.obj,L.lo+l.off),v,leafT(l)); } next(); return true; }
	if(n=="vp_same_raw"){ Loc P=target(S,I,A(0),1,false,"read"),Q=target(S,I,A(1),1,false,"read"); bool eq=true; for(auto& l:leavesOfT(S)){ Type* T=leafT(l); Val x=deep(S,loadT(S,I,mkPtr1(P.obj,P.lo+l.off),T)),y=deep(S,loadT(S,I,mkPtr1(Q.obj,Q.lo+l.off),T)); CNT["members compared"]++;
			bool e=!x.un&&!y.un&&x.k==y.k; if(e){ if(x.k==KPtr) e=x.a==y.a; else if(isC(x)&&isC(y)) e=x.a==y.a; else e=termOf(x)==termOf(y); } if(!e) eq=false; }
		retInt(S,I,mkIntC(I->getType()->getIntegerBitWidth(),eq)); next(); return true; }
	if(n=="vp_is_init"){ Val p=A(0); int64_t len=constOr(S,I,A(1),"length"); Loc P=target(S,I,p,len,false,"read"); bool ok=true; for(auto& c:getCells(*peek(S,P.obj),P.lo,len)) if(c.v.un) ok=false; retInt(S,I,mkIntC(I->getType()->getIntegerBitWidth(),ok)); next(); return true; }
	if(n=="vp_is_valid"){ Val p=A(0); p=deep(S,p); bool ok=p.k==KPtr&&isSingleP(p)&&!PS(p).null; if(ok){ Obj const* o=peek(S,PS(p).t[0].obj); ok=o&&!o->freed; } retInt(S,I,mkIntC(I->getType()->getIntegerBitWidth(),ok)); next(); return true; }
	if(n=="vp_live_heap"){ unsigned c=0; for(auto& p:S.mem) if(p.first>=HEAP0&&p.first<GLOB0&&!p.second->freed) c++; retInt(S,I,mkIntC(32,c)); next(); return true; }
	if(n=="vp_dump"){ Val v=deep(S,A(0)); fprintf(stderr,"DUMP k=%d un=%d t=%u ",v.k,v.un,v.t); if(v.k==KInt){ std::string s; raw_string_ostream os(s); v.cr().print(os); fprintf(stderr,"%s",os.str().c_str()); } if(v.k==KFloat) fprintf(stderr,"[%.17g,%.17g]%s",v.lo(),v.hi(),v.nan?" nan":""); fprintf(stderr,"\n"); next(); return true; }
	return false;
}
static void pushFrame(State& S,CallBase* I,Function* F){
	FInfo* f=finfo(F); if(f->repo) FSEEN.insert(F);
	if(S.fr.size()>400){ alarm(S,I,"nonterm","recursion deeper than 400 calls"); throw Kill(); }
	auto nf=std::make_shared<Frame>(); nf->f=f; nf->env.assign(f->n,Val()); nf->site=I; nf->bb=&F->getEntryBlock(); nf->it=nf->bb->begin(); nf->lc.assign(f->loopBlocks.size(),0);
	uint32_t base=(uint32_t)(S.fr.size())*1024;
	unsigned i=0; for(auto& a:F->args()){ Val v=get(S,I->getArgOperand(i)); 
		if(I->isByValArgument(i)){ Type* T=I->getParamByValType(i); int64_t len=DL->getTypeAllocSize(T); Loc L=target(S,I,v,len,false,"read"); auto o=std::make_shared<Obj>(); o->size=len; o->name="argument"; o->c=getCells(*peek(S,L.obj),L.lo,len); uint32_t id=base+nf->nalloca++; putObj(S,id,o); nf->allocas.push_back(id); for(auto& c:o->c) if(!isBlock(c.v)) noteCell(id,c.off,c.sz,c.v); v=mkPtr1(id,0); }
		nf->env[f->idx[&a]]=v; i++; }
	if(inRepo(I)){ auto t=std::make_shared<Trace>(); t->p=S.trace; t->I=I; t->n=-1; S.trace=t; }
	S.fr.push_back(nf);
}
static void doCall(State& S,CallBase* I){
	Function* F=I->getCalledFunction();
	if(!F){ Val p=get(S,I->getCalledOperand()); useUn(S,I,p,"called"); p=deep(S,p); if(p.k!=KPtr||PS(p).unk){ alarm(S,I,"memory","call through an unknown pointer",false); throw Kill(); } PSet ps=PS(p); if((ps.null?1:0)+ps.t.size()>1) splitOn(S,p.t); if(ps.null||ps.t.empty()||ps.t[0].obj<FUN0){ alarm(S,I,"memory","call through an invalid function pointer"); throw Kill(); } F=FV[ps.t[0].obj-FUN0]; if(F->arg_size()!=I->arg_size()) throw Broken{"indirect call with a different signature"}; }
	std::string n=F->getName().str();
	auto A=[&](unsigned i){ return get(S,I->getArgOperand(i)); };
	auto next=[&]{ S.top().it++; };
	if(auto* II=dyn_cast<IntrinsicInst>(I)){ 
		switch(II->getIntrinsicID()){
		case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: next(); return;
		case Intrinsic::stacksave: set(S,I,mkNull()); next(); return;
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: { Val p=A(1); if(p.k==KPtr&&isSingleP(p)&&!PS(p).null){ uint32_t id=PS(p).t[0].obj; Obj const* o=peek(S,id); if(o&&PS(p).t[0].lo==0){ Obj* w=own(S,id); w->c.clear(); if(w->size) w->c.push_back(Cell{0,w->size,blockV(KUninit)}); } } next(); return; }
		case Intrinsic::memcpy: case Intrinsic::memcpy_inline: copyMem(S,I,A(0),A(1),A(2),false); next(); return;
		case Intrinsic::memmove: copyMem(S,I,A(0),A(1),A(2),true); next(); return;
		case Intrinsic::memset: fillMem(S,I,A(0),A(1),A(2)); next(); return;
		case Intrinsic::fmuladd: case Intrinsic::fma: { Val x=A(0),y=A(1),z=A(2); useUn(S,I,x,"used in arithmetic",I->getType()); useUn(S,I,y,"used in arithmetic",I->getType()); useUn(S,I,z,"used in arithmetic",I->getType()); set(S,I,mkBinF(S,Instruction::FAdd,mkBinF(S,Instruction::FMul,x,y),z)); next(); return; }
		case Intrinsic::expect: set(S,I,A(0)); next(); return;
		case Intrinsic::is_constant: set(S,I,mkIntC(1,0)); next(); return;
		case Intrinsic::trap: case Intrinsic::ubsantrap: alarm(S,I,"abort","trap"); throw Kill();
		case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: { Val x=deep(S,A(0)),y=deep(S,A(1)); Val r=mkBinI(S,II->getIntrinsicID()==Intrinsic::umul_with_overflow?Instruction::Mul:Instruction::Add,x,y,0); bool ov=false; auto c1=II->getIntrinsicID()==Intrinsic::umul_with_overflow?x.cr().unsignedMulMayOverflow(y.cr()):x.cr().unsignedAddMayOverflow(y.cr()); Val o=c1==CR::OverflowResult::NeverOverflows?mkIntC(1,0):withTerm(mkInt(CR::getFull(1))); (void)ov; set(S,I,mkAgg({r,o})); next(); return; }
		case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: { Val x=A(0),y=A(1); useUn(S,I,x,"used in arithmetic",I->getType()); useUn(S,I,y,"used in arithmetic",I->getType()); auto id=II->getIntrinsicID(); Val c=mkCmpI(S,id==Intrinsic::umax?CmpInst::ICMP_UGE:id==Intrinsic::umin?CmpInst::ICMP_ULE:id==Intrinsic::smax?CmpInst::ICMP_SGE:CmpInst::ICMP_SLE,x,y); bool b; if(!decide(S,c,b)) splitBool(S,c); set(S,I,b?x:y); next(); return; }
		case Intrinsic::abs: { Val x=A(0); useUn(S,I,x,"used in arithmetic",I->getType()); Val c=mkCmpI(S,CmpInst::ICMP_SGE,x,mkIntC(x.w,0)); bool b; if(!decide(S,c,b)) splitBool(S,c); set(S,I,b?x:mkBinI(S,Instruction::Sub,mkIntC(x.w,0),x,2)); next(); return; }
		case Intrinsic::is_fpclass: { Val x=A(0); useUn(S,I,x,"tested",I->getArgOperand(0)->getType()); x=deep(S,x); unsigned m=A(1).a; // nan 3, ninf 4, pinf 512
			bool mayT=false,mayF=false; if(x.nan){ if((m&3)) mayT=true; else mayF=true; if((m&3)&&(m&3)!=3) mayF=true; } if(!fEmpty(x)){ double L=x.lo(),H=x.hi(); if(H==INFINITY){ if(m&512) mayT=true; else mayF=true; } if(L==-INFINITY){ if(m&4) mayT=true; else mayF=true; } if(!(std::isinf(L)&&L==H)){ unsigned fin=m&0x1f8; if(fin==0x1f8) mayT=true; else if(fin==0) mayF=true; else { mayT=mayF=true; } } }
			if(mayT!=mayF){ set(S,I,mkIntC(1,mayT)); next(); return; }
			if((m&~3u)==0||m==0x3fc){ TermId t=termOf(x); bool inv=m==0x3fc; Val r=mkInt(CR::getFull(1)); TermId q=TT.get(T_FCMP,1,inv?EQ:UNO,t,t); r.t=q; if(TT.base[q].k==KNone) TT.base[q]=mkInt(CR::getFull(1)); set(S,I,r); next(); return; }
			set(S,I,withTerm(mkInt(CR::getFull(1)))); next(); return; }
		case Intrinsic::copysign: { Val x=A(0); set(S,I,withTerm(fullF(x.w))); next(); return; }
		default: break; } }
	if(n.rfind("vp_",0)==0){ 
		if(n=="vp_merge"){ throw Broken{"vp_merge out of place"}; }
		if(intrinsic(S,I,F,n)) return; throw Broken{"unknown intrinsic "+n}; }
	int mid=(F->isDeclaration()||F->isIntrinsic())?mathId(n):0;
	if(mid){ Val a[2]; unsigned na=I->arg_size(); for(unsigned i=0;i<na&&i<2;i++){ a[i]=A(i); useUn(S,I,a[i],"passed to a mathematical function",I->getArgOperand(i)->getType()); a[i]=deep(S,a[i]); }
		unsigned w=I->getType()->isFloatTy()?32:64; bool allc=isC(a[0])&&(na<2||isC(a[1])); Val r=callF(mid,a,na,w); if(r.k==KNone) r=fullF(w);
		if(!(allc&&isC(r))){ TermId t=TT.get(T_CALL,w,mid,termOf(a[0]),na>1?termOf(a[1]):0); if(TT.base[t].k==KNone) TT.base[t]=fullF(w); Val e=evalT(S,t,2); Val m=meetV(r,e); if(m.k!=KNone) r=m; r.t=isC(r)?0:t; if(!isC(r)){ } }
		set(S,I,r); next(); return; }
	if(n=="_Znwm"||n=="_Znam"||n=="malloc"||n=="_ZnwmRKSt9nothrow_t"||n=="_ZnamRKSt9nothrow_t"){ doAllocHeap(S,I,A(0),false); return; }
	if(n=="calloc"){ doAllocHeap(S,I,mkBinI(S,Instruction::Mul,A(0),A(1),0),true); return; }
	if(n=="_ZdlPv"||n=="_ZdaPv"||n=="free"||n=="_ZdlPvm"||n=="_ZdaPvm"){ doFree(S,I,A(0)); next(); return; }
	if(n=="memset"){ fillMem(S,I,A(0),A(1),A(2)); retInt(S,I,A(0)); next(); return; }
	if(n=="memcpy"||n=="memmove"){ copyMem(S,I,A(0),A(1),A(2),n=="memmove"); retInt(S,I,A(0)); next(); return; }
	if(n=="abort"||n=="exit"||n=="__assert_fail"||n=="_ZSt9terminatev"||n=="__cxa_pure_virtual"||n=="__cxa_throw_bad_array_new_length"||n.rfind("_ZSt",0)==0&&n.find("__throw_")!=std::string::npos||n=="__cxa_throw"){
		if(F->isDeclaration()){ alarm(S,I,"abort",n=="__assert_fail"?"assertion can fail: "+cstr(S,A(0)):n=="__cxa_pure_virtual"?"a pure virtual function is called":"the program is stopped by "+F->getName().str()); throw Kill(); } }
	if(n=="__cxa_atexit"||n=="__cxa_guard_release"||n=="__cxa_guard_abort"){ retInt(S,I,I->getType()->isVoidTy()?Val():mkIntC(32,0)); next(); return; }
	if(n=="__cxa_guard_acquire"){ Val g=loadT(S,I,A(0),Type::getInt8Ty(M->getContext())); bool z=isC(g)&&g.a==0; set(S,I,mkIntC(32,z?1:0)); if(z) storeT(S,I,A(0),mkIntC(8,1),Type::getInt8Ty(M->getContext())); next(); return; }
	if(n=="__dynamic_cast"){ Val p=deep(S,A(0)); useUn(S,I,p,"cast"); PSet ps=PS(p); if((ps.null?1:0)+ps.t.size()>1) splitOn(S,p.t); if(ps.null){ set(S,I,mkNull()); next(); return; }
		Val vt=loadT(S,I,p,PointerType::get(M->getContext(),0)); if(vt.un||!isSingleP(vt)||PS(vt).null){ alarm(S,I,"memory","dynamic_cast of an object without a vtable"); throw Kill(); }
		Tgt t=PS(vt).t[0]; Val top=readAt(S,t.obj,t.lo-16,Type::getInt64Ty(M->getContext())), ti=readAt(S,t.obj,t.lo-8,PointerType::get(M->getContext(),0)); uint32_t want=PS(A(2)).t[0].obj; int64_t off; PSet q=ps; q.t[0].lo+=(int64_t)top.a; q.t[0].hi=q.t[0].lo; if(typeinfoBases(PS(ti).t[0].obj,want,0,off)){ q.t[0].lo+=off; q.t[0].hi=q.t[0].lo; set(S,I,mkPtr(q)); } else set(S,I,mkNull()); next(); return; }
	FInfo* f=finfo(F);
	if(F->isDeclaration()||opaqueStd(f->dem)){
		for(unsigned i=0;i<I->arg_size();i++){ Val v=A(i); if(v.un) useUn(S,I,v,"passed to an external function",I->getArgOperand(i)->getType()); }
		if(opaqueStd(f->dem)||n=="printf"||n=="puts"||n=="putchar"){ if(!I->getType()->isVoidTy()){ if(I->getType()->isPointerTy()) set(S,I,A(0)); else set(S,I,withTerm(topOf(I->getType()))); } next(); return; }
		if(n=="rand"||n=="random"){ set(S,I,withTerm(mkInt(CR(APInt(I->getType()->getIntegerBitWidth(),0),APInt(I->getType()->getIntegerBitWidth(),0x80000000ull))))); next(); return; }
		if(n=="srand"||n=="clock"||n=="time"){ if(!I->getType()->isVoidTy()) set(S,I,withTerm(topOf(I->getType()))); next(); return; }
		throw Broken{"call of unmodelled external function "+f->dem};
	}
	pushFrame(S,I,F);
}
// control transfer into a block: evaluates phis, counts iterations, returns true if the state stops at an automatic merge point
static void jump(State& S,BasicBlock* to){
	Frame& f=S.top(); BasicBlock* from=f.bb; std::vector<std::pair<int,Val>> nv;
	for(auto& ph:to->phis()){ Val v=get(S,ph.getIncomingValueForBlock(from)); nv.push_back({f.f->idx[&ph],v}); }
	for(auto& p:nv) f.env[p.first]=p.second;
	f.prev=from; f.bb=to; f.it=to->getFirstNonPHIIt();
	auto h=f.f->heads.find(to); if(h!=f.f->heads.end()){ if(f.f->loopBlocks[h->second].count(from)) f.lc[h->second]++; else { f.lc[h->second]=0; f.ls.resize(f.lc.size()); f.ls[h->second]=S.nsplit; } }
}
static bool isMergeCall(const Instruction* I){ auto* c=dyn_cast<CallInst>(I); return c&&c->getCalledFunction()&&(c->getCalledFunction()->getName()=="vp_merge"||c->getCalledFunction()->getName()=="vp_merge_signs"); }
enum Res { R_CONT, R_END };
static Res step(State& S){
	Instruction* I=&*S.ctop().it; STEPS++;
	auto op=[&](unsigned i){ return get(S,I->getOperand(i)); };
	Type* T=I->getType();
	switch(I->getOpcode()){
	case Instruction::Alloca: { auto* a=cast<AllocaInst>(I); int64_t n=1; if(a->isArrayAllocation()) n=constOr(S,I,op(0),"array size"); int64_t sz=DL->getTypeAllocSize(a->getAllocatedType())*n; if(sz<0||sz>(1<<26)){ alarm(S,I,"memory","variable-length array of invalid size"); throw Kill(); } Frame& f=S.top(); uint32_t id=(uint32_t)(S.fr.size()-1)*1024+f.nalloca++; if(f.nalloca>1000) throw Broken{"too many stack objects"};
		std::string nm=a->getName().str(); putObj(S,id,newObj(sz,KUninit,nm)); f.allocas.push_back(id); set(S,I,mkPtr1(id,0)); S.top().it++; return R_CONT; }
	case Instruction::Load: { Val v=loadT(S,I,op(0),T); set(S,I,v); S.top().it++; return R_CONT; }
	case Instruction::Store: { Val v=op(0); storeT(S,I,op(1),v,I->getOperand(0)->getType()); S.top().it++; return R_CONT; }
	case Instruction::GetElementPtr: {
		Val b=op(0); auto* G=cast<GEPOperator>(I); int64_t off=0; std::vector<std::pair<Val,int64_t>> var; Type* inner=nullptr;
		for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ llvm::Value* ix=gi.getOperand(); auto* arr=dyn_cast_or_null<ArrayType>(inner); inner=gi.getIndexedType();
			if(auto* st=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
			int64_t sc=DL->getTypeAllocSize(gi.getIndexedType()); Val v=get(S,ix); useUn(S,I,v,"used as an index",ix->getType()); v=deep(S,v);
			if(v.k!=KInt) throw Broken{"address arithmetic on a pointer-valued integer"};
			// an index of an array of known length: at most its length, and less than it if the element is accessed
			if(arr&&arr->getNumElements()>0){ auto gn=gi; ++gn; bool strict=gn!=ge; if(!strict){ strict=true; for(auto* u:I->users()) if(!isa<LoadInst>(u)&&!(isa<StoreInst>(u)&&cast<StoreInst>(u)->getPointerOperand()==I)) strict=false; }
				CNT["array indices checked"]++; uint64_t N=arr->getNumElements()+(strict?0:1); CR ok(APInt(v.w,0),APInt(v.w,N)); CR c=v.cr();
				if(!ok.contains(c)){ if(!isC(v)&&canSplit(S,v)) splitOn(S,v.t); alarm(S,I,"memory","an index of an array of "+std::to_string(arr->getNumElements())+" elements is out of range",isC(v)); CR r=c.intersectWith(ok); if(r.isEmptySet()) throw Kill(); Val nv=mkInt(r,v.t); if(v.t&&!assume(S,v.t,nv)) throw Kill(); v=nv; } }
			if(isC(v)){ off+=sval(v)*sc; continue; }
			if(canSplit(S,v)) splitOn(S,v.t);
			var.push_back({v,sc}); }
		if(b.un){ set(S,I,b); S.top().it++; return R_CONT; }
		if(b.k!=KPtr){ throw Broken{"gep on a non-pointer"}; }
		PSet p=PS(deep(S,b)); if(p.null&&p.t.empty()&&var.empty()&&off==0){ set(S,I,b); S.top().it++; return R_CONT; }
		if(p.null&&!p.t.empty()){ if(b.t) splitOn(S,b.t); }
		if(off==0&&var.empty()){ set(S,I,b); S.top().it++; return R_CONT; }
		for(auto& t:p.t){ t.lo+=off; t.hi+=off; for(auto& q:var){ int64_t l=q.first.cr().getSignedMin().getSExtValue(),h=q.first.cr().getSignedMax().getSExtValue(); const int64_t LIM=(int64_t)1<<40; l=std::max(l,-LIM); h=std::min(h,LIM); t.lo+=l*q.second; t.hi+=h*q.second; uint32_t ns=q.second; t.stride=(t.hi==t.lo||t.stride<=1)?ns:std::__gcd(t.stride,ns); } }
		Val r=mkPtr(p); if(p.t.size()>1||!var.empty()) r=withTerm(r); set(S,I,r); S.top().it++; return R_CONT; }
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
		Val x=op(0),y=op(1); useUn(S,I,x,"used in arithmetic",T); useUn(S,I,y,"used in arithmetic",T); x=deep(S,x); y=deep(S,y); unsigned o=I->getOpcode();
		for(Val* q:{&x,&y}) if(q->k==KPtr&&isSingleP(*q)&&PS(*q).null) *q=mkIntC(T->getIntegerBitWidth(),0);
		if(x.k==KPtr||y.k==KPtr){ // pointers as integers
			if(o==Instruction::Sub&&x.k==KPtr&&y.k==KPtr&&isSingleP(x)&&isSingleP(y)&&!PS(x).null&&!PS(y).null&&PS(x).t[0].obj==PS(y).t[0].obj){ set(S,I,mkIntC(64,PS(x).t[0].lo-PS(y).t[0].lo)); S.top().it++; return R_CONT; }
			if(o==Instruction::Add&&x.k==KInt) std::swap(x,y);
			if((o==Instruction::Add||o==Instruction::Sub)&&x.k==KPtr&&y.k==KInt&&isC(y)&&isSingleP(x)&&!PS(x).null){ PSet p=PS(x); p.t[0].lo+=o==Instruction::Add?sval(y):-sval(y); p.t[0].hi=p.t[0].lo; set(S,I,mkPtr(p)); S.top().it++; return R_CONT; }
			if(o==Instruction::And||o==Instruction::URem){ if(x.k==KInt&&o==Instruction::And) std::swap(x,y); // alignment tests: objects are taken to be 16-byte aligned
				if(x.k==KPtr&&y.k==KInt&&isC(y)&&isSingleP(x)&&!PS(x).null){ uint64_t m=o==Instruction::And?y.a:y.a-1; if(m<16){ set(S,I,mkIntC(64,(uint64_t)PS(x).t[0].lo&m)); S.top().it++; return R_CONT; } if(~m<16){ PSet p=PS(x); p.t[0].lo&=(int64_t)m; p.t[0].hi=p.t[0].lo; set(S,I,mkPtr(p)); S.top().it++; return R_CONT; } } }
			set(S,I,withTerm(mkInt(CR::getFull(T->getIntegerBitWidth())))); S.top().it++; return R_CONT; }
		if(o==Instruction::UDiv||o==Instruction::SDiv||o==Instruction::URem||o==Instruction::SRem){ CNT["divisors checked"]++; if(y.k==KInt&&y.cr().contains(APInt(y.w,0))){ alarm(S,I,"arith","integer division by zero",isC(y)); if(isC(y)) throw Kill(); CR c=y.cr().intersectWith(CR(APInt(y.w,1),APInt(y.w,0))); Val nz=mkInt(c,y.t); if(y.t&&!assume(S,y.t,nz)) throw Kill(); y=nz; if(isC(y)) y.t=0; }
			if((o==Instruction::SDiv||o==Instruction::SRem)&&x.k==KInt&&y.k==KInt&&isC(y)&&isC(x)&&y.cr().getSingleElement()->isAllOnes()&&APInt(x.w,x.a).isMinSignedValue()){ alarm(S,I,"arith","signed division overflows"); throw Kill(); } }
		if((o==Instruction::Shl||o==Instruction::LShr||o==Instruction::AShr)&&y.k==KInt){ CNT["shift amounts checked"]++; if(!y.cr().getUnsignedMax().ult(y.w)){ alarm(S,I,"arith","shift by "+(isC(y)?std::to_string(y.a):std::string("an amount that can reach"))+" in a type of "+std::to_string(y.w)+" bits",isC(y)); if(isC(y)) throw Kill(); } }
		unsigned nw=0; if(auto* ob=dyn_cast<OverflowingBinaryOperator>(I)){ if(ob->hasNoUnsignedWrap()) nw|=1; if(ob->hasNoSignedWrap()) nw|=2; }
		if((o==Instruction::And||o==Instruction::Or||o==Instruction::Xor)&&T->getIntegerBitWidth()>1){ for(Val* q:{&x,&y}) if(!isC(*q)&&q->t){ CR c=q->cr(); if(!c.isFullSet()&&!c.isSizeLargerThan(2)) splitOn(S,q->t,2); } }
		{ Val r=mkBinI(S,o,x,y,nw); if((nw&2)&&r.t&&r.k==KInt&&TT.v[r.t].op==T_ADDC&&TT.v[r.t].w>=32){ Val e=evalT(S,r.t,2); if(e.k==KInt&&!r.cr().contains(e.cr())){ Val q=r; q.t=0; q.un=0; refSet(S,r.t,q); } }
		set(S,I,r); S.top().it++; return R_CONT; } }
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val x=op(0),y=op(1); useUn(S,I,x,"used in arithmetic",T); useUn(S,I,y,"used in arithmetic",T); set(S,I,mkBinF(S,I->getOpcode(),deep(S,x),deep(S,y))); S.top().it++; return R_CONT; }
	case Instruction::FNeg: { Val x=op(0); useUn(S,I,x,"used in arithmetic",T); set(S,I,mkBinF(S,Instruction::FMul,deep(S,x),mkFC(x.w,-1))); S.top().it++; return R_CONT; }
	case Instruction::ICmp: { Val x=op(0),y=op(1); Type* OT=I->getOperand(0)->getType(); auto p=cast<ICmpInst>(I)->getPredicate();
		if(x.k==KPtr||y.k==KPtr){ useUn(S,I,x,"compared",OT); useUn(S,I,y,"compared",OT); if(x.k==KInt&&isC(x)&&x.a==0) x=mkNull(); if(y.k==KInt&&isC(y)&&y.a==0) y=mkNull(); if(x.k!=KPtr||y.k!=KPtr){ set(S,I,withTerm(mkInt(CR::getFull(1)))); S.top().it++; return R_CONT; }
			x=deep(S,x); y=deep(S,y); for(Val* q:{&x,&y}){ PSet const& s=PS(*q); if(!s.unk&&(s.null?1:0)+s.t.size()>1&&q->t) splitOn(S,q->t); }
			PSet const a=PS(x),b=PS(y); int r=-1; // -1 unknown 0/1
			if(isSingleP(x)&&isSingleP(y)){ bool an=a.null,bn=b.null; bool eq=an&&bn; if(!an&&!bn) eq=a.t[0].obj==b.t[0].obj&&a.t[0].lo==b.t[0].lo; if(p==CmpInst::ICMP_EQ) r=eq; else if(p==CmpInst::ICMP_NE) r=!eq; else if(an||bn){ if(an&&bn) r=CmpInst::isTrueWhenEqual(p); else { bool lt=an; r=(p==CmpInst::ICMP_ULT||p==CmpInst::ICMP_ULE)?lt:!lt; } } else if(a.t[0].obj==b.t[0].obj){ int64_t u=a.t[0].lo,v=b.t[0].lo; switch(p){case CmpInst::ICMP_ULT:r=u<v;break;case CmpInst::ICMP_ULE:r=u<=v;break;case CmpInst::ICMP_UGT:r=u>v;break;case CmpInst::ICMP_UGE:r=u>=v;break;default:break;} } }
			else if(!a.unk&&!b.unk&&(a.null||b.null)&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)) r=p==CmpInst::ICMP_NE; 
			set(S,I,r<0?withTerm(mkInt(CR::getFull(1))):mkIntC(1,r)); S.top().it++; return R_CONT; }
		useUn(S,I,x,"compared",OT); useUn(S,I,y,"compared",OT); set(S,I,mkCmpI(S,p,x,y)); S.top().it++; return R_CONT; }
	case Instruction::FCmp: { Val x=op(0),y=op(1); Type* OT=I->getOperand(0)->getType(); useUn(S,I,x,"compared",OT); useUn(S,I,y,"compared",OT); set(S,I,mkCmpF(S,cast<FCmpInst>(I)->getPredicate(),x,y)); S.top().it++; return R_CONT; }
	case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
		Val x=op(0); unsigned w=T->isFloatTy()?32:T->isDoubleTy()?64:T->isIntegerTy()?T->getIntegerBitWidth():0; if(!w||w>64) throw Broken{"cast to an unsupported type"};
		if(x.un==2){ set(S,I,undefOf(T)); S.top().it++; return R_CONT; }
		uint8_t un=x.un; x.un=0; x=deep(S,x);
		if(x.k==KAgg){ if(I->getOpcode()==Instruction::Trunc){ auto const b=AGG[x.a]; for(size_t i=0;i+2<b.size();i+=3) if(b[i].a==0&&b[i+1].a*8==w){ set(S,I,convertTo(b[i+2],T)); S.top().it++; return R_CONT; } } set(S,I,withTerm(topOf(T))); S.top().it++; return R_CONT; }
		if(x.k==KPtr){ set(S,I,withTerm(topOf(T))); S.top().it++; return R_CONT; }
		if(I->getOpcode()==Instruction::FPToSI||I->getOpcode()==Instruction::FPToUI){ CNT["float-to-integer conversions checked"]++; bool sg=I->getOpcode()==Instruction::FPToSI; double mn=sg?-std::ldexp(1.0,w-1)-1:-1, mx=sg?std::ldexp(1.0,w-1):std::ldexp(1.0,w); bool bad=x.nan||(!fEmpty(x)&&(std::trunc(x.lo())<=mn||x.hi()>=mx)); if(sg&&w>=53&&!x.nan&&x.lo()>=-std::ldexp(1.0,w-1)&&x.hi()<mx) bad=false;
			if(bad){ bool def=fEmpty(x)||(x.lo()>=mx)||(x.hi()<=mn); alarm(S,I,"arith",std::string("conversion of a floating-point value ")+(x.nan?"that can be NaN or ":"")+"outside the range of the integer type",def); } }
		Val r=mkCast(S,I->getOpcode(),x,T,w); if(STRUCTFP.count(I)){ r=deep(S,r); if(!isC(r)&&canSplit(S,r,8)) splitOn(S,r.t,8); } if(r.un==0) r.un=un; set(S,I,r); S.top().it++; return R_CONT; }
	case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { Val x=op(0); if(I->getOpcode()==Instruction::BitCast&&!T->isPointerTy()) x=convertTo(x,T); set(S,I,x); S.top().it++; return R_CONT; }
	case Instruction::PtrToInt: { Val x=op(0); if(T->getIntegerBitWidth()!=64) x=isSingleP(x)&&PS(x).null?mkIntC(T->getIntegerBitWidth(),0):withTerm(mkInt(CR::getFull(T->getIntegerBitWidth()))); set(S,I,x); S.top().it++; return R_CONT; }
	case Instruction::IntToPtr: { Val x=op(0); if(x.k==KInt){ x=deep(S,x); if(isC(x)&&x.a==0) x=mkNull(); else x=topOf(T); } set(S,I,x); S.top().it++; return R_CONT; }
	case Instruction::Select: { Val c=op(0); useUn(S,I,c,"used as a condition",I->getOperand(0)->getType()); bool b; if(!decide(S,c,b)){ Val x=op(1),y=op(2); if(x==y){ set(S,I,x); S.top().it++; return R_CONT; } splitBool(S,c);} set(S,I,b?op(1):op(2)); S.top().it++; return R_CONT; }
	case Instruction::ExtractValue: { Val a=op(0); auto* e=cast<ExtractValueInst>(I); for(unsigned ix:e->indices()) a=AGG[a.a][ix]; set(S,I,a); S.top().it++; return R_CONT; }
	case Instruction::InsertValue: { auto* e=cast<InsertValueInst>(I); Val a=op(0),x=op(1); std::function<Val(Val,unsigned)> rec=[&](Val v,unsigned d)->Val{ if(d==e->getNumIndices()) return x; auto c=AGG[v.a]; c[e->getIndices()[d]]=rec(c[e->getIndices()[d]],d+1); return mkAgg(c); }; set(S,I,rec(a,0)); S.top().it++; return R_CONT; }
	case Instruction::Br: { auto* b=cast<BranchInst>(I); if(b->isUnconditional()){ jump(S,b->getSuccessor(0)); return R_CONT; }
		Val c=op(0); useUn(S,I,c,"used as a branch condition",I->getOperand(0)->getType()); bool d; CNT["branches evaluated"]++;
		if(!decide(S,c,d)) splitBool(S,c);
		if(inRepo(I)){ auto t=std::make_shared<Trace>(); t->p=S.trace; t->I=I; t->n=d; S.trace=t; }
		jump(S,b->getSuccessor(d?0:1)); return R_CONT; }
	case Instruction::Switch: { auto* s=cast<SwitchInst>(I); Val c=op(0); useUn(S,I,c,"used as a branch condition",I->getOperand(0)->getType()); c=deep(S,c); if(isC(c)){ auto* ci=ConstantInt::get(cast<IntegerType>(I->getOperand(0)->getType()),c.a); jump(S,s->findCaseValue(ci)->getCaseSuccessor()); return R_CONT; } if(canSplit(S,c)) splitOn(S,c.t);
		for(auto cs:s->cases()){ State Q=S; if(assume(Q,termOf(c),mkIntC(c.w,cs.getCaseValue()->getZExtValue()))){ jump(Q,cs.getCaseSuccessor()); STACK.push_back(Q);} }
		jump(S,s->getDefaultDest()); return R_CONT; }
	case Instruction::Call: { if(isMergeCall(I)) throw Broken{"merge"}; doCall(S,cast<CallBase>(I)); return R_CONT; }
	case Instruction::Invoke: { auto* iv=cast<InvokeInst>(I); (void)iv; throw Broken{"invoke"}; }
	case Instruction::Ret: {
		Val v; bool has=I->getNumOperands()>0; if(has) v=op(0);
		CallBase* site=S.ctop().site; auto al=S.ctop().allocas; for(auto a:al) delObj(S,a);
		S.fr.pop_back(); if(S.fr.empty()) return R_END;
		if(has&&!site->getType()->isVoidTy()) set(S,site,v);
		S.top().it++; return R_CONT; }
	case Instruction::Unreachable: { alarm(S,I,"abort","control reaches a point with no defined behaviour (for example the end of a non-void function without a return)"); throw Kill(); }
	}
	throw Broken{std::string("unsupported instruction ")+I->getOpcodeName()};
}
static void markStructural(){
	std::set<llvm::Value const*> seen; std::vector<llvm::Value const*> wl;
	auto add=[&](llvm::Value const* v){ if(isa<Constant>(v)||!v->getType()->isIntegerTy()) return; if(seen.insert(v).second) wl.push_back(v); };
	for(auto& F:*M) for(auto& b:F) for(auto& i:b){ if(auto* g=dyn_cast<GetElementPtrInst>(&i)) for(auto& ix:g->indices()) add(ix.get()); if(auto* s=dyn_cast<SwitchInst>(&i)) add(s->getCondition()); if(auto* a=dyn_cast<AllocaInst>(&i)) if(a->isArrayAllocation()) add(a->getArraySize()); }
	auto drain=[&]{ while(!wl.empty()){ auto* v=wl.back(); wl.pop_back();
		if(auto* a=dyn_cast<Argument>(v)){ for(auto* u:a->getParent()->users()) if(auto* c=dyn_cast<CallBase>(u)) if(c->getCalledFunction()==a->getParent()&&a->getArgNo()<c->arg_size()) add(c->getArgOperand(a->getArgNo())); continue; }
		auto* I=dyn_cast<Instruction>(v); if(!I) continue;
		if(auto* l=dyn_cast<LoadInst>(I)){ STRUCTLOAD.insert(l); // values stored to a local slot
			continue; }
		if(auto* c=dyn_cast<CallBase>(I)){ if(auto* F=c->getCalledFunction()) for(auto& b:*F) if(auto* r=dyn_cast<ReturnInst>(b.getTerminator())) if(r->getReturnValue()) add(r->getReturnValue()); continue; }
		if(isa<FPToSIInst>(I)||isa<FPToUIInst>(I)){ STRUCTFP.insert(I); continue; } if(isa<CmpInst>(I)) continue;
		for(auto& u:I->operands()) add(u.get()); } };
	drain();
	// bounds compared with index values
	std::vector<llvm::Value const*> extra; for(auto& F:*M) for(auto& b:F) for(auto& i:b) if(auto* c=dyn_cast<ICmpInst>(&i)){ auto strip=[&](llvm::Value* v){ return v; }; llvm::Value *x=strip(c->getOperand(0)),*y=strip(c->getOperand(1)); if(seen.count(x)) extra.push_back(y); else if(seen.count(y)) extra.push_back(x); }
	for(auto v:extra) add(v); drain(); STRUCTVAL.insert(seen.begin(),seen.end());
}
static double MEMLIM=3500;
static double rssMB(){ FILE* f=fopen("/proc/self/statm","r"); long a=0,b=0; if(f){ if(fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f); } return b*4096.0/1e6; }
static std::vector<std::string> IGNORE; static double GRACE=1e9; static size_t SEENAL=0;
static void runAll(std::vector<State> init){
	auto t0=Clock::now(); STACK=std::move(init); uint64_t n=0; 
	while(true){
		if(STACK.empty()){ Node* best=nullptr; for(auto& p:NODES) if(p->pending&&(!best||p->depth>best->depth)) best=p.get(); if(!best) break; best->pending=false; best->st.node=best->id; State Q=best->st; Q.node=best->id; Q.nsplit++; 
			if(isMergeCall(best->loc)&&!best->autoLoop){ Q.top().it++; for(auto& x:Q.top().lc) x=0; } else Q.unroll=1; STACK.push_back(std::move(Q)); }
		State S=std::move(STACK.back()); STACK.pop_back(); MAXSTACK=std::max(MAXSTACK,STACK.size());
		bool fresh=S.unroll==1; S.unroll=0;
		try {
			while(true){
				if((++n&1023)==0){ double el=std::chrono::duration<double>(Clock::now()-t0).count(); for(;SEENAL<ALARMS.size();SEENAL++){ bool ig=false; for(auto& g:IGNORE) if((ALARMS[SEENAL].kind+"|"+ALARMS[SEENAL].msg).find(g)!=std::string::npos) ig=true; if(!ig) BUDGET=std::min(BUDGET,el+GRACE); } if(el>BUDGET){ INCOMPLETE=true; INCWHY="time budget exhausted"; return; } if((n&65535)==0&&rssMB()>MEMLIM){ INCOMPLETE=true; INCWHY="memory budget exhausted"; return; } if(ALARMS.size()>=MAXALARM) return; if(STACK.size()>200000){ INCOMPLETE=true; INCWHY="too many pending states"; return; } }
				Frame const& f=S.ctop(); Instruction* I=&*f.it;
				if(TRACE) fprintf(stderr,"%zu %s %s\n",S.fr.size(),f.f->dem.substr(0,60).c_str(),locOf(I).c_str());
				if(isMergeCall(I)){ if(arrive(S,I,false,true)) {} break; }
				if(!fresh&&I->getParent()->getFirstNonPHI()==I){ auto h=f.f->heads.find(f.bb); if(h!=f.f->heads.end()&&f.lc[h->second]>(f.ls.size()>h->second&&f.ls[h->second]==S.nsplit?std::max(UNROLL,5000):UNROLL)){ arrive(S,I,true,false); break; } }
				fresh=false;
				if(step(S)==R_END){ endPath(S); break; }
			}
		} catch(Kill&){ endPath(S); }
		catch(SplitEx& e){ CNT["splits"]++; bool any=false; for(size_t i=0;i<e.vals.size();i++){ State Q=S; Q.nsplit++; if(assume(Q,e.t,e.vals[i])){ any=true; STACK.push_back(std::move(Q)); } } if(!any) endPath(S); }
		catch(Broken& b){ Instruction* I=&*S.ctop().it; INCOMPLETE=true; INCWHY=b.msg+" at "+locOf(I)+" in "+S.ctop().f->dem; if(DEBUG) for(auto& f:S.fr) fprintf(stderr,"  %s %s\n",f->f->dem.c_str(),locOf(&*f->it).c_str()); return; }
	}
	// automatic loop nodes from which no path leaves
	std::map<uint32_t,std::set<uint32_t>> pred; std::set<uint32_t> good=EXITS; std::vector<uint32_t> wl(EXITS.begin(),EXITS.end()); 
	while(!wl.empty()){ uint32_t x=wl.back(); wl.pop_back(); if(x<NODES.size()) for(auto p:NODES[x]->pred) if(good.insert(p).second) wl.push_back(p); }
	for(auto& p:NODES) if(p->id&&!good.count(p->id)) alarm(p->st,p->loc,"nonterm","the loop has no path to its exit");
}
static std::string js(std::string const& s){ std::string r="\""; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((unsigned char)c<32) r+=' '; else r+=c; } return r+"\""; }
int main(int argc,char** argv){
	std::string file,entry; for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--budget") BUDGET=atof(argv[++i]); else if(a=="--unroll") UNROLL=atoi(argv[++i]); else if(a=="--grace") GRACE=atof(argv[++i]); else if(a=="--ignore") IGNORE.push_back(argv[++i]); else if(a=="--debug") DEBUG=true; else if(a=="--trace") TRACE=true; else if(a=="--max-alarms") MAXALARM=atoi(argv[++i]); else if(file.empty()) file=a; else entry=a; }
	LLVMContext C; SMDiagnostic E; auto mod=parseIRFile(file,E,C); if(!mod){ E.print("vpai",errs()); return 3; }
	M=mod.get(); DL=&M->getDataLayout(); Function* F=M->getFunction(entry); if(!F||F->isDeclaration()){ fprintf(stderr,"no scenario %s\n",entry.c_str()); return 3; }
	NODES.emplace_back(new Node()); NODES[0]->id=0; NODES[0]->loc=&*F->getEntryBlock().begin();
	std::set<int64_t> th={-1,0,1,2}; for(auto& G:*M) for(auto& b:G) for(auto& i:b) if(isa<ICmpInst>(i)) for(auto& o:i.operands()) if(auto* c=dyn_cast<ConstantInt>(o.get())) if(c->getBitWidth()<=64&&std::llabs(c->getSExtValue())<4096) th.insert(c->getSExtValue()); THR.assign(th.begin(),th.end());
	std::set<double> ft={-INFINITY,INFINITY,-DBL_MAX,DBL_MAX,-1,-5e-324,0,5e-324,1}; for(auto& G:*M) for(auto& b:G) for(auto& i:b) if(auto* c=dyn_cast<CallBase>(&i)) if(c->getCalledFunction()&&c->getCalledFunction()->getName()=="vp_any_double") for(auto& o:c->args()) if(auto* k=dyn_cast<ConstantFP>(o.get())) if(k->getType()->isDoubleTy()){ double d=k->getValueAPF().convertToDouble(); ft.insert(d); ft.insert(2*d); ft.insert(-d); ft.insert(-2*d); } FTHR.assign(ft.begin(),ft.end());
	markStructural();
	auto t0=Clock::now();
	State S; auto mk=[&](Function* G){ auto f=std::make_shared<Frame>(); f->f=finfo(G); f->env.assign(f->f->n,Val()); f->bb=&G->getEntryBlock(); f->it=f->bb->begin(); f->lc.assign(f->f->loopBlocks.size(),0); return f; };
	try {
		// dynamic initialisers of the module, run to completion on the initial state
		if(auto* gc=M->getGlobalVariable("llvm.global_ctors")) if(auto* arr=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto& o:arr->operands()){ Function* ctor=dyn_cast<Function>(cast<ConstantStruct>(o.get())->getOperand(1)); if(!ctor) continue; S.fr.push_back(mk(ctor)); while(step(S)!=R_END){} }
	} catch(Kill&){} catch(SplitEx&){ INCOMPLETE=true; INCWHY="branching in a static initialiser"; } catch(Broken& b){ INCOMPLETE=true; INCWHY=b.msg+" in a static initialiser"; }
	S.fr.clear(); S.fr.push_back(mk(F)); if(!INCOMPLETE) runAll({S});
	double el=std::chrono::duration<double>(Clock::now()-t0).count(); if(getenv("VPWHY")) whyApart();
	std::string o="{"; o+="\"entry\":"+js(entry)+",\"incomplete\":"+(INCOMPLETE?js(INCWHY):"null")+",\"seconds\":"+std::to_string(el);
	o+=",\"counts\":{\"instructions interpreted\":"+std::to_string(STEPS)+",\"paths ended\":"+std::to_string(PATHS)+",\"terms\":"+std::to_string(TT.v.size())+",\"max pending states\":"+std::to_string(MAXSTACK); for(auto& c:CNT) o+=","+js(c.first)+":"+std::to_string(c.second); o+=",\"assertion sites\":"+std::to_string(OBSITES.size())+"}";
	o+=",\"functions\":["; bool first=true; for(auto f:FSEEN){ if(!first) o+=","; first=false; o+=js(FI[f]->dem); } o+="],\"reached\":["; first=true; for(auto& r:REACHED){ if(!first) o+=","; first=false; o+=js(r);} o+="],\"alarms\":["; first=true;
	for(auto& a:ALARMS){ if(!first) o+=","; first=false; o+="{\"kind\":"+js(a.kind)+",\"msg\":"+js(a.msg)+",\"file\":"+js(a.file)+",\"line\":"+std::to_string(a.line)+",\"function\":"+js(a.fn)+",\"definite\":"+(a.definite?"true":"false")+",\"stack\":["; bool g=true; for(auto& s:a.stack){ if(!g) o+=","; g=false; o+=js(s);} o+="],\"trace\":["; g=true; for(auto& s:a.trace){ if(!g) o+=","; g=false; o+=js(s);} o+="]}"; }
	o+="]}\n"; fputs(o.c_str(),stdout); return 0;
}
