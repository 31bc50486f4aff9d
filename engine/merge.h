// vpai: merge points -- keys, subsumption, join and widening
#pragma once
#include "interp.h"
struct Node { uint32_t id; State st; int merges=0; bool pending=false, exits=false, autoLoop=false; size_t depth=0; const Instruction* loc; std::set<uint32_t> succ; std::set<uint32_t> pred; };
static std::vector<std::unique_ptr<Node>> NODES;
static std::unordered_map<uint64_t,std::vector<uint32_t>> NKEY;
static std::set<const llvm::Value*> STRUCTVAL; static int64_t TRACKMAX=12; static bool TRACKALL=false;
static std::set<uint32_t> EXITS;

static void canonHeap(State& S,const Instruction* I,bool checkLeak){
	bool any=false; for(auto& p:S.mem) if(p.first>=HEAP0&&p.first<GLOB0) any=true; if(!any){ S.heapNext=0; return; }
	std::map<uint32_t,uint32_t> ren; std::vector<uint32_t> order;
	auto visit=[&](Val const& v){ if(v.k==KPtr) for(auto& t:PS(v).t) if(t.obj>=HEAP0&&t.obj<GLOB0&&!ren.count(t.obj)){ ren[t.obj]=HEAP0+order.size(); order.push_back(t.obj);} if(v.k==KAgg) for(auto& x:AGG[v.a]) if(x.k==KPtr) for(auto& t:PS(x).t) if(t.obj>=HEAP0&&t.obj<GLOB0&&!ren.count(t.obj)){ ren[t.obj]=HEAP0+order.size(); order.push_back(t.obj);} };
	for(auto& f:S.fr) for(auto& v:f->env) visit(v);
	for(auto& p:S.mem) if(p.first<HEAP0||p.first>=GLOB0) for(auto& c:p.second->c) visit(c.v);
	for(size_t i=0;i<order.size();i++){ Obj const* o=peek(S,order[i]); if(o) for(auto& c:o->c) visit(c.v); }
	bool ident=true; std::vector<uint32_t> drop;
	for(auto& p:S.mem) if(p.first>=HEAP0&&p.first<GLOB0){ auto it=ren.find(p.first); if(it==ren.end()) drop.push_back(p.first); else if(it->second!=p.first) ident=false; }
	for(auto d:drop){ Obj const* o=peek(S,d); if(checkLeak&&!o->freed) alarm(S,I,"leak","heap object allocated at "+o->name+" is unreachable and was never freed"); delObj(S,d); }
	for(auto& kv:ren) if(kv.first!=kv.second) ident=false;
	if(!ident){
		auto fix=[&](Val& v){ if(v.k==KPtr){ PSet p=PS(v); bool c=false; for(auto& t:p.t){ auto it=ren.find(t.obj); if(it!=ren.end()&&it->second!=t.obj){ t.obj=it->second; c=true; } } if(c){ std::sort(p.t.begin(),p.t.end()); Val n=mkPtr(p); n.un=v.un; v=n; } } };
		for(auto& f:S.fr){ f=std::make_shared<Frame>(*f); for(auto& v:f->env) fix(v); }
		std::vector<std::pair<uint32_t,ObjP>> nm;
		for(auto& p:S.mem){ auto o=std::make_shared<Obj>(*p.second); for(auto& c:o->c) fix(c.v); uint32_t id=p.first; auto it=ren.find(id); if(it!=ren.end()) id=it->second; nm.push_back({id,o}); }
		std::sort(nm.begin(),nm.end(),[](auto&a,auto&b){return a.first<b.first;}); S.mem=nm;
		auto tr=std::make_shared<std::vector<Region>>(); for(auto r:*S.track){ auto it=ren.find(r.obj); if(it!=ren.end()) r.obj=it->second; tr->push_back(r);} S.track=tr;
	}
	S.heapNext=order.size();
}
static bool tracked(State const& S,uint32_t obj,int64_t off,bool& exact){
	for(auto& r:*S.track) if(r.obj==obj&&off>=r.off&&off<r.off+r.len){ exact=r.mode==1; return r.mode!=2; }
	if(TRACKALL){ exact=true; return true; }
	exact=false; return STRUCTCELL.count({obj,off})>0;
}
static uint64_t clipI(Val const& v){ uint64_t mx=(uint64_t)TRACKMAX; int64_t s=sval(v); if(s>TRACKMAX) return mx+1; if(s<-TRACKMAX) return (uint64_t)(-(int64_t)mx-1); return (uint64_t)s; }
static uint64_t valKey(State const& S,Val const& v0,int mode){ // 0 none 1 clipped 2 exact
	Val v=v0; uint64_t h=mix(v.k,v.w); h=mix(h,v.un);
	if(v.k==KPtr) return mix(h,v.a);
	if(v.k==KAgg){ for(auto& x:AGG[v.a]) h=mix(h,x.k==KAgg?0:valKey(S,x,0)); return h; }
	if(v.un==2) return h;
	if(v.k==KInt){ if(v.w==1||(v.w==8&&isC(v))){ v=deep(S,v); return mix(mix(h,v.a),v.b); }
		if(mode==2){ v=deep(S,v); return mix(mix(h,v.a),v.b); }
		if(mode==1){ v=deep(S,v); if(isC(v)) return mix(h,clipI(v)); return mix(h,0x5555); } }
	if(v.k==KFloat&&mode==2){ v=deep(S,v); uint64_t s=v.nan?1:0; if(!fEmpty(v)){ if(v.lo()<0) s|=2; if(v.hi()>0) s|=4; if(v.lo()<=0&&v.hi()>=0) s|=8; if(std::isinf(v.lo())&&v.a==v.b) s|=16; if(std::isinf(v.hi())&&v.a==v.b) s|=32; } return mix(h,s); }
	return h;
}
static void slotsOf(State& S,std::vector<Val*>& out,std::vector<uint64_t>* what=nullptr){
	for(size_t d=0;d<S.fr.size();d++){ Frame& f=*S.fr[d]; for(size_t i=0;i<f.env.size();i++) if(f.env[i].k!=KNone){ out.push_back(&f.env[i]); if(what) what->push_back(d*100000+i); } }
	for(auto& p:S.mem) for(auto& c:p.second->c) if(!isBlock(c.v)){ out.push_back(&c.v); if(what) what->push_back(((uint64_t)p.first<<24)+c.off); }
}
// splits aggregate values into their scalar parts is not supported in merges: aggregates are rare and compared by identity
static Val widenV(Val const& o,Val const& n){ // o included in n
	Val r=n; r.t=0;
	if(n.k==KInt){ CR a=o.cr(),b=n.cr(); if(a==b) return r; if(b.isFullSet()) return r; unsigned w=n.w;
		if(!a.isSignWrappedSet()&&!b.isSignWrappedSet()){
			int64_t lo=b.getSignedMin().getSExtValue(),hi=b.getSignedMax().getSExtValue();
			int64_t smin=APInt::getSignedMinValue(w).getSExtValue(), smax=APInt::getSignedMaxValue(w).getSExtValue();
			if(lo<a.getSignedMin().getSExtValue()){ int64_t k=smin; for(auto t:THR) if(t<=lo) k=std::max(k,t); lo=k; }
			if(hi>a.getSignedMax().getSExtValue()){ int64_t k=smax; for(auto t:THR) if(t>=hi) k=std::min(k,t); hi=k; }
			APInt A(w,(uint64_t)lo,true),B(w,(uint64_t)hi+1,true); if(A==B) return mkInt(CR::getFull(w)); r=mkInt(CR(A,B)); r.un=n.un; return r; }
		if(!a.isWrappedSet()&&!b.isWrappedSet()){ APInt lo=b.getUnsignedMin(); if(lo.ult(a.getUnsignedMin())) lo=APInt(w,0); if(lo!=0){ r=mkInt(CR(lo,APInt(w,0))); r.un=n.un; return r; } }
		r=mkInt(CR::getFull(w)); r.un=n.un; return r; }
	if(n.k==KFloat){ if(fEmpty(o)||fEmpty(n)) return r; auto const& T=FTHR; double lo=n.lo(),hi=n.hi();
		if(lo<o.lo()){ double k=-INFINITY; for(double t:T) if(t<=lo) k=std::max(k,t); lo=k; } if(hi>o.hi()){ double k=INFINITY; for(double t:T) if(t>=hi) k=std::min(k,t); hi=k; }
		r=mkF(n.w,lo,hi,n.nan); r.un=n.un; return r; }
	return r;
}
// homomorphism of terms: pattern t (in A) against target u (in B)
struct Hom { std::unordered_map<TermId,TermId> m; };
static bool matchT(State const& B,Hom& h,TermId t,TermId u,int depth=0){
	auto it=h.m.find(t); if(it!=h.m.end()) return it->second==u;
	Term const p=TT.v[t];
	if(p.op==T_IC||p.op==T_FC) return t==u;
	if(p.op==T_SYM){ h.m[t]=u; return true; }
	Term const q=TT.v[u];
	if(q.op!=p.op||q.w!=p.w||q.n!=p.n||q.imm!=p.imm||depth>24) return false;
	for(int i=0;i<p.n;i++) if(!matchT(B,h,p.a[i],q.a[i],depth+1)) return false;
	h.m[t]=u; return true;
}
static TermId substT(Hom& h,TermId t,bool& ok,int depth=0){
	auto it=h.m.find(t); if(it!=h.m.end()) return it->second;
	Term const p=TT.v[t]; if(p.op==T_IC||p.op==T_FC) return t;
	if(p.op==T_SYM||depth>24){ ok=false; return t; }
	TermId a[3]={0,0,0}; for(int i=0;i<p.n;i++){ a[i]=substT(h,p.a[i],ok,depth+1); if(!ok) return t; }
	if((p.op==T_CMP||p.op==T_FCMP)&&a[0]>a[1]){ TermId r=TT.get(p.op,p.w,swapMask(p.imm),a[1],a[0]); if(TT.base[r].k==KNone) TT.base[r]=TT.base[t]; return r; }
	TermId r=TT.get(p.op,p.w,p.imm,a[0],a[1],a[2]); if(TT.base[r].k==KNone) TT.base[r]=TT.base[t]; return r;
}
static bool rangeLeq(Val const& x,Val const& y){ if(y.k==KInt) return x.k==KInt&&y.cr().contains(x.cr()); if(y.k==KFloat){ if(x.nan&&!y.nan) return false; return fEmpty(x)||(y.lo()<=x.lo()&&x.hi()<=y.hi()); } return true; }
static bool SUBDBG=false;
#define WHY(...) do{ if(SUBDBG) fprintf(stderr,__VA_ARGS__); }while(0)
static std::string tstr(TermId t,int d=0){ Term const& x=TT.v[t]; if(x.op==T_SYM) return "s"+std::to_string(t); if(x.op==T_IC) return std::to_string((long long)x.imm); if(x.op==T_FC) return std::to_string(asD(x.imm)); std::string r="("+std::to_string(x.op)+":"+std::to_string(x.imm); if(d<5) for(int i=0;i<x.n;i++) r+=" "+tstr(x.a[i],d+1); return r+")"; }
static bool subsumed(State& A,State& B){ // every concrete state of B is a state of A
	std::vector<Val*> sa,sb; slotsOf(A,sa); slotsOf(B,sb); if(sa.size()!=sb.size()) return false;
	Hom h;
	for(size_t i=0;i<sa.size();i++){ Val &x=*sa[i],&y=*sb[i];
		if(x.un==2||x.k==KPtr) continue;
		if(x.k==KAgg){ if(x.a!=y.a) return false; continue; }
		if(!x.t){ Val e=deep(B,y); if(!isC(e)||!(e.a==x.a&&e.b==x.b&&e.nan==x.nan)){ if(!(isC(x)) && rangeLeq(e,x)) continue; WHY("slot %zu const differs\n",i); return false; } continue; }
		if(!matchT(B,h,x.t,termOf(y))){ WHY("slot %zu no match %s vs %s\n",i,tstr(x.t).c_str(),tstr(termOf(y)).c_str()); return false; } }
	// ranges of symbols and refinements
	for(auto& kv:std::vector<std::pair<TermId,TermId>>(h.m.begin(),h.m.end())){ if(TT.v[kv.first].op!=T_SYM) continue; Val a=evalT(A,kv.first,4), b=evalT(B,kv.second,5); if(!rangeLeq(b,a)){ WHY("range of %s [%lx,%lx] vs %s [%lx,%lx]\n",tstr(kv.first).c_str(),a.a,a.b,tstr(kv.second).c_str(),b.a,b.b); return false; } }
	for(auto& r:*A.ref){ if(TT.v[r.first].op==T_SYM) continue; bool ok=true; TermId u=substT(h,r.first,ok); if(!ok) continue; /* speaks of dead symbols only partly: keep sound */ Val b=evalT(B,u,5); if(!rangeLeq(b,r.second)){ WHY("ref of %s\n",tstr(r.first).c_str()); return false; } }
	for(auto& r:*A.rel){ bool ok=true; TermId a=substT(h,r.a,ok); if(!ok) continue; TermId b=substT(h,r.b,ok); if(!ok) continue; if(a==b){ Val v=evalT(B,a,4); uint8_t m=EQ|((v.k==KFloat&&v.nan)?UNO:0); if(m&~r.m) return false; continue; }
		Val x=evalT(B,a,4),y=evalT(B,b,4); uint8_t m=x.k==KFloat?cmpF(B,a,x,b,y):cmpI(B,a,x,b,y); if(m&~r.m){ WHY("rel %s %s: %d vs %d\n",tstr(r.a).c_str(),tstr(r.b).c_str(),r.m,m); return false; } }
	// facts of A about symbols no longer stored anywhere constrain nothing else (they were pruned by gcTerms)
	return true;
}
// drop facts that mention symbols which no slot can reach
static void gcTerms(State& S){
	std::vector<Val*> s; slotsOf(S,s); std::set<TermId> live;
	for(auto v:s){ if(v->t) for(auto l:TT.leaves(v->t)) live.insert(l); if(v->k==KAgg) for(auto& x:AGG[v->a]) if(x.t) for(auto l:TT.leaves(x.t)) live.insert(l); }
	auto alive=[&](TermId t){ for(auto l:TT.leaves(t)) if(!live.count(l)) return false; return true; };
	auto nr=std::make_shared<std::vector<std::pair<TermId,Val>>>(); for(auto& p:*S.ref) if(alive(p.first)) nr->push_back(p); S.ref=nr;
	auto nl=std::make_shared<std::vector<Rel>>();
	// eliminate the dead terms one by one, composing the relations of their neighbours
	std::map<TermId,std::map<TermId,uint8_t>> g; std::vector<TermId> dead;
	for(auto& r:*S.rel){ bool a=alive(r.a),b=alive(r.b); if(a&&b){ nl->push_back(r); continue; } if(r.a==r.b) continue;
		auto put=[&](TermId x,TermId y,uint8_t m){ auto it=g[x].find(y); if(it==g[x].end()) g[x][y]=m; else if(it->second&m) it->second&=m; };
		put(r.a,r.b,r.m); put(r.b,r.a,swapMask(r.m)); }
	for(auto& e:g) if(!alive(e.first)) dead.push_back(e.first);
	std::sort(dead.begin(),dead.end(),[&](TermId x,TermId y){ size_t a=g[x].size(),b=g[y].size(); return a!=b?a<b:x<y; });
	S.rel=nl;
	for(auto d:dead){ std::vector<std::pair<TermId,uint8_t>> n(g[d].begin(),g[d].end()); for(auto& e:n) g[e.first].erase(d); g.erase(d); if(n.size()>12) continue;
		for(size_t i=0;i<n.size();i++) for(size_t j=i+1;j<n.size();j++){ TermId x=n[i].first,y=n[j].first; uint8_t m=compose(swapMask(n[i].second),n[j].second); if(m==15||m==7||x==y) continue;
			if(alive(x)&&alive(y)){ uint8_t old=relFind(S,x,y); if((old&m)!=old&&(old&m)) relSet(S,x,y,old&m); continue; }
			if(TT.v[x].w!=TT.v[y].w) continue; auto it=g[x].find(y); uint8_t o=it==g[x].end()?15:it->second; if(!(o&m)) continue; g[x][y]=o&m; g[y][x]=swapMask(o&m); } }
}
static State joinStates(State& A,State& B,bool widen,bool& changed){
	State J=B; for(auto& f:J.fr) f=std::make_shared<Frame>(*f); for(auto& p:J.mem) p.second=std::make_shared<Obj>(*p.second);
	std::vector<Val*> sa,sb,sj; slotsOf(A,sa); slotsOf(B,sb); slotsOf(J,sj);
	struct Cls { TermId a,b,j; Val va,vb; }; std::map<std::pair<TermId,TermId>,size_t> cm; std::vector<Cls> cls; changed=false;
	std::set<TermId> kept;
	for(size_t i=0;i<sa.size();i++){ Val &x=*sa[i],&y=*sb[i],&z=*sj[i];
		if(x.un==2||x.k==KPtr){ z.t=0; if(x.k==KPtr){ z=x; z.t=0; } continue; }
		if(x.k==KAgg){ if(x.a!=y.a) throw Broken{"merge of aggregates"}; continue; }
		TermId ta=termOf(x),tb=termOf(y);
		if(ta==tb){ z=x; z.t=isC(x)?0:ta; if(!isC(x)) kept.insert(ta); else z=x; continue; }
		auto k=std::make_pair(ta,tb); auto it=cm.find(k); size_t c;
		if(it==cm.end()){ Val da=deep(A,x),db=deep(B,y); da.un=db.un=0; Val v=joinV(da,db); if(widen) v=widenV(da,v); v.t=0; 
			TermId j=TT.sym(v); v.t=j; cls.push_back({ta,tb,j,da,db}); c=cls.size()-1; cm[k]=c; }
		else c=it->second;
		Val v=TT.base[cls[c].j]; v.t=cls[c].j; v.un=x.un; z=v; }
	J.ref=std::make_shared<std::vector<std::pair<TermId,Val>>>(); J.rel=std::make_shared<std::vector<Rel>>();
	std::set<TermId> leaves; for(auto t:kept) for(auto l:TT.leaves(t)) leaves.insert(l);
	auto ok=[&](TermId t){ for(auto l:TT.leaves(t)) if(!leaves.count(l)) return false; return true; };
	for(auto& r:*A.ref) if(ok(r.first)){ Val b=evalT(B,r.first,5); b.un=0; Val a=r.second; a.un=0; Val v=joinV(a,b); if(widen) v=widenV(a,v); v.t=r.first; refSet(J,r.first,v); }
	for(auto l:leaves){ if(refFind(J,l)) continue; Val b=evalT(B,l,5), a=evalT(A,l,5); a.un=b.un=0; Val v=joinV(a,b); if(widen) v=widenV(a,v); if(!rangeLeq(TT.base[l],v)){ v.t=l; refSet(J,l,v);} }
	for(auto& r:*A.rel) if(ok(r.a)&&ok(r.b)){ Val x=evalT(B,r.a,4),y=evalT(B,r.b,4); uint8_t m=x.k==KFloat?cmpF(B,r.a,x,r.b,y):cmpI(B,r.a,x,r.b,y); m|=r.m; if(m!=15&&m!=7) relSet(J,r.a,r.b,m); }
	// relations of the merged classes among themselves and to kept stored terms and constants
	struct Q { TermId a,b,j; Val va,vb; }; std::vector<Q> q; for(auto& c:cls) q.push_back({c.a,c.b,c.j,c.va,c.vb});
	std::set<TermId> ks; for(auto t:kept) ks.insert(t); size_t nc=q.size();
	for(auto t:ks){ Val a=evalT(A,t,5),b=evalT(B,t,5); q.push_back({t,t,t,a,b}); }
	if(nc*q.size()<60000) for(size_t i=0;i<nc;i++) for(size_t k=i+1;k<q.size();k++){ auto&x=q[i];auto&y=q[k]; if(x.va.k!=y.va.k||x.va.w!=y.va.w) continue; bool f=x.va.k==KFloat; if(!f&&x.va.k!=KInt) continue; if(!f&&x.va.w<=8) continue;
		uint8_t m; if(f){ m=cmpF(A,x.a,x.va,y.a,y.va); if(m!=15&&m!=7) m|=cmpF(B,x.b,x.vb,y.b,y.vb); } else { m=cmpI(A,x.a,x.va,y.a,y.va); if(m!=7) m|=cmpI(B,x.b,x.vb,y.b,y.vb); }
		if(m==15||m==7) continue; 
		Val jx=evalT(J,x.j,1),jy=evalT(J,y.j,1); uint8_t base=f?ivMaskF(jx,jy):cmpI(J,0,jx,0,jy); if((base&m)!=base) relSet(J,x.j,y.j,m&base?m&base:m); }
	changed=true; return J;
}
static bool isSignMerge(const Instruction* I){ auto* c=dyn_cast<CallInst>(I); return c&&c->getCalledFunction()&&c->getCalledFunction()->getName()=="vp_merge_signs"; }
static uint64_t stateKey(State& S,const Instruction* loc,bool autoLoop){
	uint64_t h=mix(0,(uint64_t)loc); bool signs=isSignMerge(loc);
	for(size_t d=0;d<S.fr.size();d++){ Frame& f=*S.fr[d]; h=mix(h,f.f->id); h=mix(h,(uint64_t)f.site); h=mix(h,(uint64_t)f.bb); if(d+1<S.fr.size()) h=mix(h,(uint64_t)&*f.it);
		const Instruction* at=d+1<S.fr.size()?&*std::next(BasicBlock::iterator(const_cast<CallBase*>(S.fr[d+1]->site))):loc;
		auto const& L=liveBefore(f.f,at);
		for(size_t i=0;i<f.env.size();i++){ bool lv=L[i]; if(d+1<S.fr.size()&&f.f->vals[i]==S.fr[d+1]->site) lv=false; if(!lv){ f.env[i]=Val(); continue; }
			if(f.env[i].k==KNone) continue;
			int mode=0; if(autoLoop&&d+1==S.fr.size()&&f.env[i].k==KInt&&!f.f->induct.count(i)&&isa<Instruction>(f.f->vals[i])&&isC(f.env[i])) mode=1; if(!autoLoop&&f.env[i].k==KInt&&isC(f.env[i])&&STRUCTVAL.count(f.f->vals[i])) mode=1;
			h=mix(h,i); h=mix(h,valKey(S,f.env[i],mode)); } }
	// uniform cell layout
	for(auto& p:S.mem){ Obj& o=*p.second; auto zb=[&](Cell const& c){ return c.sz>0&&(c.v.k==KZero||(c.v.k==KInt&&c.sz==1&&c.v.w==8&&c.v.un==0&&isC(c.v)&&c.v.a==0)); }; bool run=false; for(size_t i=0;i+1<o.c.size();i++) if(zb(o.c[i])&&zb(o.c[i+1])&&(o.c[i].sz==1||o.c[i+1].sz==1)) run=true; if(!run) continue;
		std::vector<Cell> n; for(auto& c:o.c){ if(!n.empty()&&zb(c)&&zb(n.back())){ Val z; z.k=KZero; n.back().v=z; n.back().sz+=c.sz; } else n.push_back(c); } o.c=n; }
	for(auto& p:S.mem){ auto it=CELLT.find(p.first); if(it==CELLT.end()) continue; bool blk=false; for(auto& c:p.second->c) if(c.v.k==KZero&&c.sz>0) blk=true; if(!blk) continue;
		for(auto& t:it->second){ Obj& o=*p.second; if(t.first+t.second.first>o.size) continue; size_t i=cellAt(o,t.first); Cell c=o.c[i]; if(c.v.k!=KZero||c.off+c.sz<t.first+t.second.first) continue;
			Val z; if(t.second.second.k==KInt) z=mkIntC(t.second.second.w,0); else if(t.second.second.k==KFloat) z=mkFC(t.second.second.w,0); else if(t.second.second.k==KPtr) z=mkNull(); else continue;
			putCells(o,t.first,t.second.first,{Cell{t.first,t.second.first,z}}); } }
	for(auto& p:S.mem){ h=mix(h,p.first); Obj& o=*p.second; h=mix(h,o.size); h=mix(h,o.freed); for(auto& c:o.c){ h=mix(h,c.off); h=mix(h,c.sz); bool ex=false; bool tr=!isBlock(c.v)&&tracked(S,p.first,c.off,ex); if(signs&&c.v.k==KFloat&&p.first<HEAP0&&p.first/1024<S.fr.size()&&S.fr[p.first/1024]->f->repo) tr=ex=true; h=mix(h,isBlock(c.v)?c.v.k:valKey(S,c.v,tr?(ex?2:1):0)); } }
	// decided values of unknown pure functions (hash results) keep states apart
	uint64_t pf=0; for(auto& r:*S.ref){ Term const& d=TT.v[r.first]; if(d.op==T_CALL&&d.imm>=1000&&isC(r.second)) pf+=mix(mix(d.imm,r.second.a),77); } h=mix(h,pf);
	return h;
}
// debugging aid: what keeps the states of one program point apart
static void whyApart(){
	std::map<std::pair<const Instruction*,size_t>,std::vector<Node*>> g; for(auto& n:NODES) g[{n->loc,n->depth}].push_back(n.get());
	std::vector<Node*> best; for(auto& p:g) if(p.second.size()>best.size()) best=p.second; if(best.size()<2) return; fprintf(stderr,"%zu nodes at one point\n",best.size());
	std::map<std::string,std::set<uint64_t>> kinds; std::map<std::string,std::map<uint64_t,std::string>> ex2; for(auto n:best){ State& S=n->st; 
		for(size_t d=0;d<S.fr.size();d++){ Frame& f=*S.fr[d]; kinds["bb of frame "+std::to_string(d)].insert((uint64_t)f.bb); for(size_t i=0;i<f.env.size();i++) { uint64_t k=f.env[i].k==KNone?0:valKey(S,f.env[i],STRUCTVAL.count(f.f->vals[i])&&f.env[i].k==KInt&&isC(f.env[i])?1:0); kinds["frame "+std::to_string(d)+" "+f.f->dem.substr(0,40)+" "+f.f->vals[i]->getName().str()+" #"+std::to_string(i)].insert(k); } }
		for(auto& p:S.mem) for(auto& c:p.second->c){ bool ex=false; bool tr=!isBlock(c.v)&&tracked(S,p.first,c.off,ex); kinds["mem "+p.second->name+"("+std::to_string(p.first)+")+"+std::to_string(c.off)+":"+std::to_string(c.sz)].insert(isBlock(c.v)?c.v.k:valKey(S,c.v,tr?(ex?2:1):0)); char b[99]; snprintf(b,99,"k%d w%d un%d a%lx b%lx tr%d",c.v.k,c.v.w,c.v.un,(long)c.v.a,(long)c.v.b,tr); ex2["mem "+p.second->name+"("+std::to_string(p.first)+")+"+std::to_string(c.off)+":"+std::to_string(c.sz)][isBlock(c.v)?c.v.k:valKey(S,c.v,tr?(ex?2:1):0)]=b; } }
	for(auto& k:ex2) if(k.second.size()>1){ fprintf(stderr," %s:",k.first.c_str()); for(auto& y:k.second) fprintf(stderr," {%s}",y.second.c_str()); fprintf(stderr,"\n"); }
	for(auto& k:kinds) if(k.second.size()>1) fprintf(stderr,"  %s: %zu\n",k.first.c_str(),k.second.size()); }
// returns the node to continue from if the arrival is new, or null when subsumed
static Node* arrive(State& S,const Instruction* loc,bool autoLoop,bool leak){
	for(auto& f:S.fr) f=std::make_shared<Frame>(*f);
	for(auto& p:S.mem) p.second=std::make_shared<Obj>(*p.second);
	{ // dead values first so that they keep no heap object alive
		stateKey(S,loc,autoLoop); canonHeap(S,loc,leak); }
	gcTerms(S); uint64_t k=stateKey(S,loc,autoLoop);
	CNT["merge arrivals"]++;
	uint32_t from=S.node;
	auto& lst=NKEY[k]; Node* n=nullptr;
	if(!lst.empty()) n=NODES[lst[0]].get();
	if(!n){ auto u=std::make_unique<Node>(); n=u.get(); n->id=NODES.size(); NODES.push_back(std::move(u)); lst.push_back(n->id); n->loc=loc; n->autoLoop=autoLoop; n->depth=S.fr.size(); n->st=S; n->st.node=n->id; n->pending=true; n->pred.insert(from); CNT["merge nodes"]++; return n; }
	n->pred.insert(from);
	SUBDBG=getenv("VPDBG")&&n->merges>40; if(SUBDBG) fprintf(stderr,"node %u: ",n->id);
	if(subsumed(n->st,S)) return nullptr;
	n->merges++; bool ch; State J=joinStates(n->st,S,n->merges>3,ch); gcTerms(J); J.node=n->id; n->st=J; n->pending=true; CNT["joins"]++; return n;
}
