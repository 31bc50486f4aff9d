// vpai: value arithmetic, term evaluation, assumptions and relations
#pragma once
#include "core.h"
enum { EQ=1, GT=2, LT=4, UNO=8 };

static Val meetV(Val const& x, Val const& y){ // result empty -> k=KNone
	Val r=x;
	if(x.k!=y.k) return x;
	if(x.k==KInt){ if(x.w!=y.w) return x; CR c=x.cr().intersectWith(y.cr()); if(c.isEmptySet()){ r.k=KNone; return r; } Val n=mkInt(c,x.t); n.un=x.un; return n; }
	if(x.k==KFloat){ double lo=std::max(x.lo(),y.lo()), hi=std::min(x.hi(),y.hi()); bool nan=x.nan&&y.nan; if(!(lo<=hi)){ if(!nan){ r.k=KNone; return r; } lo=INFINITY; hi=-INFINITY; } Val n=mkF(x.w,lo,hi,nan,x.t); n.un=x.un; return n; }
	if(x.k==KPtr){ PSet const &p=PS(x),&q=PS(y); if(p.unk) { Val n=y; n.t=x.t; n.un=x.un; return n; } if(q.unk) return x;
		PSet s; s.null=p.null&&q.null; for(auto&a:p.t) for(auto&b:q.t) if(a.obj==b.obj){ if(a==b) s.t.push_back(a); else { int64_t lo=std::max(a.lo,b.lo),hi=std::min(a.hi,b.hi); if(lo<=hi) s.t.push_back(Tgt{a.obj,lo,hi,lo==hi?1:std::min(a.stride,b.stride)}); } }
		if(!s.null&&s.t.empty()){ r.k=KNone; return r; } Val n=mkPtr(s,x.t); n.un=x.un; return n; }
	return x;
}
static Val joinV(Val const& x, Val const& y){
	Val r=x; r.un=(x.un==2&&y.un==2)?2:((x.un||y.un)?1:0); r.t=0;
	if(x.un==2&&y.un!=2){ uint8_t u=r.un; r=y; r.un=u; r.t=0; return r; }
	if(y.un==2){ return r; }
	if(x.k==KInt&&y.k==KInt){ CR c=x.cr().unionWith(y.cr(), CR::Smallest); Val n=mkInt(c); n.un=r.un; return n; }
	if(x.k==KFloat&&y.k==KFloat){ Val n=mkF(x.w,std::min(x.lo(),y.lo()),std::max(x.hi(),y.hi()),x.nan||y.nan); n.un=r.un; return n; }
	if(x.k==KPtr&&y.k==KPtr){ PSet s=PS(x); PSet const& q=PS(y); s.null|=q.null; s.unk|=q.unk; for(auto&b:q.t) if(std::find(s.t.begin(),s.t.end(),b)==s.t.end()) s.t.push_back(b); std::sort(s.t.begin(),s.t.end()); Val n=mkPtr(s); n.un=r.un; return n; }
	return r;
}
// is x (values) included in y
static bool leqV(Val const& x, Val const& y){
	if(x.un>y.un && !(y.un==1)) return false;
	if(x.un==2||y.un==2) return true;
	if(x.k!=y.k) return false;
	if(x.k==KInt) return x.w==y.w && y.cr().contains(x.cr());
	if(x.k==KFloat) return (!x.nan||y.nan) && (fEmpty(x) || (y.lo()<=x.lo() && x.hi()<=y.hi()));
	if(x.k==KPtr) return x.a==y.a;
	return x.a==y.a;
}
static Val* refFind(State const& S, TermId t){
	auto& r=*S.ref; auto it=std::lower_bound(r.begin(),r.end(),t,[](std::pair<TermId,Val> const&p,TermId x){return p.first<x;});
	if(it!=r.end()&&it->first==t) return const_cast<Val*>(&it->second);
	return nullptr;
}
static void refSet(State& S, TermId t, Val const& v){
	if(S.ref.use_count()>1) S.ref=std::make_shared<std::vector<std::pair<TermId,Val>>>(*S.ref);
	auto& r=*S.ref; auto it=std::lower_bound(r.begin(),r.end(),t,[](std::pair<TermId,Val> const&p,TermId x){return p.first<x;});
	if(it!=r.end()&&it->first==t) it->second=v; else r.insert(it,{t,v});
}
static uint8_t swapMask(uint8_t m){ return (m&(EQ|UNO))|((m&GT)?LT:0)|((m&LT)?GT:0); }
static bool relLess(Rel const& x, std::pair<TermId,TermId> const& y){ return x.a<y.first||(x.a==y.first&&x.b<y.second); }
static uint8_t relFind(State const& S, TermId a, TermId b){ // mask for a ? b
	bool sw=a>b; auto k=std::make_pair(sw?b:a,sw?a:b); auto& r=*S.rel;
	auto it=std::lower_bound(r.begin(),r.end(),k,relLess);
	if(it!=r.end()&&it->a==k.first&&it->b==k.second) return sw?swapMask(it->m):it->m;
	return 15;
}
static void relSet(State& S, TermId a, TermId b, uint8_t m){
	if(a>b){ std::swap(a,b); m=swapMask(m); }
	if(S.rel.use_count()>1) S.rel=std::make_shared<std::vector<Rel>>(*S.rel);
	auto& r=*S.rel; auto k=std::make_pair(a,b); auto it=std::lower_bound(r.begin(),r.end(),k,relLess);
	if(it!=r.end()&&it->a==a&&it->b==b) it->m=m; else r.insert(it,Rel{a,b,m});
}
static TermId termOf(Val const& v){
	if(v.t) return v.t;
	if(v.k==KInt && isC(v)) { TermId t=TT.get(T_IC,v.w,v.a); if(TT.base[t].k==KNone) TT.base[t]=v; return t; }
	if(v.k==KFloat && isC(v)) { TermId t=TT.get(T_FC,v.w,v.a); if(TT.base[t].k==KNone) TT.base[t]=v; return t; }
	return TT.sym(v);
}
static Val withTerm(Val v){ if(!v.t && !((v.k==KInt||v.k==KFloat)&&isC(v)) && !(v.k==KPtr&&isSingleP(v)) && v.un!=2 && (v.k==KInt||v.k==KFloat||v.k==KPtr)) v.t=TT.sym(v); return v; }

// ---- float helpers ---------------------------------------------------------
static double rnd(unsigned w,double x){ return w==32?(double)(float)x:x; }
static Val fAdd(Val const&x,Val const&y,bool sub,unsigned w){
	if(fEmpty(x)||fEmpty(y)) return mkF(w,INFINITY,-INFINITY,true);
	double ylo=sub?-y.hi():y.lo(), yhi=sub?-y.lo():y.hi();
	bool nan=x.nan||y.nan||(x.hi()==INFINITY&&ylo==-INFINITY)||(x.lo()==-INFINITY&&yhi==INFINITY);
	double lo=x.lo()+ylo, hi=x.hi()+yhi;
	if(std::isnan(lo)) lo=-INFINITY; if(std::isnan(hi)) hi=INFINITY;
	return mkF(w,rnd(w,lo),rnd(w,hi),nan);
}
static Val fMul(Val const&x,Val const&y,unsigned w){
	if(fEmpty(x)||fEmpty(y)) return mkF(w,INFINITY,-INFINITY,true);
	bool nan=x.nan||y.nan; double lo=INFINITY,hi=-INFINITY;
	auto inf=[](Val const&v){return std::isinf(v.lo())||std::isinf(v.hi());}; auto zero=[](Val const&v){return v.lo()<=0&&v.hi()>=0;};
	if((inf(x)&&zero(y))||(inf(y)&&zero(x))) nan=true;
	double xs[2]={x.lo(),x.hi()}, ys[2]={y.lo(),y.hi()};
	for(double a:xs) for(double b:ys){ double p=a*b; if(std::isnan(p)) p=0; p=rnd(w,p); lo=std::min(lo,p); hi=std::max(hi,p); }
	return mkF(w,lo,hi,nan);
}
static Val fDiv(Val const&x,Val const&y,unsigned w){
	if(fEmpty(x)||fEmpty(y)) return mkF(w,INFINITY,-INFINITY,true);
	bool nan=x.nan||y.nan; bool y0=y.lo()<=0&&y.hi()>=0; bool x0=x.lo()<=0&&x.hi()>=0;
	auto inf=[](Val const&v){return std::isinf(v.lo())||std::isinf(v.hi());};
	if((y0&&x0)||(inf(x)&&inf(y))) nan=true;
	if(y.lo()==0&&y.hi()==0){ // x/0 (sign of zero unknown in general; +0 assumed only for constants)
		if(x.lo()==0&&x.hi()==0) return mkF(w,INFINITY,-INFINITY,true);
		return mkF(w,x.lo()>=0?(x.lo()>0?INFINITY:-INFINITY):-INFINITY,x.hi()<=0?(x.hi()<0?-INFINITY:INFINITY):INFINITY,nan);
	}
	double lo=INFINITY,hi=-INFINITY;
	if(y0){
		if(y.lo()==0){ // (0,hi]
			double q[4]; int n=0; q[n++]=x.lo()/y.hi(); q[n++]=x.hi()/y.hi(); q[n++]=x.lo()>0?INFINITY:x.lo()<0?-INFINITY:0; q[n++]=x.hi()>0?INFINITY:x.hi()<0?-INFINITY:0;
			for(int i=0;i<n;i++){ double p=q[i]; if(std::isnan(p)) p=0; lo=std::min(lo,p); hi=std::max(hi,p);} 
		} else { lo=-INFINITY; hi=INFINITY; }
	} else {
		double xs[2]={x.lo(),x.hi()}, ys[2]={y.lo(),y.hi()};
		for(double a:xs) for(double b:ys){ double p=a/b; if(std::isnan(p)) p=0; lo=std::min(lo,p); hi=std::max(hi,p); }
		if(inf(y)) { lo=std::min(lo,0.0); hi=std::max(hi,0.0); }
	}
	return mkF(w,rnd(w,lo),rnd(w,hi),nan);
}
static bool smallSet(CR const& c,unsigned n){ return !c.isEmptySet() && !c.isFullSet() && !c.isSizeLargerThan(n); }
static void enumCR(CR const& c, std::vector<uint64_t>& out){ APInt x=c.getLower(); while(x!=c.getUpper()){ out.push_back(x.getZExtValue()); ++x; } }
static CR hullOf(unsigned w,std::vector<uint64_t>& v){
	std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end());
	// smallest (possibly wrapped) range covering the set
	size_t n=v.size(); uint64_t mask=w<64?((1ULL<<w)-1):~0ULL; uint64_t best=0; size_t bi=0;
	for(size_t i=0;i<n;i++){ uint64_t gap=(v[(i+1)%n]-v[i])&mask; if(n==1) gap=mask; if(gap>best){best=gap;bi=i;} }
	APInt lo(w,v[(bi+1)%n]), hi(w,(v[bi]+1)&mask); if(lo==hi) return CR::getFull(w); return CR(lo,hi);
}
static Val binI(unsigned op, Val const& x, Val const& y, unsigned nw){
	unsigned w=x.w; CR a=x.cr(), b=y.cr();
	if(op!=Instruction::Add&&op!=Instruction::Sub&&op!=Instruction::Mul && smallSet(a,64)&&smallSet(b,64)){
		std::vector<uint64_t> xs,ys,rs; enumCR(a,xs); enumCR(b,ys); bool ok=true;
		if(xs.size()*ys.size()<=1024){
			for(auto p:xs) for(auto q:ys){ APInt P(w,p),Q(w,q),R(w,0);
				switch(op){ case Instruction::And: R=P&Q; break; case Instruction::Or: R=P|Q; break; case Instruction::Xor: R=P^Q; break;
				case Instruction::UDiv: if(Q.isZero()) continue; R=P.udiv(Q); break; case Instruction::URem: if(Q.isZero()) continue; R=P.urem(Q); break;
				case Instruction::SDiv: if(Q.isZero()||(Q.isAllOnes()&&P.isMinSignedValue())) continue; R=P.sdiv(Q); break; case Instruction::SRem: if(Q.isZero()||(Q.isAllOnes()&&P.isMinSignedValue())) continue; R=P.srem(Q); break;
				case Instruction::Shl: if(Q.uge(w)) continue; R=P.shl(Q); break; case Instruction::LShr: if(Q.uge(w)) continue; R=P.lshr(Q); break; case Instruction::AShr: if(Q.uge(w)) continue; R=P.ashr(Q); break;
				default: ok=false; }
				rs.push_back(R.getZExtValue()); }
			if(ok&&!rs.empty()) return mkInt(hullOf(w,rs));
		}
	}
	CR r=CR::getFull(w);
	if(op==Instruction::Add||op==Instruction::Sub||op==Instruction::Mul){
		r = a.overflowingBinaryOp((Instruction::BinaryOps)op,b,nw);
		// histories are assumed shorter than the range of a counter: +1 on a widened value does not wrap
		if(!nw && op==Instruction::Add && b.isSingleElement() && b.getSingleElement()->isOne() && !a.isSingleElement()){
			CR u=a.addWithNoWrap(b,OverflowingBinaryOperator::NoUnsignedWrap); if(!u.isEmptySet() && !a.isWrappedSet()) r=u; }
		if(r.isEmptySet()) r=a.binaryOp((Instruction::BinaryOps)op,b);
	} else r=a.binaryOp((Instruction::BinaryOps)op,b);
	if(r.isEmptySet()) r=CR::getFull(w);
	return mkInt(r);
}
static Val castV(unsigned op, Val const& x, Type* T, unsigned w){
	switch(op){
	case Instruction::ZExt: return mkInt(x.cr().zeroExtend(w));
	case Instruction::SExt: return mkInt(x.cr().signExtend(w));
	case Instruction::Trunc: return mkInt(x.cr().truncate(w));
	case Instruction::SIToFP: { CR c=x.cr(); double lo=(double)c.getSignedMin().getSExtValue(), hi=(double)c.getSignedMax().getSExtValue(); return mkF(w,rnd(w,lo),rnd(w,hi),false); }
	case Instruction::UIToFP: { CR c=x.cr(); double lo=(double)c.getUnsignedMin().getZExtValue(), hi=(double)c.getUnsignedMax().getZExtValue(); return mkF(w,rnd(w,lo),rnd(w,hi),false); }
	case Instruction::FPExt: { Val r=x; r.w=w; r.t=0; return r; }
	case Instruction::FPTrunc: { if(fEmpty(x)) { Val r=x; r.w=w; r.t=0; return r;} return mkF(w,rnd(w,x.lo()),rnd(w,x.hi()),x.nan); }
	case Instruction::FPToSI: case Instruction::FPToUI: {
		if(x.nan||fEmpty(x)) return mkInt(CR::getFull(w));
		double lo=std::trunc(x.lo()), hi=std::trunc(x.hi());
		bool sg=op==Instruction::FPToSI; double mn=sg?-std::ldexp(1.0,w-1):0, mx=sg?std::ldexp(1.0,w-1):std::ldexp(1.0,w);
		if(lo<mn||hi>=mx) return mkInt(CR::getFull(w));
		uint64_t L=sg?(uint64_t)(int64_t)lo:(uint64_t)lo, H=sg?(uint64_t)(int64_t)hi:(uint64_t)hi; uint64_t m=w<64?((1ULL<<w)-1):~0ULL;
		APInt A(w,L&m),B(w,(H+1)&m); if(A==B) return mkInt(CR::getFull(w)); return mkInt(CR(A,B)); }
	}
	return Val();
}
static Val callF(uint64_t fn, Val const* x, int n, unsigned w);
static uint64_t fnHash(std::string const& s){ uint64_t h=1469598103934665603ULL; for(char c:s){ h^=(unsigned char)c; h*=1099511628211ULL; } return h; }

static uint8_t cmpF(State const& S, TermId ta, Val const& x, TermId tb, Val const& y, int depth=2);
static uint8_t cmpI(State const& S, TermId ta, Val const& x, TermId tb, Val const& y);
static Val evalT(State const& S, TermId t, int depth);

static Val fullLike(Val const& b){ if(b.k==KInt) return mkInt(CR::getFull(b.w)); if(b.k==KFloat) return fullF(b.w); return b; }

static Val evalT(State const& S, TermId t, int depth){
	Term const& d=TT.v[t]; Val r=TT.base[t];
	if(d.op==T_IC||d.op==T_FC) return r;
	r.t=t; r.un=0;
	if(d.op!=T_SYM && depth>0){
		Val x,y; if(d.n>0) x=evalT(S,d.a[0],depth-1); if(d.n>1) y=evalT(S,d.a[1],depth-1);
		Val n;
		if(d.op==T_ADDC){ if(x.k==KInt){ CR full=x.cr().add(CR(APInt(d.w,d.imm))); if(d.imm>0&&d.imm<65536&&d.w>=32&&!x.cr().isWrappedSet()&&x.cr().isSizeLargerThan(1u<<30)){ CR u=x.cr().addWithNoWrap(CR(APInt(d.w,d.imm)),OverflowingBinaryOperator::NoUnsignedWrap); if(!u.isEmptySet()) full=u; } n=mkInt(full);} }
		else if(d.op==T_CMP||d.op==T_FCMP){ uint8_t m=d.op==T_FCMP?cmpF(S,d.a[0],x,d.a[1],y):cmpI(S,d.a[0],x,d.a[1],y); bool T=m&d.imm, F=m&~d.imm; if(T!=F) n=mkIntC(1,T); }
		else if(d.op==T_UCMP){ if(x.k==KInt&&y.k==KInt){ CmpInst::Predicate p=(CmpInst::Predicate)d.imm; if(x.cr().icmp(p,y.cr())) n=mkIntC(1,1); else if(x.cr().icmp(CmpInst::getInversePredicate(p),y.cr())) n=mkIntC(1,0); } }
		else if(d.op==T_CALL){ Val a[3]={x,y,Val()}; n=callF(d.imm,a,d.n,d.w); }
		else if(d.op>=T_CAST){ if(x.k!=KNone) n=castV(d.op-T_CAST,x,nullptr,d.w); }
		else if(d.op>=T_BIN){ unsigned op=d.op-T_BIN;
			if(op==Instruction::FAdd) n=fAdd(x,y,false,d.w);
			else if(op==Instruction::FSub){ n=fAdd(x,y,true,d.w);
				uint8_t m=cmpF(S,d.a[0],x,d.a[1],y,1); if(!fEmpty(n)){
					double lo=n.lo(),hi=n.hi(); bool nan=n.nan; if(!(m&LT)) lo=std::max(lo,(m&EQ)?0.0:(double)5e-324); if(!(m&GT)) hi=std::min(hi,(m&EQ)?0.0:-(double)5e-324); if(m==EQ){lo=std::max(lo,0.0);hi=std::min(hi,0.0);} if(lo<=hi) n=mkF(d.w,lo,hi,nan); } }
			else if(op==Instruction::FMul){ n=fMul(x,y,d.w); if(d.a[0]==d.a[1]&&!fEmpty(n)&&n.lo()<0) n=mkF(d.w,0,n.hi(),n.nan); }
			else if(op==Instruction::FDiv) n=fDiv(x,y,d.w);
			else if(op==Instruction::FRem) n=fullF(d.w);
			else if(x.k==KInt&&y.k==KInt){ n=binI(op,x,y,d.imm&3); }
		}
		if(n.k==r.k){ n.t=t; Val m=meetV(r,n); if(m.k!=KNone) r=m; }
	}
	if(Val* q=refFind(S,t)){ Val m=meetV(r,*q); if(m.k!=KNone) r=m; }
	r.t=t; return r;
}
static uint8_t ivMaskF(Val const& x, Val const& y){
	uint8_t m=0; if(x.nan||y.nan) m|=UNO; if(fEmpty(x)||fEmpty(y)) return m?m:UNO;
	if(x.lo()<y.hi()) m|=LT; if(x.hi()>y.lo()) m|=GT; if(x.lo()<=y.hi()&&y.lo()<=x.hi()) m|=EQ; return m;
}
static uint8_t compose(uint8_t m1,uint8_t m2){ // a m1 c, c m2 b -> a ? b
	if(m1&m2&UNO) return 15; // c itself may be the NaN
	if((m1|m2)&UNO){ if(m1==UNO||m2==UNO) return UNO; return compose(m1&7,m2&7)|UNO; } // c is a number: an unordered side is NaN, so a and b are unordered
	uint8_t r=0;
	if((m1&EQ)&&(m2&EQ)) r|=EQ; if(m1&EQ) r|=m2&~EQ&7; if(m2&EQ) r|=m1&~EQ&7;
	if((m1&LT)&&(m2&LT)) r|=LT; if((m1&GT)&&(m2&GT)) r|=GT; if(((m1&LT)&&(m2&GT))||((m1&GT)&&(m2&LT))) r|=7; return r;
}
static int structDepth=0;
static uint8_t structF0(State const& S, TermId ta, TermId tb);
static uint8_t structF(State const& S, TermId ta, TermId tb){ if(structDepth>=3) return 15; structDepth++; uint8_t m=structF0(S,ta,tb); structDepth--; return m; }
static uint8_t structF0(State const& S, TermId ta, TermId tb){ // facts from the shape of ta against tb
	Term const& d=TT.v[ta]; uint8_t m=15;
	if(d.op==T_BIN+Instruction::FAdd) for(int i=0;i<2;i++) if(d.a[i]==tb){ Val o=evalT(S,d.a[1-i],3); if(o.k==KFloat&&!o.nan&&!fEmpty(o)){ if(o.lo()>=0) m&=EQ|GT|UNO; if(o.hi()<=0) m&=EQ|LT|UNO; } }
	if(d.op==T_BIN+Instruction::FSub && d.a[0]==tb){ Val o=evalT(S,d.a[1],3); if(o.k==KFloat&&!o.nan&&!fEmpty(o)){ if(o.lo()>=0) m&=EQ|LT|UNO; if(o.hi()<=0) m&=EQ|GT|UNO; } }
	if(d.op==T_BIN+Instruction::FMul) for(int i=0;i<2;i++) if(d.a[i]==tb){ Val o=evalT(S,d.a[1-i],3), q=evalT(S,tb,3); if(o.k==KFloat&&!o.nan&&!fEmpty(o)&&!fEmpty(q)&&o.lo()>=0&&o.hi()<=1){ if(q.lo()>=0) m&=EQ|LT|UNO; if(q.hi()<=0) m&=EQ|GT|UNO; } }
	return m;
}
// chains a <= c <= d ... <= b of any length through the relations known
static void chainRel(State const& S, TermId ta, TermId tb, uint8_t& m){
	size_t n=S.rel->size(); if(n<3||n>300) return;
	for(int dir=0;dir<2;dir++){ uint8_t down=dir?GT:LT; if(!(m&(dir?LT:GT))&&!(m&EQ)) continue;
		std::vector<std::pair<TermId,bool>> q{{ta,false}}; // reached, strictly
		for(size_t i=0;i<q.size()&&q.size()<64;i++){ TermId c=q[i].first; bool st=q[i].second;
			for(auto const& r:*S.rel){ TermId e; uint8_t k; if(r.a==c){e=r.b;k=r.m;} else if(r.b==c){e=r.a;k=swapMask(r.m);} else continue;
				if(k&~(down|EQ)) continue; bool s2=st||!(k&EQ); bool old=false; for(auto& p:q) if(p.first==e&&(p.second||!s2)){ old=true; break; } if(!old) q.push_back({e,s2}); } }
		for(auto& p:q) if(p.first==tb){ uint8_t k=p.second?down:(uint8_t)(down|EQ); if(m&k) m&=k; } }
}
static uint8_t cmpF(State const& S, TermId ta, Val const& x, TermId tb, Val const& y, int depth){
	uint8_t m=ivMaskF(x,y);
	if((m&(m-1))==0) return m;
	if(ta&&ta==tb) return m&(EQ|UNO);
	if(!ta||!tb) return m;
	if(isC(x)&&!isC(y)) return swapMask(cmpF(S,tb,y,ta,x,depth)); // facts are looked up from the side that is not a constant
	m&=relFind(S,ta,tb);
	if((m&(m-1))==0) return m;
	m&=structF(S,ta,tb)&swapMask(structF(S,tb,ta));
	if((m&(m-1))==0||depth<=0) return m;
	for(auto const& r:*S.rel){ TermId c=0; uint8_t m1=15; if(r.a==ta){c=r.b;m1=r.m;} else if(r.b==ta){c=r.a;m1=swapMask(r.m);} else continue; if(c==tb) continue;
		uint8_t m2=relFind(S,c,tb)&structF(S,c,tb)&swapMask(structF(S,tb,c)); if(m2==15 && depth>1 && !(m1&UNO)){ // one more step
			for(auto const& r2:*S.rel){ TermId e=0; uint8_t q=15; if(r2.a==c){e=r2.b;q=r2.m;} else if(r2.b==c){e=r2.a;q=swapMask(r2.m);} else continue; if(e==ta||e==tb) continue; uint8_t q2=relFind(S,e,tb); if(q2!=15) m2&=compose(q,q2); } }
		if(isC(y)||isC(x)) m2&=ivMaskF(evalT(S,c,depth>1?6:2),y); // a fact against a constant is kept as a range, not as a relation
		if(m2!=15) m&=compose(m1,m2); if((m&(m-1))==0) break; }
	if((m&(LT|EQ|GT))==m && (m&(m-1))) chainRel(S,ta,tb,m);
	return m?m:ivMaskF(x,y);
}
static uint8_t cmpI(State const& S, TermId ta, Val const& x, TermId tb, Val const& y){
	if(x.k!=KInt||y.k!=KInt) return 7;
	if(ta&&ta==tb) return EQ;
	CR a=x.cr(), b=y.cr(); uint8_t m=0;
	if(!a.icmp(CmpInst::ICMP_NE,b)) m|=EQ; if(!a.icmp(CmpInst::ICMP_SLE,b)) m|=GT; if(!a.icmp(CmpInst::ICMP_SGE,b)) m|=LT;
	if(ta&&tb&&(m&(m-1))){ m&=relFind(S,ta,tb); 
		Term const &da=TT.v[ta],&db=TT.v[tb];
		if(da.op==T_ADDC&&da.a[0]==tb&&da.imm!=0) m&=~EQ; if(db.op==T_ADDC&&db.a[0]==ta&&db.imm!=0) m&=~EQ;
		if((m&(m-1))) for(auto const& r:*S.rel){ TermId c=0; uint8_t m1=15; if(r.a==ta){c=r.b;m1=r.m;} else if(r.b==ta){c=r.a;m1=swapMask(r.m);} else continue; if(c==tb) continue; uint8_t m2=relFind(S,c,tb); if(m2!=15) m&=compose(m1&7,m2&7); }
	}
	return m?m:7;
}
static Val deep(State const& S, Val const& v, int depth=5){
	if(v.un==2||!v.t) return v;
	Val e=evalT(S,v.t,depth); if(e.k!=v.k) return v; Val r=meetV(v,e); if(r.k==KNone) return v; r.t=v.t; r.un=v.un; return r;
}
// ---- assumptions -------------------------------------------------------------
static bool assume(State& S, TermId t, Val c, int depth=6);
static bool addRel(State& S, TermId a, TermId b, uint8_t m, bool isF){
	Val x=evalT(S,a,4), y=evalT(S,b,4);
	uint8_t cur=isF?cmpF(S,a,x,b,y):cmpI(S,a,x,b,y); cur&=m; if(!cur) return false;
	bool ca=TT.v[a].op==T_IC||TT.v[a].op==T_FC, cb=TT.v[b].op==T_IC||TT.v[b].op==T_FC;
	if(!ca&&!cb) relSet(S,a,b,cur);
	if(x.k==KNone||y.k==KNone) return true;
	if(!isF){
		auto reg=[&](Val const& o,uint8_t mm)->Val{ CmpInst::Predicate p; switch(mm){ case EQ:p=CmpInst::ICMP_EQ;break; case LT:p=CmpInst::ICMP_SLT;break; case GT:p=CmpInst::ICMP_SGT;break; case LT|EQ:p=CmpInst::ICMP_SLE;break; case GT|EQ:p=CmpInst::ICMP_SGE;break; case LT|GT:p=CmpInst::ICMP_NE;break; default: return mkInt(CR::getFull(o.w)); } return mkInt(CR::makeAllowedICmpRegion(p,o.cr())); };
		if(!ca){ Val r=reg(y,cur&7); if(!assume(S,a,r)) return false; x=evalT(S,a,4); }
		if(!cb){ Val r=reg(x,swapMask(cur)&7); if(!assume(S,b,r)) return false; }
	} else {
		auto reg=[&](Val const& o,uint8_t mm)->Val{ double lo=-INFINITY,hi=INFINITY; if(fEmpty(o)) return fullF(o.w);
			if(!(mm&GT)) hi=(mm&EQ)?o.hi():(std::nextafter(o.hi(),-INFINITY)); if(!(mm&LT)) lo=(mm&EQ)?o.lo():std::nextafter(o.lo(),INFINITY);
			if(mm==UNO) return mkF(o.w,INFINITY,-INFINITY,true);
			return mkF(o.w,lo,hi,(mm&UNO)!=0); };
		if(!(cur&UNO)){
			if(!ca){ Val r=reg(y,cur); if(!assume(S,a,r)) return false; x=evalT(S,a,4); }
			if(!cb){ Val r=reg(x,swapMask(cur)); if(!assume(S,b,r)) return false; }
		} else { // possibly unordered: when one side is a number, the other is within the region or is NaN
			if(!y.nan && !ca){ Val r=reg(y,cur); if(!assume(S,a,r)) return false; x=evalT(S,a,4); }
			if(!x.nan && !cb){ Val r=reg(x,swapMask(cur)); if(!assume(S,b,r)) return false; }
		}
	}
	return true;
}
static bool assume(State& S, TermId t, Val c, int depth){
	if(!t) return true;
	Val cur=evalT(S,t,4);
	if(cur.k!=c.k) return true;
	Val n=meetV(cur,c); if(n.k==KNone) return false;
	Term d=TT.v[t];
	if(d.op==T_IC||d.op==T_FC) return true;
	Val old=cur; n.t=t; 
	if(n.a!=old.a||n.b!=old.b||n.nan!=old.nan){ refSet(S,t,n); } else { Val* q=refFind(S,t); if(q && d.op==T_SYM) return true; if(!q) refSet(S,t,n); }
	if(depth<=0) return true;
	if(d.op==T_ADDC){ CR r=n.cr().sub(CR(APInt(d.w,d.imm))); return assume(S,d.a[0],mkInt(r),depth-1); }
	if(d.op==T_CMP||d.op==T_FCMP){ if(isC(n)){ uint8_t m=n.a?d.imm:(uint8_t)(~d.imm&(d.op==T_FCMP?15:7)); return addRel(S,d.a[0],d.a[1],m,d.op==T_FCMP); } return true; }
	if(d.op==T_UCMP){ if(isC(n)){ CmpInst::Predicate p=(CmpInst::Predicate)d.imm; if(!n.a) p=CmpInst::getInversePredicate(p);
			Val x=evalT(S,d.a[0],4), y=evalT(S,d.a[1],4); if(x.k!=KInt||y.k!=KInt) return true;
			if(!assume(S,d.a[0],mkInt(CR::makeAllowedICmpRegion(p,y.cr())),depth-1)) return false; x=evalT(S,d.a[0],4);
			return assume(S,d.a[1],mkInt(CR::makeAllowedICmpRegion(CmpInst::getSwappedPredicate(p),x.cr())),depth-1); } return true; }
	if(d.op>=T_CAST){ unsigned op=d.op-T_CAST; unsigned aw=TT.v[d.a[0]].w;
		if(op==Instruction::ZExt){ CR lim=CR::getFull(aw).zeroExtend(d.w).intersectWith(n.cr()); if(lim.isEmptySet()) return false; return assume(S,d.a[0],mkInt(lim.truncate(aw)),depth-1); }
		if(op==Instruction::SExt){ CR lim=CR::getFull(aw).signExtend(d.w).intersectWith(n.cr()); if(lim.isEmptySet()) return false; return assume(S,d.a[0],mkInt(lim.truncate(aw)),depth-1); }
		if(op==Instruction::Trunc){ return true; }
		if((op==Instruction::SIToFP||op==Instruction::UIToFP)&&!fEmpty(n)){ double lo=std::ceil(n.lo()),hi=std::floor(n.hi()); 
			if(op==Instruction::SIToFP){ double mn=-std::ldexp(1.0,aw-1),mx=std::ldexp(1.0,aw-1)-1; if(aw<=32){ lo=std::max(lo,mn); hi=std::min(hi,mx); if(lo>hi) return false; APInt A(aw,(uint64_t)(int64_t)lo,true),B(aw,(uint64_t)((int64_t)hi+1),true); if(A!=B) return assume(S,d.a[0],mkInt(CR(A,B)),depth-1); } }
			else if(aw<=32){ double mx=std::ldexp(1.0,aw)-1; lo=std::max(lo,0.0); hi=std::min(hi,mx); if(lo>hi) return false; uint64_t m=(1ULL<<aw)-1; if(aw==64) m=~0ULL; APInt A(aw,(uint64_t)lo&m),B(aw,((uint64_t)hi+1)&m); if(A!=B) return assume(S,d.a[0],mkInt(CR(A,B)),depth-1); }
			return true; }
		return true; }
	if(d.op>=T_BIN){ unsigned op=d.op-T_BIN;
		if(op==Instruction::FSub && !fEmpty(n) && !n.nan){ if(n.lo()>0) return addRel(S,d.a[0],d.a[1],GT,true); if(n.hi()<0) return addRel(S,d.a[0],d.a[1],LT,true); if(n.lo()>=0) return addRel(S,d.a[0],d.a[1],GT|EQ,true); if(n.hi()<=0) return addRel(S,d.a[0],d.a[1],LT|EQ,true); }
		if(op==Instruction::FDiv && !fEmpty(n) && !n.nan){ Val y=evalT(S,d.a[1],3); if(!fEmpty(y)&&!y.nan&&y.lo()>=0){ if(n.lo()>0) return assume(S,d.a[0],mkF(d.w,5e-324,INFINITY,false),depth-1); if(n.hi()<0) return assume(S,d.a[0],mkF(d.w,-INFINITY,-5e-324,false),depth-1);} }
		if(op==Instruction::FMul && !fEmpty(n) && !n.nan && d.a[0]!=d.a[1]){ for(int i=0;i<2;i++){ Val y=evalT(S,d.a[1-i],3); if(!fEmpty(y)&&!y.nan&&y.lo()>=0&&n.lo()>0){ if(!assume(S,d.a[i],mkF(d.w,5e-324,INFINITY,false),depth-1)) return false; } if(!fEmpty(y)&&!y.nan&&y.hi()<=0&&y.lo()<0&&n.lo()>0){ if(!assume(S,d.a[i],mkF(d.w,-INFINITY,-5e-324,false),depth-1)) return false; } } return true; }
		if(op==Instruction::FAdd && !fEmpty(n) && !n.nan){ for(int i=0;i<2;i++){ Val o=evalT(S,d.a[1-i],3); if(!fEmpty(o)&&!o.nan){ // x = n - o (monotone, rounding: only sign facts)
				if(n.lo()>0&&o.hi()<=0){ if(!assume(S,d.a[i],mkF(d.w,5e-324,INFINITY,false),depth-1)) return false; }
				if(n.hi()<=0&&o.lo()>=0){ if(!assume(S,d.a[i],mkF(d.w,-INFINITY,0,false),depth-1)) return false; } } } return true; }
		if(op==Instruction::Mul && isC(n)){ for(int i=0;i<2;i++){ Val y=evalT(S,d.a[1-i],2); if(y.k==KInt&&isC(y)&&sval(y)!=0){ int64_t q=sval(n)/sval(y); if((d.imm&2) || d.w==64){ if(q*sval(y)!=sval(n)) return false; return assume(S,d.a[i],mkIntC(d.w,(uint64_t)q),depth-1);} } } return true; }
		if(op==Instruction::Xor && d.w==1 && isC(n)){ for(int i=0;i<2;i++){ Val y=evalT(S,d.a[1-i],2); if(y.k==KInt&&isC(y)) return assume(S,d.a[i],mkIntC(1,n.a^y.a),depth-1); } return true; }
		if(op==Instruction::And && d.w==1 && isC(n) && n.a==1){ return assume(S,d.a[0],mkIntC(1,1),depth-1)&&assume(S,d.a[1],mkIntC(1,1),depth-1); }
		if(op==Instruction::Or && d.w==1 && isC(n) && n.a==0){ return assume(S,d.a[0],mkIntC(1,0),depth-1)&&assume(S,d.a[1],mkIntC(1,0),depth-1); }
		return true; }
	return true;
}
// ---- smart constructors ----------------------------------------------------
static Val fin(Val v, TermId t){ v.t=isC(v)?0:t; if(v.t && TT.base[t].k==KNone) { TT.base[t]=fullLike(v); TT.base[t].t=0; } return v; }
static Val mkBinI(State const& S, unsigned op, Val x, Val y, unsigned nw){
	unsigned w=x.w; 
	if(x.k!=KInt||y.k!=KInt){ Val r=mkInt(CR::getFull(w?w:64)); return withTerm(r); }
	if(isC(x)&&isC(y)) { if((op==Instruction::UDiv||op==Instruction::SDiv||op==Instruction::URem||op==Instruction::SRem)&&y.a==0) return withTerm(mkInt(CR::getFull(w))); return binI(op,x,y,0); }
	if((op==Instruction::Add||op==Instruction::Mul||op==Instruction::And||op==Instruction::Or||op==Instruction::Xor)&&isC(x)) std::swap(x,y);
	if(isC(y)){
		if(y.a==0&&(op==Instruction::Add||op==Instruction::Sub||op==Instruction::Or||op==Instruction::Xor||op==Instruction::Shl||op==Instruction::LShr||op==Instruction::AShr)) return x;
		if(y.a==0&&(op==Instruction::Mul||op==Instruction::And)) return mkIntC(w,0);
		if(y.a==1&&(op==Instruction::Mul||op==Instruction::UDiv||op==Instruction::SDiv)) return x;
		if((op==Instruction::Add||op==Instruction::Sub)&&x.t){
			Val r=binI(op,x,y,nw); uint64_t c=op==Instruction::Add?y.a:-y.a; TermId b=x.t; uint64_t m=w<64?((1ULL<<w)-1):~0ULL; c&=m;
			if(TT.v[b].op==T_ADDC){ c=(c+TT.v[b].imm)&m; b=TT.v[b].a[0]; }
			if(c==0){ Val e=evalT(S,b,4); Val q=meetV(e,r); q=q.k==KNone?e:q; q.t=b; return isC(q)?fin(q,0):q; }
			TermId t=TT.get(T_ADDC,w,c,b); return fin(r,t);
		}
	}
	TermId ta=termOf(x), tb=termOf(y);
	if(ta==tb){ if(op==Instruction::Sub||op==Instruction::Xor) return mkIntC(w,0); if(op==Instruction::And||op==Instruction::Or) return x; }
	if(op==Instruction::Xor){ for(int i=0;i<2;i++){ TermId p=i?tb:ta,q=i?ta:tb; Term const& d=TT.v[p]; if(d.op==T_BIN+Instruction::Xor) for(int j=0;j<2;j++) if(d.a[j]==q){ Val e=evalT(S,d.a[1-j],4); return e; } } }
	if((op==Instruction::Add||op==Instruction::Mul||op==Instruction::And||op==Instruction::Or||op==Instruction::Xor)&&ta>tb) std::swap(ta,tb);
	if(op==Instruction::Sub){ // (b+c)-b
		Term const& d=TT.v[ta]; if(d.op==T_ADDC&&d.a[0]==tb) return mkIntC(w,d.imm); Term const& e=TT.v[tb]; if(e.op==T_ADDC&&e.a[0]==ta) return mkIntC(w,-e.imm);
		if(d.op==T_BIN+Instruction::Add){ if(d.a[0]==tb) return evalT(S,d.a[1],4); if(d.a[1]==tb) return evalT(S,d.a[0],4); } }
	if(op==Instruction::Add){ for(int i=0;i<2;i++){ TermId p=i?tb:ta,q=i?ta:tb; Term const& d=TT.v[p]; if(d.op==T_BIN+Instruction::Sub&&d.a[1]==q) return evalT(S,d.a[0],4); } }
	Val r=binI(op,x,y,nw);
	TermId t=TT.get(T_BIN+op,w,nw,ta,tb); r=fin(r,t);
	if(op==Instruction::Sub&&r.t){ uint8_t m=cmpI(S,ta,x,tb,y); CR c=r.cr(); if((nw&2)){ if(!(m&LT)) c=c.intersectWith(CR::makeAllowedICmpRegion((m&EQ)?CmpInst::ICMP_SGE:CmpInst::ICMP_SGT,CR(APInt(w,0)))); if(!(m&GT)) c=c.intersectWith(CR::makeAllowedICmpRegion((m&EQ)?CmpInst::ICMP_SLE:CmpInst::ICMP_SLT,CR(APInt(w,0)))); if(!c.isEmptySet()) r=fin(mkInt(c),t); } }
	return r;
}
static Val mkBinF(State const& S, unsigned op, Val x, Val y){
	unsigned w=x.w;
	if(x.k!=KFloat||y.k!=KFloat) return withTerm(fullF(w?w:64));
	if(isC(x)&&isC(y)){ double a=x.lo(),b=y.lo(),r=0; switch(op){case Instruction::FAdd:r=a+b;break;case Instruction::FSub:r=a-b;break;case Instruction::FMul:r=a*b;break;case Instruction::FDiv:r=a/b;break;case Instruction::FRem:r=std::fmod(a,b);break;} return mkFC(w,rnd(w,r)); }
	if((op==Instruction::FAdd||op==Instruction::FMul)&&isC(x)) std::swap(x,y);
	if(isC(y)){ double c=y.lo(); if(c==0&&(op==Instruction::FAdd||op==Instruction::FSub)) return x; if(c==1&&(op==Instruction::FMul||op==Instruction::FDiv)) return x; }
	TermId ta=termOf(x), tb=termOf(y);
	if(ta==tb&&!x.nan&&!fEmpty(x)&&std::isfinite(x.lo())&&std::isfinite(x.hi())){ if(op==Instruction::FSub) return mkFC(w,0); if(op==Instruction::FDiv&&(x.lo()>0||x.hi()<0)) return mkFC(w,1); }
	if(op==Instruction::FMul && isC(y) && y.lo()==-1){ Term const& d=TT.v[ta]; if(d.op==T_BIN+Instruction::FMul){ for(int j=0;j<2;j++){ Term const& e=TT.v[d.a[j]]; if(e.op==T_FC&&asD(e.imm)==-1){ return evalT(S,d.a[1-j],4);} } } }
	if((op==Instruction::FAdd||op==Instruction::FMul)&&ta>tb){ std::swap(ta,tb); std::swap(x,y); }
	TermId t=TT.get(T_BIN+op,w,0,ta,tb); if(TT.base[t].k==KNone) TT.base[t]=fullF(w);
	Val r=evalT(S,t,1);
	Val n; if(op==Instruction::FAdd) n=fAdd(x,y,false,w); else if(op==Instruction::FSub) n=fAdd(x,y,true,w); else if(op==Instruction::FMul) n=fMul(x,y,w); else if(op==Instruction::FDiv) n=fDiv(x,y,w); else n=fullF(w);
	Val m=meetV(r,n); if(m.k!=KNone) r=m; r.t=t; if(isC(r)) r.t=0; return r;
}
static Val mkCast(State const& S, unsigned op, Val x, Type* ty, unsigned w){
	Val r=castV(op,x,ty,w);
	if(isC(x)) return isC(r)?r:withTerm(r);
	TermId ta=termOf(x);
	Term const d=TT.v[ta];
	if(op==Instruction::Trunc && (d.op==T_CAST+Instruction::ZExt||d.op==T_CAST+Instruction::SExt) && TT.v[d.a[0]].w==w){ Val e=evalT(S,d.a[0],4); return isC(e)?fin(e,0):e; }
	if(op==Instruction::ZExt && d.op==T_CAST+Instruction::ZExt) { ta=d.a[0]; }
	if(op==Instruction::SExt && d.op==T_CAST+Instruction::SExt) { ta=d.a[0]; }
	if(op==Instruction::SExt && d.op==T_CAST+Instruction::ZExt) { ta=d.a[0]; op=Instruction::ZExt; }
	TermId t=TT.get(T_CAST+op,w,0,ta); return fin(r,t);
}
static Val mkCmpI(State const& S, CmpInst::Predicate p, Val x, Val y){
	if(x.k!=KInt||y.k!=KInt||x.w!=y.w) return withTerm(mkInt(CR::getFull(1)));
	x=deep(S,x); y=deep(S,y);
	if(isC(x)&&!isC(y)){ std::swap(x,y); p=CmpInst::getSwappedPredicate(p); }
	TermId ta=termOf(x),tb=termOf(y);
	if(ta==tb){ return mkIntC(1,CmpInst::isTrueWhenEqual(p)); }
	if(isC(y)&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)&&y.a<=1){ // bool idioms
		Term const d=TT.v[ta]; if(d.op==T_CAST+Instruction::ZExt&&TT.v[d.a[0]].w==1){ bool same=(p==CmpInst::ICMP_NE)==(y.a==0); Val e=evalT(S,d.a[0],4); if(isC(e)) return mkIntC(1,same?e.a:!e.a); if(same) return e; return mkBinI(S,Instruction::Xor,e,mkIntC(1,1),0); } }
	if(CmpInst::isUnsigned(p)){
		bool xn=x.cr().isAllNonNegative(), yn=y.cr().isAllNonNegative();
		if(xn&&yn) p=ICmpInst::getSignedPredicate(p);
		else { if(x.cr().icmp(p,y.cr())) return mkIntC(1,1); if(x.cr().icmp(CmpInst::getInversePredicate(p),y.cr())) return mkIntC(1,0);
			TermId t=TT.get(T_UCMP,1,p,ta,tb); return fin(mkInt(CR::getFull(1)),t); }
	}
	uint8_t M; switch(p){ case CmpInst::ICMP_EQ:M=EQ;break; case CmpInst::ICMP_NE:M=LT|GT;break; case CmpInst::ICMP_SGT:M=GT;break; case CmpInst::ICMP_SGE:M=GT|EQ;break; case CmpInst::ICMP_SLT:M=LT;break; default:M=LT|EQ; }
	uint8_t m=cmpI(S,ta,x,tb,y); if(!(m&M)) return mkIntC(1,0); if(!(m&~M)) return mkIntC(1,1);
	if(ta>tb){ std::swap(ta,tb); M=swapMask(M); }
	TermId t=TT.get(T_CMP,1,M,ta,tb); Val r=fin(mkInt(CR::getFull(1)),t); if(Val* q=refFind(S,t)){ if(isC(*q)) return mkIntC(1,q->a); } return r;
}
static Val mkCmpF(State const& S, unsigned M, Val x, Val y){ // M: mask of true outcomes
	if(x.k!=KFloat||y.k!=KFloat) return withTerm(mkInt(CR::getFull(1)));
	x=deep(S,x); y=deep(S,y);
	TermId ta=termOf(x),tb=termOf(y);
	uint8_t m=cmpF(S,ta,x,tb,y); if(!(m&M)) return mkIntC(1,0); if(!(m&~M)) return mkIntC(1,1);
	if(ta>tb){ std::swap(ta,tb); M=swapMask(M); }
	TermId t=TT.get(T_FCMP,1,M,ta,tb); Val r=fin(mkInt(CR::getFull(1)),t); if(Val* q=refFind(S,t)){ if(isC(*q)) return mkIntC(1,q->a); } return r;
}
// ---- known math functions -----------------------------------------------------
struct MathFn { const char* n; int id; };
enum { M_FLOOR=1,M_CEIL,M_SQRT,M_EXP,M_LOG,M_LOG2,M_FABS,M_POW,M_TANH,M_ROUND,M_TRUNC,M_SIN,M_COS,M_LOG10,M_FMAX,M_FMIN,M_EXPM1,M_LOG1P, M_EXP2 };
static int mathId(StringRef n){
	static const std::map<std::string,int> m={{"floor",M_FLOOR},{"ceil",M_CEIL},{"sqrt",M_SQRT},{"exp",M_EXP},{"log",M_LOG},{"log2",M_LOG2},{"fabs",M_FABS},{"pow",M_POW},{"tanh",M_TANH},{"round",M_ROUND},{"trunc",M_TRUNC},{"sin",M_SIN},{"cos",M_COS},{"log10",M_LOG10},{"fmax",M_FMAX},{"fmin",M_FMIN},{"expm1",M_EXPM1},{"log1p",M_LOG1P},{"exp2",M_EXP2}};
	std::string s=n.str(); auto it=m.find(s); if(it!=m.end()) return it->second;
	if(s.size()>1&&s.back()=='f'){ it=m.find(s.substr(0,s.size()-1)); if(it!=m.end()) return it->second; }
	if(s.rfind("llvm.",0)==0){ std::string q=s.substr(5); auto p=q.find('.'); if(p!=std::string::npos) q=q.substr(0,p); if(q=="maxnum")q="fmax"; if(q=="minnum")q="fmin"; it=m.find(q); if(it!=m.end()) return it->second; }
	return 0;
}
static Val callF(uint64_t fn, Val const* x, int n, unsigned w){
	Val v=x[0]; if(v.k!=KFloat) return Val();
	auto mono=[&](double(*f)(double),double pad,double mn,double mx)->Val{
		if(fEmpty(v)) return mkF(w,INFINITY,-INFINITY,true);
		double lo=f(v.lo()),hi=f(v.hi()); if(v.a!=v.b&&pad){ lo=std::isinf(lo)?lo:lo-std::fabs(lo)*pad; hi=std::isinf(hi)?hi:hi+std::fabs(hi)*pad; } lo=std::max(lo,mn); hi=std::min(hi,mx); return mkF(w,rnd(w,lo),rnd(w,hi),v.nan); };
	switch(fn){
	case M_FLOOR: return mono([](double d){return std::floor(d);},0,-INFINITY,INFINITY);
	case M_CEIL: return mono([](double d){return std::ceil(d);},0,-INFINITY,INFINITY);
	case M_ROUND: return mono([](double d){return std::round(d);},0,-INFINITY,INFINITY);
	case M_TRUNC: return mono([](double d){return std::trunc(d);},0,-INFINITY,INFINITY);
	case M_EXP: return mono([](double d){return std::exp(d);},1e-15,0,INFINITY);
	case M_EXP2: return mono([](double d){return std::exp2(d);},1e-15,0,INFINITY);
	case M_TANH: return mono([](double d){return std::tanh(d);},1e-15,-1,1);
	case M_EXPM1: return mono([](double d){return std::expm1(d);},1e-15,-1,INFINITY);
	case M_FABS: { if(fEmpty(v)) return v; double a=std::fabs(v.lo()),b=std::fabs(v.hi()); double lo=(v.lo()<=0&&v.hi()>=0)?0:std::min(a,b); return mkF(w,lo,std::max(a,b),v.nan); }
	case M_SQRT: { if(fEmpty(v)) return mkF(w,INFINITY,-INFINITY,true); bool nan=v.nan||v.lo()<0; if(v.hi()<0) return mkF(w,INFINITY,-INFINITY,true); return mkF(w,rnd(w,std::sqrt(std::max(0.0,v.lo()))),rnd(w,std::sqrt(v.hi())),nan); }
	case M_LOG: case M_LOG2: case M_LOG10: { if(fEmpty(v)) return mkF(w,INFINITY,-INFINITY,true); bool nan=v.nan||v.lo()<0; if(v.hi()<0) return mkF(w,INFINITY,-INFINITY,true);
		auto f=[&](double d){ return fn==M_LOG?std::log(d):fn==M_LOG2?std::log2(d):std::log10(d); }; double lo=f(std::max(0.0,v.lo())),hi=f(v.hi()); if(v.a!=v.b){ lo=std::isinf(lo)?lo:lo-std::fabs(lo)*1e-15; hi=std::isinf(hi)?hi:hi+std::fabs(hi)*1e-15; } return mkF(w,lo,hi,nan); }
	case M_SIN: case M_COS: if(isC(v)) return mkFC(w,fn==M_SIN?std::sin(v.lo()):std::cos(v.lo())); return mkF(w,-1,1,true);
	case M_POW: if(n>1&&isC(v)&&isC(x[1])) return mkFC(w,std::pow(v.lo(),x[1].lo())); return fullF(w);
	case M_FMAX: case M_FMIN: { Val y=x[1]; if(fEmpty(v)||fEmpty(y)) return fullF(w); auto g=fn==M_FMAX?[](double a,double b){return std::max(a,b);}:[](double a,double b){return std::min(a,b);}; Val r=mkF(w,g(v.lo(),y.lo()),g(v.hi(),y.hi()),v.nan&&y.nan); if(v.nan) r=joinV(r,mkF(w,y.lo(),y.hi(),false)); if(y.nan) r=joinV(r,mkF(w,v.lo(),v.hi(),false)); return r; }
	}
	return Val();
}
