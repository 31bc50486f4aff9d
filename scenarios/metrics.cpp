#include "vp.h"
#include "metrics.hpp"
static bool near(double a,double b){ double d=a-b; return d<=1e-9&&d>=-1e-9; }
static double expect(bool ratio,bool inv,int err,int cnt,int ts){ double e=(double)err/cnt, g=(double)(cnt-err)/cnt; return inv?(ratio?g/ts:g):(ratio?e*ts:e); }
// every history of up to MAX tallies, with copies and resets in between, against a shadow
template<bool R,int MAX> static void error(){
	typedef ErrorMetrics<R> M; M m; int cnt=0,err=0; vp_track(&cnt,sizeof cnt); vp_track(&err,sizeof err); vp_assert(m.ratio()==R,"ratio() does not tell the option");
	while(vp_any_bool()){
		vp_merge(); int op=vp_split(vp_any_int(0,5));
		if(op==0){ int l=vp_any_int(0,1000),p=vp_any_int(0,1000); vp_assume(cnt<MAX); m.update(l,p); cnt++; if(l!=p) err++; vp_reach("update"); }
		else if(op==1){ int l=vp_any_int(0,1000); vp_assume(cnt<MAX); m.update(l,l); cnt++; }
		else if(op==2){ int c=vp_split(vp_any_int(1,3)); vp_assume(cnt+c<=MAX); if(c==1) m.increase_error(); else m.increase_error(c); cnt+=c; err+=c; vp_reach("penalty"); }
		else if(op==3){ m.reset(); cnt=err=0; vp_reach("reset"); }
		else if(op==4){ M o(m); o.update(1,2); M q; q=m; M& s=q; m=q; q=s; if(vp_any_bool()) m=q; }
		else { M o; o.update(0,1); o.increase_error(2); o=m; m.reset(); m=o; vp_reach("copy"); }
		if(cnt>0){ int ts=vp_split(vp_any_int(1,3)); vp_assert(near(m.score(false,ts),expect(R,false,err,cnt,ts)),"the error score is not the documented function of the tallies"); vp_assert(near(m.score(true,ts),expect(R,true,err,cnt,ts)),"the inverted score is not the documented function of the tallies"); if(!R){ vp_assert(near(m.score(),(double)err/cnt),"the error score is not the documented function of the tallies"); vp_assert(near(m.score(true),(double)(cnt-err)/cnt),"the inverted score is not the documented function of the tallies"); } vp_reach("score"); }
	}
}
// long histories: the tallies keep their proportions
template<bool R> static void many(){ ErrorMetrics<R> m; int a=vp_split(vp_any_int(1,3)), b=vp_split(vp_any_int(0,3)); m.increase_error(1000000*a); for(int i=0;i<b;i++) m.update(i,i); int cnt=1000000*a+b; vp_assert(near(m.score(false,2),expect(R,false,1000000*a,cnt,2)),"large tallies are not counted exactly"); vp_reach("many"); }
// every label and prediction is compared, not only small ones
template<bool R> static void labels(){ ErrorMetrics<R> m; int l=vp_any_int(INT_MIN,INT_MAX), p=vp_any_int(INT_MIN,INT_MAX); m.update(l,p); vp_assert(near(m.score(false,1),l==p?0:1),"a prediction is counted as an error exactly when it differs from the label"); vp_reach("labels"); }
static bool kap(int const* c,int L,double& k){ double tot=0,diag=0,sum=0; for(int i=0;i<L;i++){ double r=0,q=0; for(int j=0;j<L;j++){ r+=c[i*L+j]; q+=c[j*L+i]; } tot+=r; diag+=c[i*L+i]; sum+=r*q; } double den=tot*tot-sum; if(den==0) return false; k=(tot*diag-sum)/den; return true; }
template<int L,bool R,int MAX> static void kappa(){
	typedef KappaMetrics<L,R> M; M m; int c[L*L]; for(int i=0;i<L*L;i++) c[i]=0; int tot=0; vp_track(c,sizeof c); vp_track(&tot,sizeof tot); vp_assert(m.ratio()==R,"ratio() does not tell the option");
	while(vp_any_bool()){
		vp_merge(); int op=vp_split(vp_any_int(0,4));
		if(op<=1){ int l=vp_split(vp_any_int(0,L-1)),p=vp_split(vp_any_int(0,L-1)); vp_assume(tot<MAX); m.update(l,p); c[l*L+p]++; tot++; vp_reach("update"); }
		else if(op==2){ int k=vp_split(vp_any_int(1,3)); vp_assume(tot+k<=MAX); if(k==1) m.increase_error(); else m.increase_error(k); c[L>1?1:0]+=k; tot+=k; vp_reach("penalty"); }
		else if(op==3){ m.reset(); for(int i=0;i<L*L;i++) c[i]=0; tot=0; vp_reach("reset"); }
		else { M o; o.update(0,0); o=m; M q(o); m.reset(); m.update(0,L-1); if(vp_any_bool()) m=o; else m=q; M& s=m; m=s; vp_reach("copy"); }
		double k; if(kap(c,L,k)){ int ts=vp_split(vp_any_int(1,2)); vp_assert(near(m.kappa(),k),"kappa is not computed from exactly the tallied pairs"); double e=(1-k)/2,g=(k+1)/2; vp_assert(near(m.score(false,ts),R?e*ts:e),"the score is not the documented function of kappa"); vp_assert(near(m.score(true,ts),R?g/ts:g),"the inverted score is not the documented function of kappa"); if(!R){ vp_assert(near(m.score(),e),"the score is not the documented function of kappa"); vp_assert(near(m.score(true),g),"the inverted score is not the documented function of kappa"); } vp_reach("score"); }
	}
}
template<int L> static void one_cell(){ KappaMetrics<L> m,n; int l=vp_split(vp_any_int(0,L-1)),p=vp_split(vp_any_int(0,L-1)); m.update(0,0); m.update(L-1,L-1); m.update(l,p); int c[L*L]; for(int i=0;i<L*L;i++) c[i]=0; c[0]++; c[L*L-1]++; c[l*L+p]++; double k; if(kap(c,L,k)) vp_assert(near(m.kappa(),k),"a pair is tallied in the wrong cell"); vp_reach("cell"); }
static void none(){ NoMetrics m; m.update(vp_any_int(0,5),vp_any_int(0,5)); m.increase_error(3); vp_assert(m.score()==0&&m.score(true,5)==0&&!m.ratio(),"NoMetrics answers a score"); m.reset(); NoMetrics o; o=m; vp_reach("none"); }
// the documented shared counter: the n-th sample
static void reservoir(){ ReservoirSamplingMetrics a; int n=1; { vp_assert(near(a.score(false,1),0),"the score of the newest sample"); } ReservoirSamplingMetrics b; n++; vp_assert(near(b.score(false,1),(n-1.0)/n)&&near(a.score(false,1),1.0/n),"the score is not the documented function of the number of samples"); a.update(0,1); a.increase_error(7);
	int k=vp_split(vp_any_int(1,4)); for(int i=0;i<k;i++){ a.reset(); n++; int s=vp_split(vp_any_int(1,3)); vp_assert(near(a.score(false,s),(double)(n-s)/n),"the score of the newest sample"); vp_assert(near(b.score(false,s),1.0/n),"the score of an older sample"); } ReservoirSamplingMetrics c(a); vp_assert(near(c.score(false,2),a.score(false,2)),"a copy does not have the same tallies"); b=a; vp_assert(near(b.score(false,2),a.score(false,2)),"a copy does not have the same tallies"); vp_assert(!a.ratio(),"ratio() does not tell the option"); vp_reach("reservoir"); }
SCN scn_C10_error(){ error<false,8>(); }
SCN scn_C10_error_ratio(){ error<true,8>(); }
SCN scn_C10_many(){ many<false>(); many<true>(); }
SCN scn_C10_labels(){ labels<false>(); labels<true>(); }
SCN scn_C10_kappa2(){ kappa<2,false,7>(); }
SCN scn_C10_kappa2_ratio(){ kappa<2,true,5>(); }
SCN scn_C10_kappa3(){ kappa<3,false,4>(); }
SCN scn_C10_kappa1(){ kappa<1,false,3>(); }
SCN scn_C10_cells(){ one_cell<3>(); one_cell<5>(); }
SCN scn_C10_none(){ none(); }
SCN scn_C10_reservoir(){ reservoir(); }
SCN thr_C10_kappa3(){ kappa<3,true,5>(); }
SCN thr_C10_error(){ error<true,10>(); }
