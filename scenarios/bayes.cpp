#include "vp.h"
#include "naive_bayes.hpp"
struct FN { static double log(double x){ return std::log(x); } static double sqrt(double x){ return std::sqrt(x); } };
static bool near(double a,double b){ if(a==b) return true; double d=a-b; return d<=1e-6&&d>=-1e-6; }
// every training sequence of N points over a small set of values: the scores are compared with the definition
template<class T,int L,int F,int N,int V> static void scores(){
	NaiveBayes<T,L,F,FN> m; T x[N][F]; int lab[N]; double w[N]; static const double vals[]={0,1,3,-2}; static const double ws[]={1,2};
	for(int n=0;n<N;n++){ int lb=vp_split(vp_any_int(0,L-1)); lab[n]=lb; for(int f=0;f<F;f++) x[n][f]=vals[(vp_split(vp_any_int(0,V-1))+f)%4]; w[n]=N==2?ws[vp_split(vp_any_int(0,1))]:ws[(n+lb)&1]; bool ok=w[n]==1&&(n&1)?m.train(x[n],lab[n]):m.train(x[n],lab[n],w[n]); vp_assert(ok,"train() reports failure"); }
	T q[F]; for(int f=0;f<F;f++) q[f]=f==0?vals[vp_split(vp_any_int(0,1))]:(T)0.5; double s[L]; for(int l=0;l<L;l++) s[l]=12345; int r=m.predict(q,s); vp_assert(r>=0&&r<L,"the predicted label is out of range"); vp_assert(m.predict(q)==r,"asking for the scores changes the predicted label");
	double tot=0; for(int n=0;n<N;n++) tot+=w[n];
	for(int l=0;l<L;l++){ double lw=0; for(int n=0;n<N;n++) if(lab[n]==l) lw+=w[n];
		if(lw==0){ vp_assert(s[l]<-1e300,"a label without data does not score minus infinity"); vp_reach("no data"); continue; }
		double e=std::log(lw/tot); for(int f=0;f<F;f++){ double mean=0; for(int n=0;n<N;n++) if(lab[n]==l) mean+=w[n]*x[n][f]; mean/=lw; double var=0; for(int n=0;n<N;n++) if(lab[n]==l) var+=w[n]*(x[n][f]-mean)*(x[n][f]-mean); double d; bool same=true; T first=0; bool got=false; for(int n=0;n<N;n++) if(lab[n]==l){ if(!got) first=x[n][f]; got=true; if(x[n][f]!=first) same=false; }
			if(lw<=1||same){ d=q[f]==first?1:0; } else { var/=lw-1; d=1/(2.50663*std::sqrt(var))*std::exp(-((q[f]-mean)*(q[f]-mean)/(2*var))); vp_reach("density"); }
			e+=d==0?-INFINITY:std::log(d); }
		vp_assert(near(s[l],e),"the score of a label is not its log prior plus the log densities of all features"); }
	for(int l=0;l<L;l++) vp_assert(!(s[l]>s[r]),"the predicted label does not have the highest score");
	vp_reach("scores"); }
template<class T,int F> static void any(T* x){ for(int f=0;f<F;f++) x[f]=(T)vp_any_double(-100,100); }
// in every reachable state, trainings of different labels do not affect one another
template<class T,int L,int F> static void isolation(){
	typedef NaiveBayes<T,L,F,FN> M; M m; while(vp_any_bool()){ vp_merge(); T x[F]; any<T,F>(x); int l=vp_split(vp_any_int(0,L-1)); m.train(x,l,vp_any_double(0.5,4)); }
	M a(m),b(m); T x[F],y[F]; any<T,F>(x); any<T,F>(y); int l=vp_split(vp_any_int(0,L-1)),k=vp_split(vp_any_int(0,L-1)); vp_assume(l!=k);
	a.train(x,l); a.train(y,k); b.train(y,k); b.train(x,l); vp_assert(vp_same_mem(&a,&b,sizeof a),"training one label depends on, or changes, the statistics of another label"); vp_reach("isolation"); }
// each feature of the trained label is learnt, and only its own values
template<class T,int L,int F> static void features(){
	NaiveBayes<T,L,F,FN> a,b; T x[F],y[F]; for(int f=0;f<F;f++){ x[f]=f; y[f]=f+2; } int l=vp_split(vp_any_int(0,L-1)), g=vp_split(vp_any_int(0,F-1));
	a.train(x,l); a.train(y,l); b.train(x,l); T z[F]; for(int f=0;f<F;f++) z[f]=y[f]; z[g]=y[g]+6; b.train(z,l); double sa[L],sb[L]; a.predict(x,sa); b.predict(x,sb);
	vp_assert(sa[l]!=sb[l],"a feature of the trained label does not count"); T q[F]; for(int f=0;f<F;f++) q[f]=x[f]; q[g]+=5; double sq[L]; a.predict(q,sq); vp_assert(sq[l]<sa[l],"the value of a feature does not count in the prediction"); vp_reach("features"); }
SCN scn_C08_scores_2x1(){ scores<double,2,1,3,3>(); }
SCN scn_C08_scores_2x2(){ scores<double,2,2,2,3>(); }
SCN scn_C08_scores_3x1(){ scores<double,3,1,3,2>(); }
SCN scn_C08_scores_float(){ scores<float,2,1,3,2>(); }
SCN scn_C08_scores_1x2(){ scores<double,1,2,3,2>(); }
SCN scn_C08_isolation_2x2(){ isolation<double,2,2>(); }
SCN scn_C08_isolation_3x1(){ isolation<double,3,1>(); }
SCN scn_C08_isolation_4x3(){ isolation<double,4,3>(); }
SCN scn_C08_isolation_float(){ isolation<float,2,3>(); }
SCN scn_C08_features(){ features<double,2,3>(); features<double,3,2>(); }
SCN scn_C08_scores_4(){ scores<double,2,1,4,3>(); }
SCN scn_C08_scores_2x2_3(){ scores<double,2,2,3,3>(); }
SCN thr_C08_scores_2x2_4(){ scores<double,2,2,4,3>(); }
SCN thr_C08_scores_3x1_5(){ scores<double,3,1,5,3>(); }
SCN scn_C08_smoothing(){ NaiveBayes<double,2,1,FN> m(0.25); vp_assert(m.get_smoothing()==0.25,"the smoothing value is not the one given"); double v=vp_any_double(0,10); m.set_smoothing(v); vp_assert(vp_same(m.get_smoothing(),v),"the smoothing value is not the one given"); vp_reach("smoothing"); }
