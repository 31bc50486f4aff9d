// the helpers compute what they document (C27)
#include "vp.h"
#include <cstdlib>
#include "utils.hpp"
static double U; // the random number of the user's function; below 0: any number
struct FN { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return U<0?vp_any_double(0,0x1.fffffffffffffp-1):U; } };
static bool near(double a,double b){ double d=a-b; return d<=1e-9&&d>=-1e-9; }
// picks the interval of the distribution the random number falls into, and never one without a chance
template<int N> static void pick(){ double p[N+2]; p[0]=p[N+1]=-1; double* q=p+1; double last=0; for(int i=0;i<N;i++){ q[i]=vp_any_double(0,1.0000001); vp_assume(q[i]>=last); last=q[i]; }
	double u=vp_any_double(0,0x1.fffffffffffffp-1); U=u; int i=Utils::pick_from_distribution<FN>(q,N); vp_assert(i>=0&&i<N,"the index is out of range"); i=vp_split(i);
	if(u<q[N-1]){ vp_assert(u<q[i],"the index picked is too low"); vp_assert(i==0||!(u<q[i-1]),"the index picked is too high"); vp_reach("picked"); }
	else { vp_assert(i==0||q[i]>q[i-1],"an index without a chance is picked"); for(int k=i+1;k<N&&N<4;k++) vp_assert(!(q[k]>q[k-1]),"the rounding error is not given to the last index with a chance"); if(N>0) vp_reach("rounded"); } }
SCN scn_C27_pick1(){ pick<1>(); }
SCN scn_C27_pick2(){ pick<2>(); }
SCN scn_C27_pick3(){ pick<3>(); }
SCN scn_C27_pick4(){ pick<4>(); }
// accumulates the shares
template<int N> static void shares(bool given){ static const double g[]={0,1,2.5,40}; double v[N+2],w[N]; v[0]=v[N+1]=-5; double s=0; for(int i=0;i<N;i++){ w[i]=v[i+1]=g[vp_split(vp_any_int(0,3))]; s+=w[i]; } vp_assume(s>0);
	if(given) Utils::turn_array_into_probability(v+1,N,s); else Utils::turn_array_into_probability(v+1,N);
	double a=0; for(int i=0;i<N;i++){ a+=w[i]; vp_assert(near(v[i+1],a/s),"an accumulated share is wrong"); vp_assert(i==0||v[i+1]>=v[i],"the accumulated shares decrease"); } vp_assert(v[0]==-5&&v[N+1]==-5,"more than the values is written"); vp_reach("shares"); }
SCN scn_C27_shares1(){ shares<1>(false); shares<1>(true); }
SCN scn_C27_shares2(){ shares<2>(false); shares<2>(true); }
SCN scn_C27_shares3(){ shares<3>(false); shares<3>(true); }
SCN scn_C27_shares4(){ shares<4>(true); shares<4>(false); }
template<int N> static void shares_any(){ double v[N]; double s=0; for(int i=0;i<N;i++){ v[i]=vp_any_double(0,1e6); s+=v[i]; } vp_assume(s>0); Utils::turn_array_into_probability(v,N,s); for(int i=0;i<N;i++){ vp_assert(v[i]>=0,"a share is negative"); vp_assert(i==0||v[i]>=v[i-1],"the accumulated shares decrease"); } vp_reach("shares"); }
SCN scn_C27_shares_any(){ shares_any<2>(); shares_any<3>(); shares_any<5>(); }
// the first of the highest values
template<class T,int N> static void highest(){ T a[N]; for(int i=0;i<N;i++) a[i]=(T)vp_any_double(-1e6,1e6); int m=Utils::index_max(a,N); vp_assert(m>=0&&m<N,"the index is out of range"); m=vp_split(m); for(int i=0;i<N;i++){ vp_assert(!(a[i]>a[m]),"a higher value exists"); if(i<m) vp_assert(a[i]<a[m],"not the first of the highest values"); } vp_reach("highest"); }
SCN scn_C27_highest(){ highest<double,1>(); highest<double,2>(); highest<double,3>(); highest<float,4>(); highest<int,3>(); }
SCN scn_C27_exponential(){ static const double us[]={0,1e-9,0.25,0.5,0.9,0x1.fffffffffffffp-1}; static const double rs[]={0.001,0.5,1,3,1000}; U=us[vp_split(vp_any_int(0,5))]; double r=rs[vp_split(vp_any_int(0,4))]; double e=Utils::rand_exponential<FN>(r), d=-std::log(1-U)/r; double t=d*1e-9; vp_assert(e-d<=t&&d-e<=t,"not the exponential law of the rate"); vp_reach("exponential"); }
SCN scn_C27_exponential_any(){ U=-1; double e=Utils::rand_exponential<FN>(vp_any_double(1e-6,1e6)); vp_assert(e>=0,"a negative waiting time"); vp_assert(e<1e300,"an infinite waiting time"); vp_reach("exponential"); }
template<class T> static void two(T lo,T hi){ T a=(T)vp_any_double(lo,hi), b=(T)vp_any_double(lo,hi); T m=Utils::min(a,b), M=Utils::max(a,b); vp_assert(m<=a&&m<=b&&(m==a||m==b),"not the minimum"); vp_assert(M>=a&&M>=b&&(M==a||M==b),"not the maximum"); T p=Utils::abs(a); vp_assert(p>=0,"a negative absolute value"); for(int k=-20;k<=20;k++) for(int f=1;f<=1000000;f*=1000){ T n=(T)(k*f); vp_assert(Utils::abs(n)==(n<0?-n:n),"not the absolute value"); } vp_reach("two"); }
SCN scn_C27_two(){ two<double>(-1e9,1e9); two<float>(-1e9,1e9); two<int>(-1000000,1000000); two<long>(-1000000,1000000); }
SCN scn_C27_round(){ for(int k=-5;k<=5;k++){ static const double d[]={-0.49,-0.25,0,0.25,0.49}; for(double x:d){ vp_assert(Utils::round(k+x)==k,"not rounded to the nearest integer"); vp_assert(Utils::round((float)(k+x))==k,"not rounded to the nearest integer"); } } for(int k=-20;k<=20;k++) vp_assert(Utils::round(vp_any_double(k-0.4999,k+0.4999))==k,"not rounded to the nearest integer"); for(int k=-1000000;k<=1000000;k+=400000) vp_assert(Utils::round(vp_any_double(k-0.4999,k+0.4999))==k,"not rounded to the nearest integer"); for(int k=0;k<4;k++){ vp_assert(Utils::round(k+0.5)==k+1,"a tie is not rounded away from zero"); vp_assert(Utils::round(-k-0.5)==-k-1,"a tie is not rounded away from zero"); } vp_reach("round"); }
SCN scn_C27_small(){ for(int a=-12;a<=12;a++) for(int b=-5;b<=5;b++) if(b) vp_assert(Utils::div_int<double>(a,b)==(double)(a/b),"not the integer quotient"); static const double xs[]={-3,-1,-0.001,0,0.5,2}; for(double x:xs) vp_assert(near(Utils::expm1<FN>(x),std::exp(x)-1),"not the exponential minus one"); double x=vp_any_double(-50,0); double e=Utils::expm1<FN>(x); vp_assert(e<=1e-9&&e>=-1,"the exponential minus one of a negative value is out of range"); vp_reach("small"); }
// shuffling keeps every element
template<class T,int N> static void shuffled(){ T a[N+2]; for(int i=0;i<N+2;i++) a[i]=(T)(100+i); U=-1; Utils::shuffle<FN>(a+1,N); vp_assert(a[0]==100&&a[N+1]==101+N,"more than the array is touched"); for(int k=1;k<=N;k++){ int c=0; for(int i=1;i<=N;i++) if(a[i]==(T)(100+k)) c++; vp_assert(c==1,"an element is lost or doubled"); } vp_reach("shuffled"); }
SCN scn_C27_shuffle(){ shuffled<int,1>(); shuffled<int,2>(); shuffled<int,3>(); shuffled<double,4>(); }
SCN scn_C27_shuffle5(){ shuffled<int,5>(); }
