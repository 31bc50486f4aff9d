#include "vp.h"
#include "perceptron.hpp"
static double A(double x){ return x*0.5+1; } static double D(double o){ return o*0.25+0.5; }
struct FN { static double random(){ return vp_any_double(0,1); } static double activation(double x){ return A(x); } static double derivative(double o){ return D(o); } };
static bool near(double a,double b){ double d=a-b, m=a<0?-a:a; double e=1e-6*(m>1?m:1); return d<=e&&d>=-e; }
static int weights_of(int const* s,int n){ int w=0; for(int l=1;l<n;l++) w+=(s[l-1]+1)*s[l]; return w; }
static int base(int const* s,int l){ int w=0; for(int i=1;i<l;i++) w+=(s[i-1]+1)*s[i]; return w; }
static double wv(int i){ return 0.25*((i*7)%11)-1.125; }
// the definition, on plain arrays: w is the network in order, o the outputs
template<int N> static void fwd(int const* s,double const* w,double const* in,double o[N][4]){ for(int i=0;i<s[0];i++) o[0][i]=in[i]; for(int l=1;l<N;l++) for(int k=0;k<s[l];k++){ double const* q=w+base(s,l)+k*(s[l-1]+1); double x=q[s[l-1]]; for(int j=0;j<s[l-1];j++) x+=q[j]*o[l-1][j]; o[l][k]=A(x); } }
template<int N> static double bwd(int const* s,double* w,double const* ex,double o[N][4],double lr){ double d[N][4]; double e=0; for(int k=0;k<s[N-1];k++){ double r=o[N-1][k]-ex[k]; e+=r*r; d[N-1][k]=D(o[N-1][k])*r; }
	for(int l=N-1;l>=1;l--){ if(l>1) for(int j=0;j<s[l-1];j++){ double x=0; for(int k=0;k<s[l];k++) x+=d[l][k]*w[base(s,l)+k*(s[l-1]+1)+j]; d[l-1][j]=D(o[l-1][j])*x; }
		for(int k=0;k<s[l];k++){ double* q=w+base(s,l)+k*(s[l-1]+1); for(int j=0;j<s[l-1];j++) q[j]-=lr*o[l-1][j]*d[l][k]; q[s[l-1]]-=lr*d[l][k]; } } return e/s[N-1]; }
#define MAXW 60
// the network agrees with the definition, whatever way its weights were set
template<int N,int SZ,class S> static void learns(S const& shape){
	int s[N]; shape(s); int W=weights_of(s,N); vp_assume(W*16<=SZ); double lr=vp_split(vp_any_int(0,1))?0.1:0.5; typedef MultiLayerPerceptron<N,SZ,FN> M; M* mp; M m1(s,lr); M m2(s); M& m=lr==0.1?m2:m1; 
	vp_assert(vp_is_init(m.get_weights(),W*sizeof(double)),"a new network has weights that were never set");
	double w[MAXW]; for(int i=0;i<W;i++) w[i]=wv(i); int how=vp_split(vp_any_int(0,2));
	if(how==0) m.set_weights(w);
	else if(how==1) for(int l=1;l<N;l++) m.set_weights(l,w+base(s,l));
	else for(int l=N-1;l>=1;l--) for(int k=0;k<s[l];k++) m.set_weights(l,k,w+base(s,l)+k*(s[l-1]+1));
	for(int r=0;r<2;r++){
		double in[4],out[4],ex[4],o[N][4]; for(int i=0;i<4;i++){ in[i]=0.5*i-0.3+r; ex[i]=0.7*i-0.2*r; out[i]=999; }
		m.feed_forward(in,out); fwd<N>(s,w,in,o); for(int k=0;k<s[N-1];k++) vp_assert(near(out[k],o[N-1][k]),"the forward pass does not read the weights where they were written, the bias last"); for(int k=s[N-1];k<4;k++) vp_assert(out[k]==999,"the forward pass writes more outputs than the last layer has");
		double e=m.backpropagate(ex), f=bwd<N>(s,w,ex,o,lr); vp_assert(near(e,f),"backpropagation does not report the mean squared error of the last layer"); for(int i=0;i<W;i++) vp_assert(near(m.get_weights()[i],w[i]),"backpropagation does not adjust each weight by the error of its neuron and the value of its input"); vp_reach("learn"); }
}
// setting weights changes exactly those weights; a forward pass changes none
template<int N,int SZ,class S> static void sets(S const& shape){
	int s[N]; shape(s); int W=weights_of(s,N); vp_assume(W*16<=SZ); MultiLayerPerceptron<N,SZ,FN> m(s); double w[MAXW],v[MAXW]; for(int i=0;i<W;i++){ w[i]=vp_any_double(-10,10); v[i]=m.get_weights()[i]; } int how=vp_split(vp_any_int(0,3)); int l=vp_split(vp_any_int(1,N-1)),k=vp_split(vp_any_int(0,3)); int from=0,n=0;
	if(how==0){ vp_assume(k<s[l]); from=base(s,l)+k*(s[l-1]+1); n=s[l-1]+1; m.set_weights(l,k,w); vp_reach("neuron"); } else if(how==1){ vp_assume(k==0); from=base(s,l); n=(s[l-1]+1)*s[l]; m.set_weights(l,w); vp_reach("layer"); } else if(how==2){ vp_assume(k==0&&l==1); n=W; m.set_weights(w); vp_reach("network"); } else { vp_assume(k==0&&l==1); double in[4]={1,2,3,4},out[4]; m.feed_forward(in,out); vp_reach("forward"); }
	for(int i=0;i<W;i++){ if(i>=from&&i<from+n) vp_assert(vp_same(m.get_weights()[i],w[i-from]),"a weight does not have the value it was set to"); else vp_assert(vp_same(m.get_weights()[i],v[i]),how==3?"the forward pass changed a weight":"setting weights changed other weights"); } }
// any history keeps the network usable
template<int N,int SZ,class S> static void history(S const& shape){ int s[N]; shape(s); vp_assume(weights_of(s,N)*16<=SZ); MultiLayerPerceptron<N,SZ,FN> m(s); while(vp_any_bool()){ vp_merge(); double in[4],out[4],ex[4]; for(int i=0;i<4;i++){ in[i]=vp_any_double(-1,1); ex[i]=vp_any_double(-1,1); } m.feed_forward(in,out); if(vp_any_bool()) m.backpropagate(ex); vp_assert(vp_is_init(out,s[N-1]*sizeof(double)),"an output was never written"); vp_reach("history"); } }
static void any2(int* s){ for(int i=0;i<2;i++) s[i]=vp_split(vp_any_int(1,4)); }
static void any3(int* s){ for(int i=0;i<3;i++) s[i]=vp_split(vp_any_int(1,3)); }
static void any4(int* s){ for(int i=0;i<4;i++) s[i]=vp_split(vp_any_int(1,2)); }
static void any5(int* s){ for(int i=0;i<5;i++) s[i]=i==2?3:vp_split(vp_any_int(1,2)); }
static void f232(int* s){ s[0]=2; s[1]=3; s[2]=2; } static void f11(int* s){ s[0]=1; s[1]=1; } static void f1331(int* s){ s[0]=1; s[1]=3; s[2]=2; s[3]=1; }
SCN scn_C09_learn2(){ learns<2,320>(any2); }
SCN scn_C09_learn3(){ learns<3,384>(any3); }
SCN scn_C09_learn4(){ learns<4,288>(any4); }
SCN scn_C09_learn5(){ learns<5,640>(any5); }
SCN scn_C09_tight(){ learns<3,17*16>(f232); learns<2,32>(f11); learns<4,17*16>(f1331); }
SCN scn_C09_sets2(){ sets<2,320>(any2); }
SCN scn_C09_sets3(){ sets<3,384>(any3); }
SCN scn_C09_sets4(){ sets<4,300>(any4); }
SCN scn_C09_history(){ history<3,17*16>(f232); history<2,40>(f11); history<4,17*16>(f1331); }
static void big3(int* s){ for(int i=0;i<3;i++) s[i]=vp_split(vp_any_int(1,4)); }
SCN thr_C09_learn3_big(){ learns<3,640>(big3); }
SCN thr_C09_sets3_big(){ sets<3,640>(big3); }
