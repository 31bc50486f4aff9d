// every classifier answers a valid label and fills the scores asked for (C15)
#include "vp.h"
#include <cstdlib>
#include "naive_bayes.hpp"
#include "mc_nn.hpp"
#include "hoeffding_tree.hpp"
#include "metrics.hpp"
#include "mondrian.hpp"
#include "mondrian_unbound.hpp"
#include "mondrian_coarse.hpp"
struct FN { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } static bool isnan(double x){ return std::isnan(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } };
template<class T,int F> static void any(T* x){ for(int f=0;f<F;f++) x[f]=(T)vp_any_double(-100,100); }
template<class T,int F,int L,class M> static void ask(M& m){ T y[F]; any<T,F>(y); double s[L]; int p=m.predict(y,s);
	vp_assert(p>=0&&p<L,"the predicted label is out of range"); vp_assert(vp_is_init(s,sizeof s),"a score is not written"); for(int l=0;l<L;l++) vp_assert(!(s[l]>s[p]),"the predicted label does not have the highest score");
	double big[L+2]; big[0]=big[L+1]=42; m.predict(y,big+1); vp_assert(big[0]==42&&big[L+1]==42,"more than the scores is written"); int q=m.predict(y); vp_assert(q>=0&&q<L,"the predicted label is out of range"); }
// asked before, between and after up to some trainings
template<class T,int F,int L,class M> static void life(M& m,int steps){ ask<T,F,L>(m); int n=0; vp_track(&n,sizeof n); while(n<steps&&vp_any_bool()){ vp_merge(); n++; T x[F]; any<T,F>(x); m.train(x,vp_split(vp_any_int(0,L-1))); ask<T,F,L>(m); } vp_reach("asked"); }
template<class T,int F,int L> static void bayes(int n){ NaiveBayes<T,L,F,FN> m; life<T,F,L>(m,n); }
template<class T,int F,int L> static void tree(int n,int size){ int s[F]; for(int f=0;f<F;f++) s[f]=size; HoeffdingTree<T,F,L,1000,FN> m(vp_any_double(0.001,0.999),s); life<T,F,L>(m,n); }
template<class T,int TR,int F,int L> static void mondrian(int n){ MondrianForest<T,FN,TR,F,L,TR*3*(8*(7+2*F)+4*L)> m(vp_any_double(0,10),0.1,1); life<T,F,L>(m,n); }
template<class T,int TR,int F,int L> static void unbound(int n){ MondrianForestUnbound<T,FN,F,L> m(vp_any_double(0,10),0.1,1,TR); life<T,F,L>(m,n); }
template<class T,int TR,int F,int L> static void coarse(int n,int et){ CoarseMondrianForest<T,FN,ErrorMetrics<false>,F,L,TR*(4*(8*(8+2*F)+4*L)+56)> m(vp_any_double(0,10),0.1,1,TR,PHOENIX_MANAGEMENT,NODE_SIZE,-1,0,false,0,0,1.0,true,true,1.0,1.0,SPLIT_HELPER_NONE,et,TRIM_NONE); life<T,F,L>(m,n); }
// asked after any number of trainings
template<class T,int F,int L> static void bayes_any(){ NaiveBayes<T,L,F,FN> m; while(vp_any_bool()){ vp_merge(); T x[F]; any<T,F>(x); m.train(x,vp_split(vp_any_int(0,L-1)),vp_any_double(0.001,1000)); } vp_merge(); ask<T,F,L>(m); vp_reach("asked"); }
SCN scn_C15_bayes_any(){ bayes_any<double,1,2>(); }
SCN scn_C15_bayes_any_l3(){ bayes_any<float,2,3>(); }
SCN scn_C15_bayes_l1(){ bayes<double,1,1>(3); }
SCN scn_C15_bayes_l2(){ bayes<double,1,2>(3); }
SCN scn_C15_bayes_l3(){ bayes<double,2,3>(2); }
SCN scn_C15_tree_l2(){ tree<double,1,2>(2,2); }
SCN scn_C15_tree_l3(){ tree<double,1,3>(2,2); }
SCN scn_C15_mondrian_l1(){ mondrian<double,1,1,1>(2); }
SCN scn_C15_mondrian_l2(){ mondrian<double,1,1,2>(2); }
SCN scn_C15_mondrian_l3(){ mondrian<double,1,1,3>(2); }
SCN scn_C15_mondrian_t2(){ mondrian<double,2,1,2>(2); }
SCN scn_C15_unbound_l1(){ unbound<double,1,1,1>(2); }
SCN scn_C15_unbound_l2(){ unbound<double,1,1,2>(2); }
SCN scn_C15_unbound_l3(){ unbound<double,1,1,3>(1); }
SCN scn_C15_unbound_t2(){ unbound<double,2,1,2>(1); }
SCN scn_C15_coarse_l1(){ coarse<double,1,1,1>(2,EXTEND_ORIGINAL); }
SCN scn_C15_coarse_l2(){ coarse<double,1,1,2>(2,EXTEND_ORIGINAL); }
SCN scn_C15_coarse_l3(){ coarse<double,1,1,3>(2,EXTEND_ORIGINAL); }
SCN scn_C15_coarse_t2(){ coarse<double,2,1,2>(2,EXTEND_ORIGINAL); }
// two labels given, the third never: the best of three scores
template<class T,int L,class M> static void best(M& m,int a,int b){ T x[1]; any<T,1>(x); m.train(x,a); any<T,1>(x); m.train(x,b); any<T,1>(x); double s[L]; int p=m.predict(x,s); vp_assert(p>=0&&p<L,"the predicted label is out of range"); for(int l=0;l<L;l++) vp_assert(!(s[l]>s[p]),"the predicted label does not have the highest score"); vp_reach("best"); }
SCN scn_C15_unbound_best(){ MondrianForestUnbound<double,FN,1,3> m(1,0.1,1,1); int k=vp_split(vp_any_int(0,2)); best<double,3>(m,k,(k+2)%3); }
SCN scn_C15_mondrian_best(){ MondrianForest<double,FN,1,1,3,600> m(1,0.1,1); int k=vp_split(vp_any_int(0,2)); best<double,3>(m,k,(k+2)%3); }
SCN scn_C15_coarse_best(){ CoarseMondrianForest<double,FN,ErrorMetrics<false>,1,3,800> m(1,0.1,1,1,PHOENIX_MANAGEMENT,NODE_SIZE,-1,0,false,0,0,1.0,true,true,1.0,1.0,SPLIT_HELPER_NONE,EXTEND_ORIGINAL,TRIM_NONE); int k=vp_split(vp_any_int(0,2)); best<double,3>(m,k,(k+2)%3); }
SCN scn_C15_bayes_best(){ NaiveBayes<double,3,1,FN> m; int k=vp_split(vp_any_int(0,2)); best<double,3>(m,k,(k+2)%3); }
SCN scn_C15_tree_best(){ int z[1]={2}; HoeffdingTree<double,1,3,1000,FN> m(0.1,z); int k=vp_split(vp_any_int(0,2)); best<double,3>(m,k,(k+2)%3); }
// the clusters answer a label that was given, or the documented empty class
template<class T,int F,int C,int EMPTY> static void clusters(int steps){ MCNN<T,F,C,EMPTY> m(vp_split(vp_any_int(1,3)),vp_split(vp_any_int(0,2)),vp_any_double(0,100)); T x[F]; any<T,F>(x); vp_assert(m.predict(x)==EMPTY,"a label is answered although nothing was trained"); int n=0; vp_track(&n,sizeof n);
	while(n<steps&&vp_any_bool()){ vp_merge(); n++; any<T,F>(x); m.train(x,vp_split(vp_any_int(0,2))); any<T,F>(x); int p=m.predict(x); vp_assert(p==EMPTY||(p>=0&&p<3),"the predicted label is out of range"); } vp_reach("asked"); }
SCN scn_C15_clusters(){ clusters<double,1,3,-7>(4); }
SCN scn_C15_clusters_f2(){ clusters<float,2,2,-1>(4); }
SCN thr_C15_tree_n3(){ tree<double,1,2>(4,3); }
SCN thr_C15_mondrian_n3(){ mondrian<double,1,1,2>(3); }
SCN thr_C15_coarse_n3(){ coarse<double,1,1,2>(3,EXTEND_ORIGINAL); }
