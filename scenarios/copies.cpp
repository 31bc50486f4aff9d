// copies carry the whole state (C24)
#include "vp.h"
#include <new>
#include <cstdlib>
#include "bloom_filter.hpp"
#include "cuckoo_filter.hpp"
#include "reservoir_sampling.hpp"
#include "chained_reservoir.hpp"
#include "ltc.hpp"
#include "naive_bayes.hpp"
#include "perceptron.hpp"
#include "metrics.hpp"
#include "mc_nn.hpp"
#include "hoeffding_tree.hpp"
#include "mondrian.hpp"
#include "mondrian_unbound.hpp"
#include "mondrian_coarse.hpp"
static double rnd(){ return vp_any_double(0,1); }
struct FN { static unsigned int hash(int const& x){ return x; } static unsigned int fingerprint(int const& x){ return x; }  static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } static bool isnan(double x){ return std::isnan(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } static double random(){ return vp_any_double(0,1); } static void* malloc(unsigned n){ return std::malloc(n); } static double activation(double x){ return x; } static double derivative(double x){ return x; } };
template<class T> union Mem { T o; char c; Mem(){} ~Mem(){} };
template<class T,bool C=std::is_copy_constructible<T>::value> struct CopyC { static void run(){} };
template<class T> struct CopyC<T,true> { static void run(){ Mem<T> a,b,c; vp_fill<T>(&a.o); __builtin_memcpy((void*)&c.o,(void*)&a.o,sizeof(T)); vp_uninit(&b.o,sizeof(T)); new(&b.o) T(static_cast<T const&>(a.o)); vp_assert(vp_same_object<T>(&a.o,&c.o),"copying an object changes it"); vp_assert(vp_same_object<T>(&a.o,&b.o),"a member is lost when an object is copied"); vp_reach("copied"); } };
template<class T,bool C=std::is_copy_assignable<T>::value> struct CopyA { static void run(){} };
template<class T> struct CopyA<T,true> { static void run(){ Mem<T> a,b,c; vp_fill<T>(&a.o); vp_fill<T>(&b.o); __builtin_memcpy((void*)&c.o,(void*)&a.o,sizeof(T)); b.o=static_cast<T const&>(a.o); vp_assert(vp_same_object<T>(&a.o,&c.o),"assigning from an object changes it"); vp_assert(vp_same_object<T>(&a.o,&b.o),"a member is lost when an object is assigned"); a.o=static_cast<T const&>(a.o); vp_assert(vp_same_object<T>(&a.o,&c.o),"assigning an object to itself changes it"); vp_reach("assigned"); } };
template<class T> void copies(){ CopyC<T>::run(); CopyA<T>::run(); }
SCN scn_C24_metrics(){ copies<ErrorMetrics<true>>(); copies<ErrorMetrics<false>>(); copies<KappaMetrics<1,false>>(); copies<KappaMetrics<2,true>>(); copies<KappaMetrics<3,false>>(); copies<ReservoirSamplingMetrics>(); copies<NoMetrics>(); }
SCN scn_C24_filters(){ copies<BloomFilter<int,12,2>>(); copies<CuckooFilter<int,2,2,4,FN,rnd>>(); copies<ReservoirSampling<int,3,FN>>(); copies<ExponentialReservoirSampling<double,3,FN>>(); copies<LTC<double,double,1>>(); copies<LTC<int,int,1>>(); }
SCN scn_C24_classifiers(){ copies<NaiveBayes<double,2,3,FN>>(); copies<NaiveBayes<float,3,1,FN>>(); copies<MultiLayerPerceptron<3,200,FN>>(); copies<MCNN<double,2,3>>(); copies<MCNN<int,1,2>>(); copies<HoeffdingTree<double,2,2,2000,FN>>(); }
SCN scn_C24_forests(){ copies<MondrianForest<double,FN,2,1,2,400>>(); copies<CoarseMondrianForest<double,FN,ErrorMetrics<false>,1,2,400>>(); copies<CoarseMondrianForest<double,FN,KappaMetrics<2>,1,2,400>::TreeBase>(); copies<MondrianNode<1,2>>(); copies<MondrianNode<2,1>>(); copies<MondrianNode<3,3>>(); }
#ifdef VP_WHITE
SCN scn_C24_nodes(){ copies<MondrianForest<double,FN,2,1,2,400>::Node>(); copies<MondrianForest<double,FN,2,2,1,400>::Node>(); copies<MondrianForest<float,FN,2,3,3,400>::Node>(); copies<MCNN<double,1,3>::cluster>(); copies<MCNN<double,2,3>::cluster>(); copies<MCNN<float,3,3>::cluster>(); copies<MCNN<int,2,3>::cluster>(); copies<NaiveBayes<double,2,2,FN>::GaussianEstimator>(); }
#endif
// an object that owns memory: its copies must not share it
template<class T,bool C=std::is_copy_constructible<T>::value> struct OwnerC { template<class F,class G> static void run(F&&,G&&){ vp_reach("cannot be copied"); } };
template<class T> struct OwnerC<T,true> { template<class F,class G> static void run(F&& make,G&& use){ vp_reach("copied"); T a(make()); use(a); { T b(static_cast<T const&>(a)); use(b); } use(a); } };
template<class T,bool C=std::is_copy_assignable<T>::value> struct OwnerA { template<class F,class G> static void run(F&&,G&&){ vp_reach("cannot be copied"); } };
template<class T> struct OwnerA<T,true> { template<class F,class G> static void run(F&& make,G&& use){ vp_reach("copied"); T a(make()); use(a); { T c(make()); use(c); c=static_cast<T const&>(a); use(c); } use(a); } };
typedef MondrianForestUnbound<double,FN,1,2> U;
SCN scn_C24_owner_unbound(){ auto make=[]{ return U(1.0,0.1,1.0,1); }; auto use=[](auto& m){ for(int i=0;i<2;i++){ double x[1]={vp_any_double(-1,1)}; m.train(x,i); m.predict(x); } }; OwnerC<U>::run(make,use); OwnerA<U>::run(make,use); }
#ifdef VP_WHITE
template<class R> static int chain(R& r,int* out){ int n=0; for(unsigned i=0;i<2;i++) for(auto* q=&r.sample[i];q&&n<20;q=q->next){ out[n++]=q->timestamp; out[n++]=q->timestamp?q->element:0; } return n; }
template<class T> void separate(T& a,T& b,int* p,int n){ int q[24]; for(int i=5;i<8;i++) b.add(10+i,i); int k=chain(a,q); vp_assert(n==k,"adding to a copy of a reservoir changes the chains of the original"); for(int i=0;i<k&&i<n;i++) vp_assert(p[i]==q[i],"adding to a copy of a reservoir changes the elements of the original"); }
template<class T,bool C=std::is_copy_constructible<T>::value> struct ChainC { static void run(){ vp_reach("cannot be copied"); } };
template<class T> struct ChainC<T,true> { static void run(){ vp_reach("copied"); T a; for(int i=1;i<5;i++) a.add(10+i,i); T b(static_cast<T const&>(a)); int p[24]; int n=chain(a,p); separate(a,b,p,n); } };
template<class T,bool C=std::is_copy_assignable<T>::value> struct ChainA { static void run(){ vp_reach("cannot be copied"); } };
template<class T> struct ChainA<T,true> { static void run(){ vp_reach("copied"); T a,b; for(int i=1;i<5;i++) a.add(10+i,i); b=static_cast<T const&>(a); int p[24]; int n=chain(a,p); separate(a,b,p,n); } };
typedef ChainedReservoirSampling<int,2,FN> CR;
SCN scn_C24_owner_chain(){ ChainC<CR>::run(); ChainA<CR>::run(); }
#endif
