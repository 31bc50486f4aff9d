// Size witnesses (C23): every assertion must hold for the tree to be accepted.
#include "bloom_filter.hpp"
#include "cuckoo_filter.hpp"
#include "reservoir_sampling.hpp"
#include "mc_nn.hpp"
#include "perceptron.hpp"
#include "hoeffding_tree.hpp"
#include "mondrian.hpp"
#include "mondrian_coarse.hpp"
#include "naive_bayes.hpp"
#include "metrics.hpp"
#include "ltc.hpp"
struct Fn { static double exp(double); static double log(double); static double log2(double); static double rand_uniform(); static double random(); static int floor(double); static double sqrt(double); static bool isnan(double); static double activation(double); static double derivative(double); };
struct CF { static unsigned char fingerprint(int const*); static unsigned hash(int const*); static unsigned hash(unsigned char); };
struct CS { static unsigned short fingerprint(int const*); static unsigned hash(int const*); static unsigned hash(unsigned short); };
double rnd();
struct Big { double a[5]; char b; };
// SIZE <= DATA + FIXED, where DATA is what the template parameters ask for
#define FITS(T, DATA, FIXED, WHERE) static_assert(sizeof(T) <= (DATA) + (FIXED), WHERE ": the object is larger than the size asked for plus a fixed overhead")
template<int N,int H> struct Bloom { typedef BloomFilter<int,N,H> T; FITS(T, (N+7)/8, 8*H+16, "bloom_filter.hpp"); static const bool ok=true; };
template<int B,int S,int E> struct Cuckoo { typedef CuckooFilter<int,B,S,E,CF,rnd> T; FITS(T, (B*S*E+7)/8, 16, "cuckoo_filter.hpp"); static const bool ok=true; };
template<int B,int S,int E> struct Cuckoo2 { typedef CuckooFilter<int,B,S,E,CS,rnd> T; FITS(T, (B*S*E+7)/8, 16, "cuckoo_filter.hpp"); static const bool ok=true; };
template<class V,unsigned N> struct Res { typedef ReservoirSampling<V,N,Fn> T; FITS(T, N*sizeof(V), 16+alignof(V), "reservoir_sampling.hpp"); typedef ExponentialReservoirSampling<V,N,Fn> X; FITS(X, N*sizeof(V), 16+alignof(V), "reservoir_sampling.hpp"); static const bool ok=true; };
template<class V,unsigned F,unsigned C> struct Mc { typedef MCNN<V,F,C> T; typedef MCNN<V,F,2*C> D; FITS(T, C*(2*F*sizeof(V)+64), 64, "mc_nn.hpp"); static_assert(sizeof(D)-sizeof(T) <= C*(2*F*sizeof(V)+64), "mc_nn.hpp: more than max_cluster clusters are kept"); static const bool ok=true; };
template<int L,int M> struct Mlp { typedef MultiLayerPerceptron<L,M,Fn> T; FITS(T, M, 4*L+48, "perceptron.hpp"); static const bool ok=true; };
template<class V,int F,int L,int M> struct Ht { typedef HoeffdingTree<V,F,L,M,Fn> T; FITS(T, M, 4*F+64, "hoeffding_tree.hpp"); static const bool ok=true; };
template<class V,int R,int F,int L,int M> struct Mf { typedef MondrianForest<V,Fn,R,F,L,M> T; FITS(T, M, 4*R+64, "mondrian.hpp"); static const bool ok=true; };
template<class V,class S,int F,int L,int M> struct Mc2 { typedef CoarseMondrianForest<V,Fn,S,F,L,M> T; FITS(T, M, 8*F+256, "mondrian_coarse.hpp"); static const bool ok=true; };
template<int L,int F> struct Nb { typedef NaiveBayes<double,L,F,Fn> T; FITS(T, (size_t)L*(8+F*32), 64, "naive_bayes.hpp"); static const bool ok=true; };
template<int L> struct Ka { typedef KappaMetrics<L> T; FITS(T, (size_t)L*L*8, 32, "metrics.hpp"); static const bool ok=true; };
static_assert(Bloom<1,1>::ok && Bloom<7,2>::ok && Bloom<8,1>::ok && Bloom<9,3>::ok && Bloom<64,2>::ok && Bloom<1000,1>::ok && Bloom<8001,4>::ok && Bloom<1000000,2>::ok, "");
static_assert(Cuckoo<2,1,1>::ok && Cuckoo<4,2,8>::ok && Cuckoo<8,3,5>::ok && Cuckoo<64,4,7>::ok && Cuckoo<1024,4,8>::ok && Cuckoo2<16,4,12>::ok && Cuckoo2<512,2,16>::ok && Cuckoo2<4096,5,9>::ok, "");
static_assert(Res<int,1>::ok && Res<int,100>::ok && Res<double,17>::ok && Res<Big,33>::ok && Res<char,1000>::ok, "");
static_assert(Mc<double,2,4>::ok && Mc<int,3,25>::ok && Mc<float,1,100>::ok && Mc<double,20,50>::ok && Mc<short,5,7>::ok, "");
static_assert(Mlp<2,64>::ok && Mlp<3,1000>::ok && Mlp<5,4096>::ok && Mlp<2,17>::ok && Mlp<8,100000>::ok, "");
static_assert(Ht<double,1,2,600>::ok && Ht<double,2,3,4000>::ok && Ht<int,5,10,20000>::ok && Ht<float,3,2,1999>::ok, "");
static_assert(Mf<double,1,1,2,600>::ok && Mf<double,1,1,2,8000>::ok && Mf<double,2,4,4,136*20>::ok && Mf<double,10,2,3,5000>::ok && Mf<int,50,12,20,100000>::ok && Mf<float,3,2,2,1999>::ok, "");
static_assert(Mc2<double,NoMetrics,1,2,600>::ok && Mc2<double,ErrorMetrics<false>,2,3,5000>::ok && Mc2<double,KappaMetrics<20>,12,20,100000>::ok, "");
static_assert(Nb<2,1>::ok && Nb<10,20>::ok && Nb<100,3>::ok, "");
static_assert(Ka<2>::ok && Ka<10>::ok && Ka<50>::ok, "");
