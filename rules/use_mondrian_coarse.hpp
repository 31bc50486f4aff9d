#include "mondrian_coarse.hpp"
namespace use_mc { struct Fn { static double exp(double); static double log(double); static double rand_uniform(); }; typedef CoarseMondrianForest<double,Fn,ErrorMetrics<false>,2,2,5000> M; typedef CoarseMondrianForest<int,Fn,KappaMetrics<3>,3,3,8000> K; typedef CoarseMondrianForest<double,Fn,NoMetrics,1,2,3000> N; }
template class CoarseMondrianForest<double,use_mc::Fn,ErrorMetrics<false>,2,2,5000>; template class CoarseMondrianForest<int,use_mc::Fn,KappaMetrics<3>,3,3,8000>; template class CoarseMondrianForest<double,use_mc::Fn,NoMetrics,1,2,3000>;
#ifdef VP_DEFINE_USER
double use_mc::Fn::exp(double d){ return d; } double use_mc::Fn::log(double d){ return d; } double use_mc::Fn::rand_uniform(){ return 0.5; }
#endif
