#include "mondrian.hpp"
namespace use_mf { struct Fn { static double exp(double); static double log(double); static double rand_uniform(); }; typedef MondrianForest<double,Fn,3,2,2,5000> M; typedef MondrianForest<int,Fn,1,3,4,3000> I; }
template class MondrianForest<double,use_mf::Fn,3,2,2,5000>; template class MondrianForest<int,use_mf::Fn,1,3,4,3000>;
extern "C" {
int P_mf_predict(use_mf::M* m,double const* x){ return m->predict(x); }
int P_mf_predict_scores(use_mf::M* m,double const* x,double* s){ return m->predict(x,s); }
bool O_mf_train(use_mf::M* m,double const* x,int l){ return m->train(x,l); }
bool O_mf_train_i(use_mf::I* m,int const* x,int l){ return m->train(x,l); }
void O_mf_new(){ use_mf::M m(1,0.5,1); use_mf::I i(1,0.5,1); (void)m; (void)i; }
}
#ifdef VP_DEFINE_USER
double use_mf::Fn::exp(double d){ return d; } double use_mf::Fn::log(double d){ return d; } double use_mf::Fn::rand_uniform(){ return 0.5; }
#endif
