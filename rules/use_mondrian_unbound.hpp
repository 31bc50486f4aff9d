#include "mondrian_unbound.hpp"
namespace use_mu { struct Fn { static double exp(double); static double log(double); static double rand_uniform(); }; typedef MondrianForestUnbound<double,Fn,2,2> M; typedef MondrianForestUnbound<int,Fn,3,4> I; }
template class MondrianForestUnbound<double,use_mu::Fn,2,2>; template class MondrianForestUnbound<int,use_mu::Fn,3,4>;
extern "C" {
int Q_mu_predict(use_mu::M* m,double const* x){ return m->predict(x); }
int Q_mu_predict_scores(use_mu::M* m,double const* x,double* s){ return m->predict(x,s); }
bool O_mu_train(use_mu::M* m,double const* x,int l){ return m->train(x,l); }
bool O_mu_train_i(use_mu::I* m,int const* x,int l){ return m->train(x,l); }
void O_mu_new(){ use_mu::M m(1,0.5,1,3); use_mu::I i(1,0.5,1,2); (void)m; (void)i; }
}
#ifdef VP_DEFINE_USER
double use_mu::Fn::exp(double d){ return d; } double use_mu::Fn::log(double d){ return d; } double use_mu::Fn::rand_uniform(){ return 0.5; }
#endif
