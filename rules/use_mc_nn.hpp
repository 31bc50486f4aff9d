#include "mc_nn.hpp"
namespace use_mcnn { typedef MCNN<double,2,4> M; typedef MCNN<int,3> I; typedef MCNN<float,1,10,-7> X; }
template class MCNN<double,2,4>; template class MCNN<int,3>; template class MCNN<float,1,10,-7>;
extern "C" {
int Q_mcnn_predict(use_mcnn::M* m,double const* x){ return m->predict(x); }
int Q_mcnn_predict_i(use_mcnn::I* m,int const* x){ return m->predict(x); }
int Q_mcnn_count(use_mcnn::M* m){ return m->count_clusters(); }
unsigned Q_mcnn_error(use_mcnn::M* m){ return m->get_error_thr(); }
double Q_mcnn_perf(use_mcnn::M* m){ return m->get_performance_thr(); }
bool O_mcnn_train(use_mcnn::M* m,double const* x,int l){ return m->train(x,l); }
bool O_mcnn_train_i(use_mcnn::I* m,int const* x,int l){ return m->train(x,l); }
void O_mcnn_new(){ use_mcnn::M m; use_mcnn::I i(3,1,20.0); use_mcnn::X x(2,0); (void)m; (void)i; (void)x; }
}
