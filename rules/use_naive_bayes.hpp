#include "naive_bayes.hpp"
namespace use_nb { struct Fn { static double log(double); static double sqrt(double); }; typedef NaiveBayes<double,3,2,Fn> N; typedef NaiveBayes<int,1,1,Fn> I; }
template class NaiveBayes<double,3,2,use_nb::Fn>; template class NaiveBayes<int,1,1,use_nb::Fn>;
extern "C" {
int Q_nb_predict(use_nb::N* n,double* x){ return n->predict(x); }
int Q_nb_predict_scores(use_nb::N* n,double* x,double* s){ return n->predict(x,s); }
double Q_nb_smoothing(use_nb::N* n){ return n->get_smoothing(); }
bool O_nb_train(use_nb::N* n,double const* x,int l){ return n->train(x,l); }
bool O_nb_train_weight(use_nb::N* n,double const* x,int l,double w){ return n->train(x,l,w); }
void O_nb_set_smoothing(use_nb::N* n,double s){ n->set_smoothing(s); }
void O_nb_new(){ use_nb::N n; use_nb::I i(0.1); (void)n; (void)i; }
}
#ifdef VP_DEFINE_USER
double use_nb::Fn::log(double d){ return d; } double use_nb::Fn::sqrt(double d){ return d; }
#endif
