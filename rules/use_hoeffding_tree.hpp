#include "hoeffding_tree.hpp"
namespace use_ht { struct Fn { static double log(double); static double log2(double); static double sqrt(double); static bool isnan(double); }; typedef HoeffdingTree<double,2,3,4000,Fn> H; typedef HoeffdingTree<int,1,2,2000,Fn> I; }
template class HoeffdingTree<double,2,3,4000,use_ht::Fn>; template class HoeffdingTree<int,1,2,2000,use_ht::Fn>;
extern "C" {
int Q_ht_predict(use_ht::H* h,double const* x){ return h->predict(x); }
int Q_ht_predict_scores(use_ht::H* h,double const* x,double* s){ return h->predict(x,s); }
bool Q_ht_root_leaf(use_ht::H* h){ return h->get_root()->is_leaf(); }
int Q_ht_root_predict(use_ht::H* h,double const* x,double* p){ return h->get_root()->predict(x,p); }
void Q_ht_root_gain(use_ht::H* h,double* out){ h->get_root()->compute_information_gain(out); }
bool O_ht_train(use_ht::H* h,double const* x,int l){ return h->train(x,l); }
int O_ht_root_train(use_ht::H* h,double const* x,int l,double* v){ return h->get_root()->train(x,l,*v); }
int O_ht_root_split(use_ht::H* h,int f,double v){ return h->get_root()->split(f,v); }
void O_ht_root_limits(use_ht::H* h,double const* l){ h->get_root()->set_limits(l); }
void O_ht_new(){ int const s[2]={4,6}; use_ht::H h(0.05,s); use_ht::I i(0.05,s); (void)h; (void)i; }
}
#ifdef VP_DEFINE_USER
double use_ht::Fn::log(double d){ return d; } double use_ht::Fn::log2(double d){ return d; } double use_ht::Fn::sqrt(double d){ return d; } bool use_ht::Fn::isnan(double){ return false; }
#endif
