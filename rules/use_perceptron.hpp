#include "perceptron.hpp"
namespace use_mlp { struct Fn { static double random(); static double activation(double); static double derivative(double); }; typedef MultiLayerPerceptron<3,1000,Fn> P; typedef MultiLayerPerceptron<2,64,Fn> S; }
template class MultiLayerPerceptron<3,1000,use_mlp::Fn>; template class MultiLayerPerceptron<2,64,use_mlp::Fn>;
extern "C" {
double* Q_mlp_get_weights(use_mlp::P* p){ return p->get_weights(); }
void O_mlp_forward(use_mlp::P* p,double const* in,double* out){ p->feed_forward(in,out); }
void O_mlp_set_neuron(use_mlp::P* p,int l,int n,double* w){ p->set_weights(l,n,w); }
void O_mlp_set_layer(use_mlp::P* p,int l,double* w){ p->set_weights(l,w); }
void O_mlp_set_all(use_mlp::P* p,double* w){ p->set_weights(w); }
double O_mlp_backpropagate(use_mlp::P* p,double const* e){ return p->backpropagate(e); }
void O_mlp_new(int const* s){ use_mlp::P p(s); use_mlp::S q(s,0.5); (void)p; (void)q; }
}
#ifdef VP_DEFINE_USER
double use_mlp::Fn::random(){ return 0.5; } double use_mlp::Fn::activation(double d){ return d; } double use_mlp::Fn::derivative(double d){ return d; }
#endif
