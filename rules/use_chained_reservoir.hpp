#include "chained_reservoir.hpp"
namespace use_chained {
struct Fn { static double random(); static void* malloc(unsigned n); };
typedef ChainedReservoirSampling<int,4,Fn> R; typedef ChainedReservoirSampling<double,1,Fn> D;
}
template class ChainedReservoirSampling<int,4,use_chained::Fn>; template class ChainedReservoirSampling<double,1,use_chained::Fn>;
extern "C" {
int Q_chained_get(use_chained::R* r,unsigned i){ return (*r)[i]; }
void O_chained_add(use_chained::R* r,int e,unsigned t){ r->add(e,t); }
void O_chained_obsolete(use_chained::R* r,unsigned t){ r->obsolete(t); }
void O_chained_new(){ use_chained::R r; use_chained::D d; r.add(1,1); d.add(1,1); }
}
#ifdef VP_DEFINE_USER
double use_chained::Fn::random(){ return 0.5; } void* use_chained::Fn::malloc(unsigned){ return 0; }
#endif
