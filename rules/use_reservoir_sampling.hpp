#include "reservoir_sampling.hpp"
namespace use_reservoir {
struct Fn { static double random(); static int floor(double); };
struct Item { int a; double b; };
typedef ReservoirSampling<int,5,Fn> R; typedef ExponentialReservoirSampling<int,5,Fn> X; typedef ReservoirSampling<Item,3,Fn> I;
}
template class ReservoirSampling<int,5,use_reservoir::Fn>; template class ExponentialReservoirSampling<int,5,use_reservoir::Fn>;
template class ReservoirSampling<use_reservoir::Item,3,use_reservoir::Fn>; template class ExponentialReservoirSampling<use_reservoir::Item,1,use_reservoir::Fn>;
template class Reservoir<int,5>;
extern "C" {
unsigned Q_reservoir_count(use_reservoir::R* r){ return r->count(); }
unsigned Q_reservoir_xcount(use_reservoir::X* r){ return r->count(); }
int Q_reservoir_get(use_reservoir::R* r,unsigned i){ return (*r)[i]; }
int Q_reservoir_xget(use_reservoir::X* r,unsigned i){ return (*r)[i]; }
int O_reservoir_add(use_reservoir::R* r,int e){ return r->add(e); }
int O_reservoir_xadd(use_reservoir::X* r,int e){ return r->add(e); }
int O_reservoir_iadd(use_reservoir::I* r,use_reservoir::Item const* e){ return r->add(*e); }
int O_reservoir_index(use_reservoir::R* r){ return r->sample_index(); }
int O_reservoir_xindex(use_reservoir::X* r){ return r->sample_index(); }
void O_reservoir_new(){ use_reservoir::R r; use_reservoir::X x; use_reservoir::I i; (void)r.count(); (void)x.count(); (void)i; }
}
#ifdef VP_DEFINE_USER
double use_reservoir::Fn::random(){ return 0.5; } int use_reservoir::Fn::floor(double d){ return (int)d; }
#endif
