#include "ltc.hpp"
namespace use_ltc { typedef LTC<int,int,2,32767,-32768> L; typedef LTC<double,unsigned,1,1000,-1000,10> D; }
template class LTC<int,int,2,32767,-32768>; template class LTC<double,unsigned,1,1000,-1000,10>; template class LTC<float,long,0,100,-100>;
extern "C" {
void Q_ltc_get(use_ltc::L* l,int* t,int* v){ l->get_value_to_transmit(*t,*v); }
void Q_ltc_getd(use_ltc::D* l,unsigned* t,double* v){ l->get_value_to_transmit(*t,*v); }
int O_ltc_add(use_ltc::L* l,int t,int v){ return l->add(t,v); }
int O_ltc_addd(use_ltc::D* l,unsigned t,double v){ return l->add(t,v); }
void O_ltc_new(){ use_ltc::L l; l.add(0,1); }
}
