#include "cuckoo_filter.hpp"
namespace use_cuckoo {
struct Fn { static unsigned char fingerprint(int const* e); static unsigned hash(int const* e); static unsigned hash(unsigned char fp); };
struct Gn { static unsigned short fingerprint(double const* e); static unsigned hash(double const* e); static unsigned hash(unsigned short fp); };
double rnd();
typedef CuckooFilter<int,4,2,8,Fn,rnd> F; typedef CuckooFilter<double,8,3,11,Gn,rnd,5> G;
}
template class CuckooFilter<int,4,2,8,use_cuckoo::Fn,use_cuckoo::rnd>; template class CuckooFilter<double,8,3,11,use_cuckoo::Gn,use_cuckoo::rnd,5>;
extern "C" {
bool Q_cuckoo_lookup(use_cuckoo::F* f,int e){ return f->lookup(e); }
bool Q_cuckoo_lookup_ptr(use_cuckoo::F* f,int const* e){ return f->lookup(e); }
bool Q_cuckoo_lookup_g(use_cuckoo::G* f,double e){ return f->lookup(e); }
bool O_cuckoo_add(use_cuckoo::F* f,int e){ return f->add(e); }
bool O_cuckoo_add_ptr(use_cuckoo::F* f,int const* e){ return f->add(e); }
bool O_cuckoo_add_g(use_cuckoo::G* f,double e){ return f->add(e); }
void O_cuckoo_remove(use_cuckoo::F* f,int e){ f->remove(e); }
void O_cuckoo_remove_ptr(use_cuckoo::F* f,int const* e){ f->remove(e); }
void O_cuckoo_clear(use_cuckoo::F* f){ f->clear(); }
void O_cuckoo_new(){ use_cuckoo::F f; use_cuckoo::G g; f.clear(); g.clear(); }
}
#ifdef VP_DEFINE_USER
unsigned char use_cuckoo::Fn::fingerprint(int const*){ return 1; } unsigned use_cuckoo::Fn::hash(int const*){ return 1; } unsigned use_cuckoo::Fn::hash(unsigned char){ return 1; }
unsigned short use_cuckoo::Gn::fingerprint(double const*){ return 1; } unsigned use_cuckoo::Gn::hash(double const*){ return 1; } unsigned use_cuckoo::Gn::hash(unsigned short){ return 1; }
double use_cuckoo::rnd(){ return 0.5; }
#endif
