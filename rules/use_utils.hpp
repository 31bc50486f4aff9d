#include "utils.hpp"
namespace use_utils { struct Fn { static double exp(double); static double log(double); static double rand_uniform(); }; }
extern "C" {
int O_utils_pick(double const* p,int n){ return Utils::pick_from_distribution<use_utils::Fn>(p,n); }
void O_utils_turn(double* p,int n){ Utils::turn_array_into_probability(p,n); Utils::turn_array_into_probability(p,n,2.0); }
int O_utils_index_max(double* p,int n){ return Utils::index_max(p,n); }
double O_utils_exponential(double r){ return Utils::rand_exponential<use_utils::Fn>(r); }
double O_utils_values(double a,int b,int c){ return Utils::min(a,2.0)+Utils::max(b,c)+Utils::expm1<use_utils::Fn>(a)+Utils::div_int<int>(b,c)+Utils::abs(a)+Utils::abs(b)+Utils::round(a); }
void O_utils_shuffle(int* a,int n){ Utils::shuffle<use_utils::Fn>(a,n); }
}
#ifdef VP_DEFINE_USER
double use_utils::Fn::exp(double d){ return d; } double use_utils::Fn::log(double d){ return d; } double use_utils::Fn::rand_uniform(){ return 0.5; }
#endif
