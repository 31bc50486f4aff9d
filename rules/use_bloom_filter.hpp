// uses every public operation of BloomFilter; Q(...) are the queries, O(...) everything else
#include "bloom_filter.hpp"
namespace use_bloom {
typedef BloomFilter<int,25,2> F; typedef BloomFilter<double,64,1> G; typedef BloomFilter<unsigned char,1,3> K;
}
template class BloomFilter<int,25,2>; template class BloomFilter<double,64,1>; template class BloomFilter<unsigned char,1,3>;
extern "C" {
bool Q_bloom_lookup(use_bloom::F* f,int e){ return f->lookup(e); }
bool Q_bloom_lookup_ptr(use_bloom::F* f,int* e){ return f->lookup(e); }
bool Q_bloom_lookup_d(use_bloom::G* f,double e){ return f->lookup(e); }
void O_bloom_add(use_bloom::F* f,int e){ f->add(e); }
void O_bloom_add_ptr(use_bloom::F* f,int* e){ f->add(e); }
void O_bloom_clear(use_bloom::F* f){ f->clear(); }
void O_bloom_set(use_bloom::F* f,unsigned char* b){ f->set(b); }
void O_bloom_new(void* p,unsigned (**h)(int*)){ use_bloom::F f(h); (void)p; f.clear(); }
}
