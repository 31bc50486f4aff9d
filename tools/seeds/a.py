H='''
#include <cstdio>
#include <cstdlib>
#define CHECK(c) do{ if(!(c)){ std::printf("FAILED %s (line %d)\\n",#c,__LINE__); return 1; } }while(0)
'''
seed('c01-clear-tail','C01',[('bloom_filter.hpp','		for(int i = 0; i < real_size; ++i)\n			bits[i] = 0;','		for(int i = 0; i < real_size - 1; ++i)\n			bits[i] = 0;')],H+'''
#include "bloom_filter.hpp"
static unsigned h0(int* e){ return *e; }
typedef unsigned int (*hf)(int*);
int main(){ hf h[1]={h0}; BloomFilter<int,20,1> f(h); for(int i=0;i<20;i++){ f.add(i); } f.clear(); for(int i=0;i<20;i++) CHECK(!f.lookup(i)); 
 unsigned char bits[20]={0}; f.set(bits); for(int i=0;i<20;i++) CHECK(!f.lookup(i)); return 0; }
''','an element whose bit lies in the last byte, then clear() or set()','clear() leaves the last byte of the filter, so a cleared filter answers true')
seed('c01-early-exit','C01',[('bloom_filter.hpp','			set_bit_to_one(hashs[i](element));','			if(get_bit(hashs[i](element)) == 0)\n				set_bit_to_one(hashs[i](element));\n			else if(hash_count > 1 && i + 1 < hash_count && get_bit(hashs[i + 1](element)) == 0)\n				break; //The element is already there')],H+'''
#include "bloom_filter.hpp"
static unsigned h0(int* e){ return *e%3; } static unsigned h1(int* e){ return 3+*e; }
typedef unsigned int (*hf)(int*);
int main(){ hf h[2]={h0,h1}; BloomFilter<int,20,2> f(h); f.add(1); f.add(4); CHECK(f.lookup(1)); CHECK(f.lookup(4)); return 0; }
''','two elements that share the bit of one hash function but not of the next','an element whose first bit is already set is taken for present and not added')
seed('c02-half-random','C02',[('cuckoo_filter.hpp','auto space_h = a > 0.5 ? space_h1 : space_h2;','auto space_h = a >= 0.5 ? space_h1 : space_h2;')],H+'''
#include "cuckoo_filter.hpp"
// element 0 has bucket 1 only, element 1 the buckets 0 and 1
struct F { static unsigned char fingerprint(int const* e){ return *e+1; } static unsigned hash(int const* e){ return *e==0?1:0; } static unsigned hash(unsigned char fp){ return fp==2?1:0; } };
static double rnd(){ return 0.5; }
int main(){ CuckooFilter<int,2,2,8,F,rnd> f; CHECK(f.add(0)); CHECK(f.lookup(0)); CHECK(f.add(1)); CHECK(f.lookup(1)); CHECK(f.lookup(0)); return 0; }
''','the random function returns exactly 0.5 while the two candidate buckets have their free slots at different places','add() writes into a slot of the other bucket that is in use, losing an earlier element')
seed('c03-remove-all','C03',[('cuckoo_filter.hpp','		bool ret = search(e, bucket_index, entry_index);\n		if(ret){','		while(search(e, bucket_index, entry_index)){')],H+'''
#include "cuckoo_filter.hpp"
struct F { static unsigned char fingerprint(int const* e){ return 7; } static unsigned hash(int const* e){ return *e&3; } static unsigned hash(unsigned char fp){ return 1; } };
static double rnd(){ return 0.3; }
int main(){ CuckooFilter<int,4,2,8,F,rnd> f; CHECK(f.add(0)); CHECK(f.add(1)); CHECK(f.lookup(0)&&f.lookup(1)); f.remove(0); CHECK(f.lookup(1)); f.remove(1); CHECK(!f.lookup(1)); return 0; }
''','two stored elements share fingerprint and buckets, or one was added twice','remove() takes away every copy of the fingerprint instead of one')
seed('c04-exp-count','C04',[('reservoir_sampling.hpp','			index = counter;\n			counter += 1;','			index = counter;\n			counter += (counter + 1 < sample_size) ? 1 : 0;')],H+'''
#include <cmath>
#include "reservoir_sampling.hpp"
struct F { static double random(){ return 0.99; } static int floor(double d){ return (int)std::floor(d); } };
int main(){ ExponentialReservoirSampling<int,3,F> r; for(int i=0;i<3;i++){ CHECK(r.add(i)==i); CHECK(r.count()==(unsigned)i+1); } return 0; }
''','filling the very last slot of an exponential reservoir','the last slot is never counted as filled')
seed('c05-no-successor','C05',[('chained_reservoir.hpp','					do_shift = false;\n','					do_shift = current != &head;\n')],H+'''
#include <cassert>
#include <cstddef>
#include "chained_reservoir.hpp"
struct F { static double random(){ return 0; } static void* malloc(unsigned n){ return std::malloc(n); } };
int main(){ ChainedReservoirSampling<int,2,F> r; // every later element is chained behind the slot whose turn it is
 r.add(10,1); r.add(20,2); r.add(30,3); r.add(40,4); r.add(50,5); int a=r[0], b=r[1]; r.obsolete(100); CHECK(r[0]==a); CHECK(r[1]==b); return 0; }
''','obsolete() with a timestamp newer than a whole chain of at least two elements','a slot without newer successor shows another obsolete element instead of keeping its own')
seed('c06-low-limit','C06',[('ltc.hpp','if(old_low_deriva > new_low_deriva)','if(old_low_deriva > new_up_deriva)')],H+'''
#include <cassert>
#include "ltc.hpp"
int main(){ LTC<double,int,5> l; CHECK(!l.add(0,0)); CHECK(!l.add(10,0)); CHECK(!l.add(11,-8)); CHECK(l.add(20,-17)); return 0; }
''','a later point whose own lower limit is looser than the current cone, then a point below the cone','the lower limit of the cone is widened, so a point outside epsilon does not close the segment')
seed('c07-recycled-label','C07',[('mc_nn.hpp','				int la = clusters[new_idx].label;\n				clusters[new_idx].initialize(features, label, timestamp, error_thr);','				int const la = clusters[new_idx].data_count > 1 ? clusters[new_idx].label : label;\n				clusters[new_idx].initialize(features, la, timestamp, error_thr);')],H+'''
#include "mc_nn.hpp"
int main(){ MCNN<double,1,1> m(50,0); double x[1]={0}; m.train(x,0); m.train(x,0); m.train(x,0); x[0]=100; CHECK(m.train(x,1)); CHECK(m.predict(x)==1); return 0; }
''','all clusters in use and the one that gives way holds several points','the replacement cluster keeps the label of the cluster it replaced')
seed('c07-count-slot','C07',[('mc_nn.hpp','					count_active_cluster += 1;\n					clusters[i].initialize(features, label, timestamp, error_thr);','					count_active_cluster = i + 1;\n					clusters[i].initialize(features, label, timestamp, error_thr);')],H+'''
#include "mc_nn.hpp"
int main(){ static MCNN<double,1,4> m(50,1,20); double a[1]={0},b[1]={1000},c[1]={500}; m.train(b,1); m.train(b,1); for(int i=0;i<12;i++) m.train(a,0); CHECK(m.count_clusters()==1); m.train(c,2); CHECK(m.count_clusters()==2); return 0; }
''','a cluster is removed for its low participation and its slot used again','the number of clusters reported is the slot number instead of the number of clusters in use')
seed('c08-total-weight','C08',[('naive_bayes.hpp','total_weights += weight;','total_weights += weight > 1.0 ? 1.0 : weight;')],H+'''
#include <cmath>
#include "naive_bayes.hpp"
struct F { static double log(double d){ return std::log(d); } static double sqrt(double d){ return std::sqrt(d); } };
int main(){ NaiveBayes<double,2,1,F> m; double x[1]={1}, y[1]={2}; m.train(x,0,3); m.train(y,1,1); double s[2]; m.predict(x,s); CHECK(std::fabs(s[0]-std::log(0.75))<1e-9); return 0; }
''','training with a weight above one','the total weight is no longer the sum of the label weights, so the priors are wrong')
seed('c09-layer-weights','C09',[('perceptron.hpp','for(int i = 0; i < (layer_size[layer_idx-1]+1) * layer_size[layer_idx]; ++i)','for(int i = 0; i < layer_size[layer_idx-1] * layer_size[layer_idx] + 1; ++i)')],H+'''
#include <cmath>
#include "perceptron.hpp"
struct F { static double random(){ return 0.25; } static double activation(double d){ return d; } static double derivative(double d){ return 1; } };
int main(){ int ls[]={2,3}; MultiLayerPerceptron<2,400,F> m(ls); double w[9]={1,2,3,4,5,6,7,8,9}; m.set_weights(1,w); double in[2]={1,1}, out[3]; m.feed_forward(in,out); CHECK(out[0]==6&&out[1]==15&&out[2]==24); return 0; }
''','the weights of one layer with at least two neurons are set at once','the last weights of the layer are not written')
seed('c10-kappa-penalty','C10',[('metrics.hpp','		total += c;','		total += 1;')],H+'''
#include <cmath>
#include "metrics.hpp"
int main(){ KappaMetrics<2> a,b; for(int i=0;i<6;i++){ a.update(i%2,i%2); b.update(i%2,i%2); } a.increase_error(3); for(int i=0;i<3;i++) b.update(0,1); CHECK(std::fabs(a.score()-b.score())<1e-12); return 0; }
''','a penalty other than one','the kappa total is not increased by the amount of the penalty')
