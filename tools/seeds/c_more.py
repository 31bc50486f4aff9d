MF='''
#include <cmath>
static double const* seq; static int seqn=0, seqi=0; static unsigned lcg=12345;
struct FN { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); }
 static double rand_uniform(){ if(seqi<seqn) return seq[seqi++]; lcg=lcg*1103515245u+12345u; return ((lcg>>8)&0xffff)/65536.0; } };
'''
MW='''
template<class M> static int walk(M& m,int i,int parent,bool* seen){ auto& n=m.nodes[i]; if(seen[i]||n.parent!=parent||n.available()) return 1; seen[i]=true; return n.is_leaf()?0:walk(m,n.child_left,i,seen)+walk(m,n.child_right,i,seen); }
template<class M> static int bad(M& m){ bool seen[1000]={false}; int r=walk(m,m.roots[0],-1,seen); for(int i=0;i<m.MAX_NODE;i++) r+=!seen[i]&&!m.nodes[i].available(); return r; }
'''
seed('c12-wrong-side','C12',[('mondrian.hpp','						if(parent.child_left == node_id)','						if(features[parent.split_dimension] < parent.split_value)')],H+MF+'#include "mondrian.hpp"\n'+MW+'''
int main(){ // the random numbers: lifetime, feature and value of each split
 static double r[]={0.001,0.1,0.0}, q[]={0.999, 0.0001,0.9,0.5};
 static MondrianForest<double,FN,1,2,2,4000> m(1,0.5,0.1); double a[2]={0,0}, b[2]={10,0}, c[2]={0,5};
 m.train(a,0); seq=r; seqn=3; m.train(b,1); CHECK(!m.nodes[m.roots[0]].is_leaf()); CHECK(bad(m)==0); seq=q; seqn=4; seqi=0; m.train(c,0); CHECK(bad(m)==0); return 0; }
''','a data point whose feature equals a split value, and which makes the leaf below grow a new parent','the new parent is hung on the wrong side: the sibling subtree is lost and the leaf reached from two nodes',flags='-fno-access-control')
seed('c12-zero-tau','C12',[('mondrian.hpp','			return tau < 0;','			return tau <= 0;')],H+MF+'#include "mondrian.hpp"\n'+MW+'''
int main(){ static double z[]={0.0}; static MondrianForest<double,FN,1,1,2,4000> m(1,0.5,0.1); double a[1]={0}, b[1]={10};
 m.train(a,0); seq=z; seqn=1; m.train(b,1); CHECK(bad(m)==0); return 0; }
''','the random function returns 0, so a new parent gets the lifetime of its own parent','the new parent counts as free and is handed out again as its own child',flags='-fno-access-control')
seed('c13-lost-parent','C13',[('mondrian_coarse.hpp','	sibling.parent = parent.parent;\n	node_available += 1;\n	parent.reset();\n','	node_available += 1;\n	parent.reset();\n	sibling.parent = parent.parent;\n')],H+MF+'''
#include "mondrian_coarse.hpp"
typedef CoarseMondrianForest<double,FN,ErrorMetrics<false>,1,2,2000> M;
int main(){ static M m(1e9,0.5,1,1,PHOENIX_MANAGEMENT,NODE_SIZE,-1,0,false,0,0,1.0,true,true,1.0,1.0,0,EXTEND_ORIGINAL,TRIM_COUNT,1.0);
 double x[1]; for(int i=0;i<30;i++){ x[0]=(i*7)%30; m.train(x,i&1); } m.tree_trim(); m.tree_trim();
 MondrianNode<1,2>* n=m.get_nodes(); int root=m.get_bases()[0].root; for(int i=0;i<m.node_count;i++) if(!n[i].available()){ if(i==root) CHECK(n[i].parent==-1); else { CHECK(n[i].parent>=0); CHECK(n[n[i].parent].child_left==i||n[n[i].parent].child_right==i); } } return 0; }
''','a trim that removes a leaf whose parent is not the root','the sibling that takes the place of the removed parent no longer knows its own parent',flags='-fno-access-control')
seed('c13-count-behead','C13',[('mondrian_coarse.hpp','		parent.reset();\n		node_available += 1;\n		node_reset(node_id);','		parent.reset();\n		node_reset(node_id);')],H+MF+'''
#include "mondrian_coarse.hpp"
typedef CoarseMondrianForest<double,FN,ErrorMetrics<false>,1,2,2000> M;
int main(){ static M m(1e9,0.5,1,1,PHOENIX_MANAGEMENT,NODE_SIZE,-1,0,false,0,0,1.0,true,true,1.0,1.0,0,EXTEND_ORIGINAL,TRIM_RANDOM,1.0);
 double x[1]; for(int i=0;i<30;i++){ x[0]=(i*7)%30; m.train(x,i&1); } for(int i=0;i<40;i++) m.tree_trim();
 MondrianNode<1,2>* n=m.get_nodes(); int free=0; for(int i=0;i<m.node_count;i++) free+=n[i].available(); CHECK(free==m.node_available); return 0; }
''','a trim that removes a child of the root','the old root is given back without being counted as free',flags='-fno-access-control')
seed('c14-early-stop','C14',[('mondrian_unbound.hpp','			//if(counters[label] == 2)\n				//return;','			if(counters[label] > 0 && this->parent != nullptr)\n				return;')],H+MF+'''
#include "mondrian_unbound.hpp"
typedef MondrianForestUnbound<double,FN,1,2> M;
static void walk(M::MondrianNode* n,int& bad){ if(n->is_leaf()) return; walk(n->child_left,bad); walk(n->child_right,bad); for(int l=0;l<2;l++){ int a=n->child_left->get_counters(l)>0, b=n->child_right->get_counters(l)>0; if(n->get_counters(l)!=a+b) bad++; } }
int main(){ static M m(1e9,0.5,1,1); double x[1]; int bad=0; for(int i=0;i<60;i++){ x[0]=(i*7)%20; m.train(x,i%3==0); walk(m.roots[0],bad); } CHECK(bad==0); return 0; }
''','a label that reaches the second child of an inner node after the first','the label counters of an internal node below the root stay at one',flags='-fno-access-control')
seed('c14-copy-parent','C14',[('mondrian_unbound.hpp','			new_parent->parent = node->parent;\n			if(node->parent == nullptr && node == roots[tree_id])','			if(node != roots[tree_id])\n				new_parent->parent = node->parent->parent == nullptr ? roots[tree_id] : node->parent;\n			if(node->parent == nullptr && node == roots[0])')],H+MF+'''
#include "mondrian_unbound.hpp"
typedef MondrianForestUnbound<double,FN,1,2> M;
int main(){ static M m(1e9,0.5,1,2); double x[1]; for(int i=0;i<30;i++){ x[0]=(i*7)%20; m.train(x,i&1); } for(int t=0;t<2;t++) CHECK(m.roots[t]->parent==nullptr); return 0; }
''','a forest of two trees whose second tree gets a new root','the second tree keeps its old root',flags='-fno-access-control')
seed('c15-neighbour','C15',[('mondrian_unbound.hpp','			if(sum_posterior_mean[i] > sum_posterior_mean[best])','			if(sum_posterior_mean[i] > sum_posterior_mean[i-1])')],H+MF+'''
#include "mondrian_unbound.hpp"
int main(){ static MondrianForestUnbound<double,FN,1,3> m(1,0.3,1,3); double x[1],s[3]; int n[3]={6,1,3}; for(int l=0;l<3;l++) for(int i=0;i<n[l];i++){ x[0]=0; m.train(x,l); }
 int p=m.predict(x,s); for(int l=0;l<3;l++) CHECK(s[l]<=s[p]); return 0; }
''','three labels, the first with the highest score and the third above the second','the predicted label is not one with the highest score')
seed('c16-tie-predict','C16',[('mondrian_coarse.hpp','		if(features[current_node.split_dimension] <= current_node.split_value)\n			node_id = current_node.child_left;\n		else\n			node_id = current_node.child_right;\n		depth += 1;','		if(features[current_node.split_dimension] < current_node.split_value)\n			node_id = current_node.child_left;\n		else\n			node_id = current_node.child_right;\n		depth += 1;')],H+MF+'''
#include "mondrian_coarse.hpp"
typedef CoarseMondrianForest<double,FN,ErrorMetrics<false>,1,2,2000> M;
int main(){ static double r[]={0.001,0.5,0.0}; static M m(1,0.5,0.1,1,PHOENIX_MANAGEMENT); double a[1]={0},b[1]={10}; m.train(a,0); m.train(a,0); seq=r; seqn=3; m.train(b,1); double n[1]={-1e-9},s[2],u[2]; m.predict(a,s); m.predict(n,u); CHECK(std::fabs(s[0]-u[0])<1e-3 && std::fabs(s[1]-u[1])<1e-3); return 0; }
''','a data point exactly on a split value','it is trained in the left leaf and predicted from the right one')
seed('c17-smooth-once','C17',[('naive_bayes.hpp','				local_score[l] = func::log(label_weights[l] / total_weights);','				if(label_weights[l] <= 0 && smoothing > 0){\n					label_weights[l] = smoothing;\n					total_weights += smoothing;\n				}\n				local_score[l] = func::log(label_weights[l] / total_weights);')],H+'''
#include <cmath>
#include "naive_bayes.hpp"
struct F { static double log(double d){ return std::log(d); } static double sqrt(double d){ return std::sqrt(d); } };
int main(){ NaiveBayes<double,2,1,F> a(1.0), b(1.0); double x[1]={1},s[2],t[2]; a.predict(x); a.train(x,0); b.train(x,0); a.train(x,1); b.train(x,1); a.train(x,1); b.train(x,1); a.predict(x,s); b.predict(x,t); CHECK(s[0]==t[0]&&s[1]==t[1]); return 0; }
''','smoothing is set and a prediction is asked for before every label has been seen','a prediction adds weight to labels never trained')
seed('c18-heap-gain','C18',[('hoeffding_tree.hpp','			double info_gain[tree->sum_feature_size-feature_count];','			double* info_gain = new double[tree->sum_feature_size-feature_count];'),
 ('hoeffding_tree.hpp','			double const square_diff = diff * diff;\n			if(square_diff > epsilon && info_gain[best_split[0]] > 0){','			double const square_diff = diff * diff;\n			bool const gains = info_gain[best_split[0]] > 0;\n			delete[] info_gain;\n			if(square_diff > epsilon && gains){')],H+HF+'''
#include <new>
static int allocations=0; void* operator new[](std::size_t n){ allocations++; return std::malloc(n); } void operator delete[](void* p) noexcept { std::free(p); }
int main(){ int s[1]={3}; static HoeffdingTree<double,1,2,4000,FN> t(1e-300,s); double x[1]={0}; t.train(x,0); CHECK(allocations==0); return 0; }
''','any training step on a system without a heap','training allocates memory from the heap')
seed('c19-shared-outputs','C19',[('perceptron.hpp','	double neuron_output[total_weight_count];','	static double neuron_output[total_weight_count];'),('perceptron.hpp','			return (sum_error_output/layer_size[layer_count-1]);\n		}\n};','			return (sum_error_output/layer_size[layer_count-1]);\n		}\n};\ntemplate<int layer_count, int max_size, class func>\ndouble MultiLayerPerceptron<layer_count, max_size, func>::neuron_output[MultiLayerPerceptron<layer_count, max_size, func>::total_weight_count];')],H+'''
#include <cmath>
#include "perceptron.hpp"
struct F { static double random(){ return 0.25; } static double activation(double d){ return d; } static double derivative(double d){ return 1; } };
int main(){ int ls[]={1,1}; MultiLayerPerceptron<2,400,F> a(ls),b(ls); double x[1]={1},y[1]={5},o[1],e[1]={0}; a.feed_forward(x,o); b.feed_forward(y,o); double r=a.backpropagate(e); CHECK(std::fabs(r-0.25)<1e-12); return 0; }
''','two networks of the same type used in turns','the outputs of the neurons are shared by all networks of a type')
seed('c20-no-bound','C20',[('mc_nn.hpp','		for(int i = 0; i < max_cluster; ++i){\n			if(!active[i] && i != cluster_idx){\n				new_idx = i;','		for(int i = 0; i <= max_cluster; ++i){\n			if(!active[i] && i != cluster_idx){\n				new_idx = i;')],H+'''
#include "mc_nn.hpp"
int main(){ MCNN<double,1,2>* m=new MCNN<double,1,2>(1,1,0); double a[1]={0},b[1]={1}; m->train(a,0); m->train(b,1); for(int i=0;i<8;i++){ double c[1]={0.9}; m->train(c,0); CHECK(m->count_clusters()<=2); } delete m; return 0; }
''','a split when every cluster is in use','the search for a free cluster looks one place behind the array and may use it',flags='-fsanitize=address,undefined -fno-sanitize-recover')
seed('c21-last-layer','C21',[('perceptron.hpp','			for(int i = 0; i < total_weight_count; ++i)\n				weights[i] = func::random();','			for(int i = 0; i < get_weight_base(layer_count - 1); ++i)\n				weights[i] = func::random();')],H+'''
#include <cstring>
#include <new>
#include "perceptron.hpp"
struct F { static double random(){ return 0.5; } static double activation(double d){ return d; } static double derivative(double d){ return 1; } };
int main(){ int ls[]={1,1,1}; typedef MultiLayerPerceptron<3,400,F> M; alignas(M) static unsigned char buf[sizeof(M)]; std::memset(buf,0x41,sizeof buf); M* m=new(buf) M(ls); double in[1]={1},out[1]; m->feed_forward(in,out); CHECK(out[0]==1.0); return 0; }
''','a network whose last layer keeps its initial weights','the weights of the last layer are never initialised')
seed('c22-function','C22',[('metrics.hpp','	double score(bool const invert=false, int const tree_size=-1) const{\n		return 0;\n	}','	double score(bool const invert=false, int const tree_size=-1) const;'),('metrics.hpp','template<int label_count, bool use_ratio=false>\nclass KappaMetrics{','double NoMetrics::score(bool const invert, int const tree_size) const{\n	return 0;\n}\ntemplate<int label_count, bool use_ratio=false>\nclass KappaMetrics{')],'''
#include "metrics.hpp"
double other();
#ifdef SECOND
double other(){ NoMetrics m; return m.score(); }
#else
int main(){ NoMetrics m; return m.score()==other()?0:1; }
#endif
''','two translation units of a program include the header','the program does not link',flags='-I src -DSECOND -c "$here/demo.cpp" -o "$t/second.o" || exit 3; g++ -w -std=c++11 "$t/second.o"')
seed('c22-no-assert','C22',[('mc_nn.hpp','#include <cassert>\n','')],'''
#include "mc_nn.hpp"
int main(){ MCNN<double,1> m; double x[1]={0}; m.train(x,0); return m.predict(x)==0?0:1; }
''','a program that includes mc_nn.hpp first','the header does not compile on its own')
seed('c23-rounded-up','C23',[('mondrian.hpp','	static const int MAX_NODE = (max_size - (max_size%sizeof(Node))) / sizeof(Node);','	static const int MAX_NODE = (max_size + sizeof(Node) - 1) / sizeof(Node);')],H+MF+'''
#include "mondrian.hpp"
template<int S> int test(){ CHECK(sizeof(MondrianForest<double,FN,1,2,2,S>)<=S+64); return 0; }
int main(){ return test<1000>()||test<1001>()||test<2001>()||test<4097>(); }
''','a size that is no multiple of the node size','the nodes take more memory than the size asked for')
seed('c24-forget-time','C24',[('mc_nn.hpp','				error_count = other.error_count;\n				initial_timestamp = other.initial_timestamp;','				error_count = other.error_count;')],H+'''
#include "mc_nn.hpp"
typedef MCNN<double,1,3> M;
int main(){ static M a(50,1,30), b(50,1,30); double x[1]={0},y[1]={100}; for(int i=0;i<40;i++){ b.train(x,0); } for(int i=0;i<30;i++) a.train(y,1); for(int i=0;i<3;i++) a.train(x,2);
 b=a; for(int i=0;i<40;i++){ a.train(y,1); b.train(y,1); CHECK(a.count_clusters()==b.count_clusters()); CHECK(a.predict(x)==b.predict(x)); } return 0; }
''','a model assigned to one with a different history, cleaning by participation','an assigned model keeps the creation times of the clusters it replaces')
seed('c25-full','C25',[('mc_nn.hpp','			//If no cleaning has been done, then this data point is not included\n			return false;','			//If no cleaning has been done, then this data point is not included\n			return cleaning_method == 1;')],H+'''
#include "mc_nn.hpp"
int main(){ MCNN<double,1,1> m(5,1,0); double x[1]={0},y[1]={9}; CHECK(m.train(x,0)); CHECK(!m.train(y,1)); CHECK(m.predict(y)==0); return 0; }
''','every cluster in use and removal by participation only','a data point that was dropped is reported as trained')
seed('c27-tie-max','C27',[('utils.hpp','			if(array[i] > array[best])','			if(array[i] >= array[best])')],H+'''
#include "utils.hpp"
int main(){ double a[3]={2,2,1}; CHECK(Utils::index_max(a,3)==0); double b[3]={0,5,5}; CHECK(Utils::index_max(b,3)==1); return 0; }
''','equal highest values','the last of the highest values is returned instead of the first')
seed('c27-shuffle-copy','C27',[('utils.hpp','			T tmp = array[i];\n			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i));\n			array[i] = array[swap_idx];\n			array[swap_idx] = tmp;','			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i));\n			if(swap_idx + 1 == i){\n				array[swap_idx] = array[i];\n				continue;\n			}\n			T tmp = array[i];\n			array[i] = array[swap_idx];\n			array[swap_idx] = tmp;')],H+'''
#include "utils.hpp"
struct F { static double rand_uniform(){ return 0.999; } };
int main(){ int a[4]={1,2,3,4}; Utils::shuffle<F>(a,4); int s=0; for(int i=0;i<4;i++) s+=1<<a[i]; CHECK(s==30); return 0; }
''','the random function picks the neighbour','an element is lost and another doubled')
seed('c28-endless-kick','C28',[('cuckoo_filter.hpp','			i += 1;\n		}while(i < 500);','			if(h1 != h2)\n				i += 1;\n		}while(i < 500);')],H+'''
#include "cuckoo_filter.hpp"
struct F { static unsigned char fingerprint(int const* e){ return *e+1; } static unsigned hash(int const* e){ return 0; } static unsigned hash(unsigned char fp){ return fp>=10?0:1; } };
static double rnd(){ return 0.3; }
int main(){ CuckooFilter<int,2,1,8,F,rnd> f; CHECK(f.add(20)); CHECK(!f.add(21)); return 0; }
''','a full bucket whose elements have both candidate buckets in common','the insertion never gives up')
