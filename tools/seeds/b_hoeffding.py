HF='''
#include <limits>
#include <cstddef>
#include <cmath>
#include "hoeffding_tree.hpp"
struct FN { static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static bool isnan(double x){ return std::isnan(x); } };
'''
seed('c11-wipe-others','C11',[('hoeffding_tree.hpp','i < starting_index + size_counters; ++i)','i < max_size; ++i)')],H+HF+'''
int main(){ int s[1]={2}; static HoeffdingTree<double,1,2,4000,FN> t(1,s); double lim[1]={0}; t.get_root()->set_limits(lim); double x[1], p[2];
 x[0]=-4; t.train(x,0); x[0]=4; t.train(x,1); x[0]=4; t.train(x,1); t.train(x,1);  /* split at 0 */ CHECK(!t.get_root()->is_leaf());
 x[0]=-1; t.train(x,0); t.predict(x,p); CHECK(p[0]==1); double left=p[0];
 double y[1]; for(int i=0;i<6;i++){ y[0]=i%2?1:4; t.train(y,i%2); /* the right leaf splits */ } 
 t.predict(x,p); CHECK(p[0]==left); return 0; }
''','a split of a leaf that is not the newest one','creating a leaf wipes the statistics of leaves created before it')
seed('c26-keep-counters','C26',[('hoeffding_tree.hpp','			this->tree = parent.tree;\n			reset_counters();\n','			this->tree = parent.tree;\n')],H+HF+'''
int main(){ int s[1]={2}; static HoeffdingTree<double,1,2,4000,FN> t(1e-300,s); double a[1]={-1}, b[1]={1}, p[2]; for(int i=0;i<5;i++){ t.train(a,0); t.train(b,1); }
 CHECK(t.get_root()->split(0,0)==0); t.train(a,0); t.predict(a,p); CHECK(p[0]==1&&p[1]==0); return 0; }
''','a split of a leaf that has seen data, then a look at the scores of the left child','the left child of a split starts with the counters of its parent')
seed('c26-third-feature','C26',[('hoeffding_tree.hpp','compute_entropy(f, start_index, counters, output + start_index - f);','compute_entropy(f, start_index, counters, output + start_index - (f > 0 ? 1 : 0));')],H+HF+'''
int main(){ int s[3]={2,2,2}; static HoeffdingTree<double,3,2,4000,FN> t(1e-300,s); double lim[3]={0.5,0.5,0.5}; t.get_root()->set_limits(lim); double sv; double x[2][3]={{0,0,0},{1,0,0}};
 for(int i=0;i<6;i++) t.get_root()->train(x[i&1],i&1,sv); double g[8]={0}; t.get_root()->compute_information_gain(g); CHECK(std::fabs(g[0]-1)<1e-9); CHECK(std::fabs(g[1])<1e-9); CHECK(std::fabs(g[2])<1e-9); return 0; }
''','three or more features','the gains of the third feature are stored one place too far')
