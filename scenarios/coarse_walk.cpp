#include "vp.h"
#include "mondrian_coarse.hpp"
// The private ways to walk a data point down a coarse tree; kept apart so that renaming one of them leaves the other scenarios alone.
struct FN { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } };
template<class T,int F,int L> struct WK {
	typedef MondrianNode<F,L> Node; typedef typename CoarseMondrianForest<T,FN,ErrorMetrics<false>,F,L,4000>::TreeBase Base; static const int N=5;
	typedef CoarseMondrianForest<T,FN,ErrorMetrics<false>,F,L,(int)(N*sizeof(Node)+sizeof(Base))> M;
	static void any(T* x){ for(int f=0;f<F;f++) x[f]=(T)vp_any_double(-100,100); }
#ifdef VP_WHITE
	// a tree of five nodes built by hand: any splits, the second one below either child of the root
	static void build(M& m,bool left){ Node* n=m.get_nodes(); m.get_bases()[0].root=0; int up=left?1:2;
		for(int i=0;i<N;i++){ n[i].parent=i==0?-1:i<3?0:up; n[i].tau=i+1; n[i].forced_extend=vp_any_int(0,1000); for(int l=0;l<L;l++) n[i].counters[l]=vp_any_int(0,3); for(int f=0;f<F;f++){ n[i].bound_lower[f]=-100; n[i].bound_upper[f]=100; } }
		n[0].child_left=1; n[0].child_right=2; n[up].child_left=3; n[up].child_right=4; for(int i: {0,up}){ n[i].split_dimension=F>1?vp_split(vp_any_int(0,F-1)):0; n[i].split_value=vp_any_double(-50,50); }
		for(int l=0;l<L;l++) vp_assume(n[3].counters[l]+n[4].counters[l]>=0); m.node_available=0; }
	static int route(M& m,T const* x,int* path,int& len){ Node* n=m.get_nodes(); int i=0; len=0; for(;;){ path[len++]=i; if(n[i].child_left==-1) return i; i=x[n[i].split_dimension]<=n[i].split_value?n[i].child_left:n[i].child_right; } }
	static void walkers(bool left){ M m(1.0,0.1,1,1); vp_track_all(true); build(m,left); Node* n=m.get_nodes(); T x[F]; any(x); int path[N],len; int leaf=route(m,x,path,len); int fe=0; for(int k=0;k<len;k++) fe+=n[path[k]].forced_extend;
		vp_assert(m.get_leaf(0,x)==leaf,"get_leaf finds another leaf than the one the data point belongs to"); vp_assert(m.count_fe_down(0,x)==fe,"the forced extensions are not counted along the path of the data point");
		int c[N][L]; for(int i=0;i<N;i++) for(int l=0;l<L;l++) c[i][l]=n[i].counters[l]; int l=vp_split(vp_any_int(0,L-1));
		vp_assert(m.pass_data_point_down(0,x,l)==leaf,"pass_data_point_down finds another leaf than the one the data point belongs to"); for(int i=0;i<N;i++) for(int k=0;k<L;k++) vp_assert(n[i].counters[k]==c[i][k]+(i==leaf&&k==l),"a data point passed down is not counted once, in its leaf"); vp_reach("walkers"); }
	static void counts(bool left){ M m(1.0,0.1,1,1); vp_track_all(true); build(m,left); Node* n=m.get_nodes(); T x[F]; any(x); int l=vp_split(vp_any_int(0,L-1)); int path[N],len; route(m,x,path,len); int c[N][L]; for(int i=0;i<N;i++) for(int k=0;k<L;k++) c[i][k]=(n[i].child_left==-1||k==l)?vp_split(n[i].counters[k]>0):0;
		bool on[N]={false}; for(int k=0;k<len;k++) on[path[k]]=true; for(int k=len-2;k>=0;k--){ int i=path[k]; vp_assume(n[i].counters[l]<=3); }
		int e[N]; for(int i=0;i<N;i++) e[i]=n[i].counters[l]; for(int k=len-2;k>=0;k--){ int i=path[k]; e[i]=(e[n[i].child_left]>0)+(e[n[i].child_right]>0); } int o[N]; for(int i=0;i<N;i++) o[i]=L>1?n[i].counters[1-l]:0;
		m.update_posterior_count(0,x,l); for(int i=0;i<N;i++){ vp_assert(n[i].counters[l]==e[i],"a node above the leaf of a data point does not say how many of its children know the label"); if(L>1) vp_assert(n[i].counters[1-l]==o[i],"the counters of another label have changed"); } vp_reach("path");
		m.update_posterior_count(); int up=left?1:2; for(int i: {up,0}) for(int k=0;k<L;k++) vp_assert(n[i].counters[k]==(n[n[i].child_left].counters[k]>0)+(n[n[i].child_right].counters[k]>0),"an internal node does not say how many of its children know a label"); vp_reach("counts"); }
#else
	static void walkers(bool){} static void counts(bool){}
#endif
};
SCN scn_C16_walkers_left(){ WK<double,1,2>::walkers(true); }
SCN scn_C16_walkers_right(){ WK<double,1,2>::walkers(false); }
SCN scn_C16_walkers_f2(){ WK<double,2,1>::walkers(true); }
SCN scn_C16_walkers_int(){ WK<int,1,1>::walkers(false); }
SCN scn_C13_counts_left(){ WK<double,1,2>::counts(true); }
SCN scn_C13_counts_right(){ WK<double,1,2>::counts(false); }
SCN scn_C13_counts_f2(){ WK<double,2,1>::counts(false); }
