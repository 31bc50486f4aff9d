#include "vp.h"
#include "mondrian_coarse.hpp"
struct FN { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } };
struct FM { static double exp(double x){ vp_merge(); return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } }; // joins the states inside the user's functions
// TR trees sharing N nodes; ET: how a tree is extended, TT: how trees are trimmed, TM and SL: how the trees are managed
template<class T,int TR,int F,int L,int N,int ET,int TT=TRIM_NONE,int TM=PHOENIX_MANAGEMENT,int SL=-1,class S=ErrorMetrics<false>,class FU=FM,int FED=0,int FES=0,int SH=SPLIT_HELPER_NONE> struct CF {
	static const bool SPL=FES!=SPLIT_TRIGGER_NONE||SH!=SPLIT_HELPER_NONE; // leaves may be split in two, which redistributes what they have counted
	typedef MondrianNode<F,L> Node; typedef typename CoarseMondrianForest<T,FU,S,F,L,4000>::TreeBase Base;
	typedef CoarseMondrianForest<T,FU,S,F,L,(int)(N*sizeof(Node)+TR*sizeof(Base))> M;
	static void any(T* x){ for(int f=0;f<F;f++) x[f]=(T)vp_any_double(-100,100); }
	static void query(M& m,T const* x){ double s[L]; for(int l=0;l<L;l++) s[l]=-7; int p=m.predict(x,s); vp_assert(p>=0&&p<L,"the predicted label is out of range"); for(int l=0;l<L;l++) vp_assert(L>2||!(s[l]>s[p]),"the predicted label does not have the highest score"); m.predict(x); }
#ifdef VP_WHITE
	static void track(M& m){ for(int t=0;t<TR;t++){ auto& b=m.get_bases()[t]; vp_track(&b.root,sizeof b.root); } for(int i=0;i<N;i++){ auto& n=m.get_nodes()[i]; vp_track(&n.split_dimension,sizeof(int)); vp_track(&n.child_left,sizeof(int)); vp_track(&n.child_right,sizeof(int)); vp_track(&n.parent,sizeof(int)); vp_track(&n.tau,sizeof n.tau); } vp_track(&m.node_available,sizeof(int)); }
	static int walk(M& m,int i,int parent,bool* seen,bool strict){ Node* nodes=m.get_nodes();
		vp_assert(i>=0&&i<N,"a node refers to a child that does not exist"); vp_assert(!seen[i],"a node is reached twice"); seen[i]=true; auto& n=nodes[i]; vp_assert(!n.available(),"a node in a tree is taken for free"); vp_assert(n.parent==parent,"a node and its parent do not refer to each other");
		if(ET!=EXTEND_BARYCENTER) for(int f=0;f<F;f++) vp_assert(n.bound_lower[f]<=n.bound_upper[f],"the box of a node is empty");
		if(n.is_leaf()){ vp_assert(n.child_left==-1&&n.child_right==-1,"a leaf has children"); for(int l=0;l<L;l++) vp_assert(n.counters[l]>=0,"a counter is negative"); return 1; }
		vp_assert(n.split_dimension>=0&&n.split_dimension<F,"a node splits on a feature that does not exist"); vp_assert(n.child_left!=n.child_right,"the children of a node are the same"); int x=walk(m,n.child_left,i,seen,strict),y=walk(m,n.child_right,i,seen,strict);
		auto &a=nodes[n.child_left],&b=nodes[n.child_right]; if(strict&&ET!=EXTEND_BARYCENTER){ vp_assert(a.bound_upper[n.split_dimension]<=n.split_value,"the box of a left child lies beyond the split value"); vp_assert(b.bound_lower[n.split_dimension]>n.split_value,"the box of a right child does not lie beyond the split value"); }
		return 1+(x>y?x:y); }
	static int wellformed(M& m,bool strict=true){ bool seen[N]; for(int i=0;i<N;i++) seen[i]=false; vp_assert(m.node_count==N&&m.tree_count==TR,"the numbers of nodes and trees have changed");
		for(int t=0;t<TR;t++) if(m.get_bases()[t].root!=-1){ int d=walk(m,m.get_bases()[t].root,-1,seen,strict); vp_assert(!(TM==COBBLE_MANAGEMENT&&d>(SL>1?SL:1)),"a tree is deeper than its limit"); }
		int free=0; for(int i=0;i<N;i++) if(!seen[i]){ auto& n=m.get_nodes()[i]; vp_assert(n.available(),"a node in no tree is not free"); vp_assert(n.is_leaf()&&n.child_left==-1&&n.child_right==-1&&n.parent==-1,"a free node is not as new"); for(int l=0;l<L;l++) vp_assert(n.counters[l]==0,"a free node has counted data points"); free++; } vp_assert(m.node_available==free,"the number of free nodes is wrong"); return free; }
	static int route(M& m,int t,T const* x){ Node* nodes=m.get_nodes(); int i=m.get_bases()[t].root; while(i!=-1&&!nodes[i].is_leaf()) i=x[nodes[i].split_dimension]<=nodes[i].split_value?nodes[i].child_left:nodes[i].child_right; return i; }
#endif
	static void history(int steps,int ops=1,bool ask=false){
		M m(vp_any_double(0,10),0.1,1,TR,TM,NODE_SIZE,SL,0,false,FED,FES,1.0,true,true,1.0,1.0,SH,ET,TT);
#ifdef VP_WHITE
		track(m); wellformed(m);
#else
		if(steps>2) steps=2;
#endif
		int n=0; vp_track(&n,sizeof n); if(ask){ T y[F]; any(y); query(m,y); }
		while(n<steps&&vp_any_bool()){ vp_merge(); if(steps<1000) n++; T x[F]; any(x); int l=vp_split(vp_any_int(0,L-1)); int op=vp_split(vp_any_int(0,ops-1));
#ifdef VP_WHITE
			Node* nodes=m.get_nodes(); for(int i=0;i<N;i++) for(int k=0;k<L;k++) vp_assume(nodes[i].counters[k]<1000000000); vp_assume(m.has_been_full<1000000000); int cnt[N][L]; for(int i=0;i<N;i++) for(int k=0;k<L;k++) cnt[i][k]=nodes[i].counters[k]; int free0=m.node_available; 
			bool empty[TR]; for(int t=0;t<TR;t++) empty[t]=m.get_bases()[t].root==-1; if(SH!=SPLIT_HELPER_NONE) m.has_been_full=vp_any_bool()?7:30; m.total_count=TT==TRIM_NONE||vp_any_bool()?7:200;
#endif
			if(op==0){ bool r=m.train(x,l);
#ifdef VP_WHITE
				int free=wellformed(m); if(free!=free0) vp_reach("grown"); if(free<2) vp_reach("full"); int none=0; for(int t=0;t<TR;t++){ int i=route(m,t,x); if(i==-1){ none++; continue; }
					if(ET==EXTEND_ORIGINAL||ET==EXTEND_COUNTER_NO_UPDATE||(ET==EXTEND_BARYCENTER&&!SPL)||(ET==EXTEND_NONE&&r)||empty[t]) vp_assert(nodes[i].counters[l]>0,"the leaf answering a data point has not counted it");
					if(ET==EXTEND_ORIGINAL||(ET==EXTEND_NONE&&r)||empty[t]) for(int f=0;f<F;f++) vp_assert(nodes[i].bound_lower[f]<=x[f]&&x[f]<=nodes[i].bound_upper[f],"the leaf answering a data point was not trained with it"); }
				if(none) vp_assert(!r,"training a tree without a root is reported as a success"); if(ET!=EXTEND_NONE) vp_assert(r==(none==0),"training does not report truthfully whether every tree has taken in the data point"); 
				if(TT==TRIM_NONE&&ET!=EXTEND_GHOST&&!SPL) for(int i=0;i<N;i++) if(!nodes[i].available()&&nodes[i].is_leaf()) for(int k=0;k<L;k++){ bool here=false; for(int t=0;t<TR;t++) if(route(m,t,x)==i) here=true; vp_assert(nodes[i].counters[k]==cnt[i][k]+(here&&k==l)||(here&&k==l&&ET!=EXTEND_ORIGINAL&&ET!=EXTEND_BARYCENTER&&ET!=EXTEND_COUNTER_NO_UPDATE&&nodes[i].counters[k]==cnt[i][k]),"a data point is not counted exactly once, in the leaf it belongs to"); }
#endif
			}
			else if(op==1){ m.tree_trim(); m.tree_fade_counts();
#ifdef VP_WHITE
				int free=wellformed(m); if(free>free0) vp_reach("trimmed"); vp_assert(TT==TRIM_NONE?free==free0:free>=free0,"trimming did not free nodes");
#endif
			}
#ifdef VP_WHITE
						else if(op==2){ int t=vp_split(vp_any_int(0,TR-1)); if(!empty[t]){ m.tree_reset(t); vp_reach("reset"); wellformed(m); vp_assert(m.get_bases()[t].root==-1,"a reset tree still has a root"); } }
			else if(op==3){ int t=vp_split(vp_any_int(0,TR-1)); if(!empty[t]){ int d=vp_split(vp_any_int(1,2)); m.tree_chop(t,d); vp_reach("chopped"); wellformed(m); } }
#endif
			if(ask){ T y[F]; any(y); query(m,y); }
#ifdef VP_WHITE
			else m.update_posterior_count(); // what a prediction does to the trees
#endif
			}
		vp_reach("history"); }
#ifdef VP_WHITE
	// two data points in the box of one leaf are answered alike, a point on the split value like any other
	static void routing(int steps){ M m(vp_any_double(0,10),0.1,1,TR,TM,NODE_SIZE,SL,0,false,FED,FES,1.0,true,true,1.0,1.0,SH,ET,TT); track(m); vp_track_all(true);
		for(int n=0;n<steps;n++){ vp_merge(); T x[F]; any(x); m.train(x,n%L); m.update_posterior_count(); }
		vp_merge(); T x[F],y[F]; any(x); any(y); int i=route(m,0,x); vp_assume(i!=-1); vp_assume(route(m,0,y)==i); Node* nodes=m.get_nodes(); auto& nd=nodes[i]; for(int f=0;f<F;f++){ vp_assume(nd.bound_lower[f]<=x[f]); vp_assume(x[f]<=nd.bound_upper[f]); vp_assume(nd.bound_lower[f]<=y[f]); vp_assume(y[f]<=nd.bound_upper[f]); }
		for(int k=nd.parent;k!=-1;k=nodes[k].parent) for(int f=0;f<F;f++){ vp_assume(nodes[k].bound_lower[f]<=x[f]); vp_assume(x[f]<=nodes[k].bound_upper[f]); vp_assume(nodes[k].bound_lower[f]<=y[f]); vp_assume(y[f]<=nodes[k].bound_upper[f]); } // without box updates the boxes need not be nested
		if(nd.parent!=-1){ auto& pa=nodes[nd.parent]; if(pa.child_left==i&&y[pa.split_dimension]<pa.split_value){ vp_assume(x[pa.split_dimension]==pa.split_value); vp_reach("tie"); } else vp_reach("inner"); }
		double a[L],b[L]; m.predict(x,a); m.predict(y,b); for(int l=0;l<L;l++) vp_assert(vp_same(a[l],b[l]),"two data points in the box of the same leaf are answered differently"); vp_reach("routing"); }
	static void deep(){ // a data point for a tree of more than 100 levels, built by hand
		M m(vp_any_double(0,10),0.1,1,1,TM,NODE_SIZE,SL,0,false,FED,FES,1.0,true,true,1.0,1.0,SH,ET,TT); Node* nodes=m.get_nodes(); int D=(N-3)/2; m.get_bases()[0].root=0;
		for(int d=0;d<D;d++){ int i=2*d,a=2*d+1,b=2*d+2; for(int k: {a,b}) nodes[k].parent=i; nodes[i].child_left=a; nodes[i].child_right=b; nodes[i].split_dimension=0; nodes[i].split_value=d+0.5; }
		for(int i=0;i<=2*D;i++){ nodes[i].tau=i+1; for(int f=0;f<F;f++){ nodes[i].bound_lower[f]=i/2; nodes[i].bound_upper[f]=i%2==1?i/2:D; } if(i%2==1||i==2*D){ nodes[i].tau=1e300; nodes[i].counters[0]=1; if(i%2==0) nodes[i].bound_upper[0]=D; } } m.node_available=N-2*D-1;
		T x[F]; any(x); m.train(x,0); wellformed(m); m.tree_trim(); m.tree_fade_counts(); vp_reach("deep"); }
#endif
};
SCN scn_C13_original(){ CF<double,1,1,2,3,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C13_none(){ CF<double,1,1,2,3,EXTEND_NONE>::history(1000000); }
SCN scn_C13_ghost(){ CF<double,1,1,2,3,EXTEND_GHOST>::history(1000000); }
SCN scn_C13_partial(){ CF<double,1,1,2,3,EXTEND_PARTIAL_UPDATE>::history(1000000); }
SCN scn_C13_noupdate(){ CF<double,1,1,2,3,EXTEND_COUNTER_NO_UPDATE>::history(1000000); }
SCN scn_C13_bary(){ CF<double,1,1,2,3,EXTEND_BARYCENTER>::history(1000000); }
SCN scn_C13_trim_random(){ CF<double,1,1,2,3,EXTEND_ORIGINAL,TRIM_RANDOM>::history(1000000,2); }
SCN scn_C13_trim_fading(){ CF<double,1,1,2,3,EXTEND_ORIGINAL,TRIM_FADING>::history(1000000,2); }
SCN scn_C13_trim_count(){ CF<double,1,1,2,3,EXTEND_ORIGINAL,TRIM_COUNT>::history(1000000,2); }
SCN scn_C13_ops(){ CF<double,1,1,1,3,EXTEND_ORIGINAL,TRIM_COUNT>::history(1000000,4); }
SCN scn_C13_ask(){ CF<double,1,1,2,3,EXTEND_ORIGINAL>::history(1000000,1,true); }
SCN scn_C13_cobble(){ CF<double,1,1,1,5,EXTEND_ORIGINAL,TRIM_NONE,COBBLE_MANAGEMENT,2>::history(1000000); }
#ifdef VP_WHITE
SCN scn_C13_deep(){ CF<double,1,1,1,205,EXTEND_ORIGINAL,TRIM_RANDOM,COBBLE_MANAGEMENT,1000>::deep(); }
#endif
SCN scn_C13_robur(){ CF<double,2,1,1,4,EXTEND_ORIGINAL,TRIM_NONE,ROBUR_MANAGEMENT>::history(1000000); }
SCN scn_C13_structure_n5(){ CF<double,1,1,1,5,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C13_structure_t2(){ CF<double,2,1,1,4,EXTEND_NONE>::history(1000000); }
SCN scn_C13_structure_t2n1(){ CF<double,2,1,1,1,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C13_structure_f2(){ CF<double,1,2,1,3,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C13_structure_l3(){ CF<double,1,1,3,3,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C13_int(){ CF<int,1,1,2,3,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C13_none5(){ CF<double,1,1,1,5,EXTEND_NONE>::history(1000000); }
SCN scn_C13_ghost5(){ CF<double,1,1,1,5,EXTEND_GHOST>::history(1000000); }
SCN scn_C13_partial5(){ CF<double,1,1,1,5,EXTEND_PARTIAL_UPDATE>::history(1000000); }
SCN scn_C13_noupdate5(){ CF<double,1,1,1,5,EXTEND_COUNTER_NO_UPDATE>::history(1000000); }
SCN scn_C13_bary5(){ CF<double,1,1,1,5,EXTEND_BARYCENTER>::history(5); }
SCN scn_C13_trim5(){ CF<double,1,1,1,5,EXTEND_ORIGINAL,TRIM_RANDOM>::history(4,2); }
SCN scn_C13_split_avg(){ CF<double,1,1,1,3,EXTEND_BARYCENTER,TRIM_NONE,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FM,FE_DISTRIBUTION_ZERO,SPLIT_TRIGGER_NONE,SPLIT_HELPER_AVG>::history(1000000,1); }
SCN scn_C13_split_weighted(){ CF<double,1,1,1,3,EXTEND_BARYCENTER,TRIM_NONE,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FM,FE_DISTRIBUTION_DECREMENT,SPLIT_TRIGGER_NONE,SPLIT_HELPER_WEIGHTED>::history(1000000,1); }
SCN scn_C13_split_avg5(){ CF<double,1,1,1,5,EXTEND_BARYCENTER,TRIM_NONE,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FM,FE_DISTRIBUTION_ZERO,SPLIT_TRIGGER_NONE,SPLIT_HELPER_AVG>::history(4,1); }
SCN scn_C13_split_avg_f2(){ CF<double,1,2,1,3,EXTEND_BARYCENTER,TRIM_NONE,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FM,FE_DISTRIBUTION_ZERO,SPLIT_TRIGGER_NONE,SPLIT_HELPER_AVG>::history(3,1); }
SCN thr_C13_split_positive(){ CF<double,1,1,1,5,EXTEND_BARYCENTER,TRIM_RANDOM,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FM,FE_DISTRIBUTION_ZERO,SPLIT_TRIGGER_POSITIVE,SPLIT_HELPER_NONE>::history(5,2); }
SCN thr_C13_split_total(){ CF<double,1,1,1,5,EXTEND_BARYCENTER,TRIM_RANDOM,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FM,FE_DISTRIBUTION_PROPORTIONAL,SPLIT_TRIGGER_TOTAL,SPLIT_HELPER_NONE>::history(5,2); }
SCN thr_C13_split_sfe(){ CF<double,1,1,1,5,EXTEND_BARYCENTER,TRIM_RANDOM,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FM,FE_DISTRIBUTION_SPLIT,SPLIT_TRIGGER_SFE,SPLIT_HELPER_NONE>::history(5,2); }
SCN thr_C13_split_positive3(){ CF<double,1,1,1,3,EXTEND_BARYCENTER,TRIM_RANDOM,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FM,FE_DISTRIBUTION_DECREMENT,SPLIT_TRIGGER_POSITIVE,SPLIT_HELPER_NONE>::history(1000000,2); }
SCN scn_C13_n2_original(){ CF<double,1,1,1,2,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C13_n2_none(){ CF<double,1,1,1,2,EXTEND_NONE>::history(1000000); }
SCN scn_C13_n2_ghost(){ CF<double,1,1,1,2,EXTEND_GHOST>::history(1000000); }
SCN scn_C13_n2_partial(){ CF<double,1,1,1,2,EXTEND_PARTIAL_UPDATE>::history(1000000); }
SCN scn_C13_n2_noupdate(){ CF<double,1,1,1,2,EXTEND_COUNTER_NO_UPDATE>::history(1000000); }
SCN scn_C13_n2_bary(){ CF<double,1,1,1,2,EXTEND_BARYCENTER>::history(1000000); }
template<int ET,int L=2,int N=3,class T=double,int F=1> struct RF : CF<T,1,F,L,N,ET,TRIM_NONE,PHOENIX_MANAGEMENT,-1,ErrorMetrics<false>,FN> {};
#ifdef VP_WHITE
SCN scn_C16_coarse(){ RF<EXTEND_ORIGINAL>::routing(3); }
SCN scn_C16_coarse_none(){ RF<EXTEND_NONE>::routing(3); }
SCN scn_C16_coarse_ghost(){ RF<EXTEND_GHOST>::routing(3); }
SCN scn_C16_coarse_partial(){ RF<EXTEND_PARTIAL_UPDATE>::routing(3); }
SCN scn_C16_coarse_noupdate(){ RF<EXTEND_COUNTER_NO_UPDATE>::routing(3); }
SCN scn_C16_coarse_bary(){ RF<EXTEND_BARYCENTER>::routing(3); }
SCN scn_C16_coarse_n5(){ RF<EXTEND_ORIGINAL,2,5>::routing(4); }
SCN scn_C16_coarse_f2(){ RF<EXTEND_ORIGINAL,2,3,double,2>::routing(3); }
SCN scn_C16_coarse_int(){ RF<EXTEND_ORIGINAL,2,3,int>::routing(3); }
#endif
SCN scn_C16_coarse_train(){ CF<double,1,1,2,3,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C15_history_coarse(){ CF<double,1,1,2,3,EXTEND_ORIGINAL>::history(1000000,1,true); }
SCN scn_C16_coarse_train_none(){ CF<double,1,1,2,3,EXTEND_NONE>::history(1000000); }
SCN scn_C16_coarse_train_partial(){ CF<double,1,1,2,3,EXTEND_PARTIAL_UPDATE>::history(1000000); }
SCN scn_C16_coarse_train_noupdate(){ CF<double,1,1,2,3,EXTEND_COUNTER_NO_UPDATE>::history(1000000); }
SCN scn_C25_coarse(){ CF<double,1,1,2,3,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C25_coarse_none(){ CF<double,1,1,2,3,EXTEND_NONE>::history(1000000); }
SCN scn_C25_coarse_partial(){ CF<double,1,1,2,3,EXTEND_PARTIAL_UPDATE>::history(1000000); }
SCN scn_C25_coarse_noupdate(){ CF<double,1,1,2,3,EXTEND_COUNTER_NO_UPDATE>::history(1000000); }
SCN scn_C25_coarse_t2n1(){ CF<double,2,1,1,1,EXTEND_ORIGINAL>::history(1000000); }
SCN scn_C25_coarse_t2n1_none(){ CF<double,2,1,1,1,EXTEND_NONE>::history(1000000); }
SCN scn_C25_coarse_t2n2_none(){ CF<double,2,1,1,2,EXTEND_NONE>::history(1000000); }
