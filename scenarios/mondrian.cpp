#include "vp.h"
#include "mondrian.hpp"
struct FN { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } };
struct FM { static double exp(double x){ vp_merge(); return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } }; // joins the states inside the user's functions
template<class T,int TR,int F,int L,int N,class FU=FN> struct MF {
#ifdef VP_WHITE
	static constexpr int NS=sizeof(typename MondrianForest<T,FN,1,F,L,4000>::Node);
#else
	static constexpr int NS=8*(7+2*F)+4*L;
#endif
	typedef MondrianForest<T,FU,TR,F,L,NS*N> M;
	static void any(T* x){ for(int f=0;f<F;f++) x[f]=(T)vp_any_double(-100,100); }
	static void query(M& m,T const* x){ double s[L]; for(int l=0;l<L;l++) s[l]=-7; int p=m.predict(x,s); vp_assert(p>=0&&p<L,"the predicted label is out of range"); vp_assert(vp_is_init(s,sizeof s),"a score is not written"); for(int l=0;l<L;l++) vp_assert(L>2||!(s[l]>s[p]),"the predicted label does not have the highest score"); m.predict(x); }
#ifdef VP_WHITE
	static void track(M& m){ vp_track(m.roots,sizeof m.roots); for(int i=0;i<N;i++){ auto& n=m.nodes[i]; vp_track(&n.split_dimension,sizeof(int)); vp_track(&n.child_left,sizeof(int)); vp_track(&n.child_right,sizeof(int)); vp_track(&n.parent,sizeof(int)); vp_track(&n.tau,sizeof n.tau); } }
	static void walk(M& m,int i,int parent,bool* seen,int depth){
		vp_assert(i>=0&&i<N,"a node refers to a child that does not exist"); vp_assert(!seen[i],"a node is reached twice"); seen[i]=true; auto& n=m.nodes[i]; vp_assert(!n.available(),"a node in a tree is taken for free"); vp_assert(n.parent==parent,"a node and its parent do not refer to each other"); 
		for(int f=0;f<F;f++) vp_assert(n.bound_lower[f]<=n.bound_upper[f],"the box of a node is empty");
		if(n.is_leaf()){ vp_assert(n.child_left==-1&&n.child_right==-1,"a leaf has children"); for(int l=0;l<L;l++) vp_assert(n.counters[l]>=0,"a counter is negative"); return; }
		vp_assert(n.split_dimension<F,"a node splits on a feature that does not exist"); vp_assert(n.child_left!=n.child_right,"the children of a node are the same"); walk(m,n.child_left,i,seen,depth+1); walk(m,n.child_right,i,seen,depth+1);
		auto &a=m.nodes[n.child_left],&b=m.nodes[n.child_right]; vp_assert(a.bound_upper[n.split_dimension]<=n.split_value,"the box of a left child lies beyond the split value"); vp_assert(b.bound_lower[n.split_dimension]>n.split_value,"the box of a right child does not lie beyond the split value");
		for(int f=0;f<F;f++){ vp_assert(n.bound_lower[f]<=a.bound_lower[f]&&a.bound_upper[f]<=n.bound_upper[f]&&n.bound_lower[f]<=b.bound_lower[f]&&b.bound_upper[f]<=n.bound_upper[f],"the box of a child lies outside the box of its parent"); } }
	static int wellformed(M& m){ bool seen[N]; for(int i=0;i<N;i++) seen[i]=false; for(int t=0;t<TR;t++) if(m.roots[t]!=-1) walk(m,m.roots[t],-1,seen,0); int free=0; for(int i=0;i<N;i++) if(!seen[i]){ vp_assert(m.nodes[i].available(),"a node in no tree is not free"); vp_assert(m.nodes[i].is_leaf()&&m.nodes[i].child_left==-1&&m.nodes[i].child_right==-1,"a free node is not as new"); free++; } return free; }
	// the leaf a data point is answered from
	static int route(M& m,int t,T const* x){ int i=m.roots[t]; while(i!=-1&&!m.nodes[i].is_leaf()) i=x[m.nodes[i].split_dimension]<=m.nodes[i].split_value?m.nodes[i].child_left:m.nodes[i].child_right; return i; }
#endif
	static void history(int steps,bool ask=true){
		M m(vp_any_double(0,10),0.1,1); 
#ifdef VP_WHITE
		track(m);
#else
		if(steps>2) steps=2;
#endif
		int n=0; vp_track(&n,sizeof n); if(ask){ T y[F]; any(y); query(m,y); }
		while(n<steps&&vp_any_bool()){ vp_merge(); if(steps<1000) n++; T x[F]; any(x); int l=vp_split(vp_any_int(0,L-1));
#ifdef VP_WHITE
			for(int i=0;i<N;i++) for(int k=0;k<L;k++){ vp_assume(m.nodes[i].counters[k]<1000000000); } int cnt[N][L]; for(int i=0;i<N;i++) for(int k=0;k<L;k++) cnt[i][k]=m.nodes[i].counters[k]; int free0=0; for(int i=0;i<N;i++) free0+=m.nodes[i].available(); int none=0; for(int t=0;t<TR;t++) none+=m.roots[t]==-1;
#endif
			bool r=m.train(x,l);
#ifdef VP_WHITE
			int free=wellformed(m); int missing=0;
			for(int t=0;t<TR;t++){ int i=route(m,t,x); if(i==-1){ missing++; continue; } auto& nd=m.nodes[i]; for(int f=0;f<F;f++) vp_assert(nd.bound_lower[f]<=x[f]&&x[f]<=nd.bound_upper[f],"the leaf answering a data point was not trained with it"); vp_assert(nd.counters[l]>0,"the leaf answering a data point has not counted it"); }
			vp_assert(r==(missing==0),"training does not report truthfully whether every tree has taken in the data point"); if(missing){ vp_assert(none>free0,"a tree is not started although there is a free node"); vp_reach("no root"); } if(free!=free0) vp_reach("grown"); if(free==0&&r) vp_reach("full");
#endif
			if(ask){ T y[F]; any(y); query(m,y); }
#ifdef VP_WHITE
			else m.update_posterior_count(); // what a prediction does to the trees
#endif
			}
		vp_reach("history"); }
#ifdef VP_WHITE
	// two data points in the box of one leaf are answered alike, a point on the split value like any other
	static void routing(int steps){ M m(vp_any_double(0,10),0.1,1); track(m); vp_track_all(true);
		for(int n=0;n<steps;n++){ vp_merge(); T x[F]; any(x); m.train(x,n%L); m.update_posterior_count(); }
		vp_merge(); T x[F],y[F]; any(x); any(y); int i=route(m,0,x); if(i!=-1){ vp_assume(route(m,0,y)==i); auto& nd=m.nodes[i]; for(int f=0;f<F;f++){ vp_assume(nd.bound_lower[f]<=x[f]); vp_assume(x[f]<=nd.bound_upper[f]); vp_assume(nd.bound_lower[f]<=y[f]); vp_assume(y[f]<=nd.bound_upper[f]); }
			if(nd.parent!=-1){ auto& pa=m.nodes[nd.parent]; if(pa.child_left==i&&y[pa.split_dimension]<pa.split_value){ vp_assume(x[pa.split_dimension]==pa.split_value); vp_reach("tie"); } else vp_reach("inner"); }
			double a[L],b[L]; m.predict(x,a); m.predict(y,b); for(int l=0;l<L;l++) vp_assert(vp_same(a[l],b[l]),"two data points in the box of the same leaf are answered differently"); vp_reach("routing"); } }
#endif
};
SCN scn_C12_history_n1(){ MF<double,1,1,2,1,FM>::history(1000000); }
SCN scn_C12_history_n2(){ MF<double,1,1,2,2,FM>::history(1000000); }
SCN scn_C12_history_n3(){ MF<double,1,1,2,3,FM>::history(1000000); }
SCN scn_C12_history_t2n1(){ MF<double,2,1,2,1,FM>::history(1000000); }
SCN scn_C12_history_t2n4(){ MF<double,2,1,2,4,FM>::history(1000000); }
SCN scn_C12_structure_n5(){ MF<double,1,1,1,5,FM>::history(1000000,false); }
SCN scn_C12_structure_f2(){ MF<double,1,2,1,3,FM>::history(1000000,false); }
SCN scn_C12_structure_l3(){ MF<double,1,1,3,3,FM>::history(1000000,false); }
SCN thr_C12_structure_t2n6(){ MF<double,2,1,1,6,FM>::history(1000000,false); }
SCN scn_C12_history_int(){ MF<int,1,1,2,3,FM>::history(1000000); }
SCN scn_C12_history_float(){ MF<float,1,1,2,3,FM>::history(1000000); }
#ifdef VP_WHITE
SCN scn_C16_mondrian(){ MF<double,1,1,2,3>::routing(3); }
SCN scn_C16_mondrian_f2(){ MF<double,1,2,1,3>::routing(3); }
SCN scn_C16_mondrian_n5(){ MF<double,1,1,2,5>::routing(4); }
SCN scn_C16_mondrian_int(){ MF<int,1,1,2,3>::routing(3); }
#endif
SCN scn_C16_mondrian_train(){ MF<double,1,1,2,3,FM>::history(1000000); }
SCN scn_C15_history_mondrian(){ MF<double,1,1,2,3,FM>::history(1000000); }
SCN scn_C15_history_mondrian_float(){ MF<float,1,1,2,3,FM>::history(1000000); }
SCN thr_C15_history_mondrian_t2(){ MF<double,2,1,2,4,FM>::history(1000000); }
SCN scn_C25_mondrian_n3(){ MF<double,1,1,2,3,FM>::history(1000000); }
SCN scn_C25_mondrian_t2n1(){ MF<double,2,1,2,1,FM>::history(1000000); }
SCN scn_C25_mondrian_t2n2(){ MF<double,2,1,1,2,FM>::history(1000000); }
SCN thr_C25_mondrian_t2n4(){ MF<double,2,1,2,4,FM>::history(1000000); }
