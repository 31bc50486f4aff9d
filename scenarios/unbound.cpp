#include "vp.h"
#include "mondrian_unbound.hpp"
struct FN { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } };
struct FM { static double exp(double x){ vp_merge(); return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return vp_any_double(0,0x1.fffffffffffffp-1); } }; // joins the states inside the user's functions
template<class T,int TR,int F,int L,class FU=FM> struct UF {
	typedef MondrianForestUnbound<T,FU,F,L> M;
	static void any(T* x){ for(int f=0;f<F;f++) x[f]=(T)vp_any_double(-100,100); }
	static void query(M& m,T const* x){ double s[L]; for(int l=0;l<L;l++) s[l]=-7; int p=m.predict(x,s); vp_assert(p>=0&&p<L,"the predicted label is out of range"); vp_assert(vp_is_init(s,sizeof s),"a score is not written"); for(int l=0;l<L;l++) vp_assert(L>2||!(s[l]>s[p]),"the predicted label does not have the highest score"); m.predict(x); }
#ifdef VP_WHITE
	typedef typename M::MondrianNode Node; typedef typename M::InternalNode Inner;
	static void walk(M& m,Node* n,Node* parent,long& leaves,long& inner){
		vp_assert(n!=nullptr,"an internal node lacks a child"); vp_assert(n->parent==parent,"a node and its parent do not refer to each other");
		for(int f=0;f<F;f++) vp_assert(n->bound_lower[f]<=n->bound_upper[f],"the box of a node is empty");
		if(n->is_leaf()){ leaves++; vp_assert(n->child_left==nullptr&&n->child_right==nullptr,"a leaf has children"); for(int l=0;l<L;l++) vp_assert(n->get_counters(l)>=0,"a counter is negative"); return; }
		inner++; Inner* i=static_cast<Inner*>(n); vp_assert(i->split_dimension>=0&&i->split_dimension<F,"a node splits on a feature that does not exist"); vp_assert(n->child_left!=n->child_right,"the children of a node are the same"); walk(m,n->child_left,n,leaves,inner); walk(m,n->child_right,n,leaves,inner);
		Node *a=n->child_left,*b=n->child_right; int d=i->split_dimension; vp_assert(a->bound_upper[d]<=i->split_value,"the box of a left child lies beyond the split value"); vp_assert(b->bound_lower[d]>i->split_value,"the box of a right child does not lie beyond the split value");
		for(int l=0;l<L;l++) vp_assert(n->get_counters(l)==(a->get_counters(l)>0)+(b->get_counters(l)>0),"the counters of an internal node do not reflect its children");
		for(int f=0;f<F;f++) vp_assert(n->bound_lower[f]<=a->bound_lower[f]&&a->bound_upper[f]<=n->bound_upper[f]&&n->bound_lower[f]<=b->bound_lower[f]&&b->bound_upper[f]<=n->bound_upper[f],"the box of a child lies outside the box of its parent"); }
	static void wellformed(M& m){ long leaves=0,inner=0; for(int t=0;t<TR;t++) if(m.roots[t]) walk(m,m.roots[t],nullptr,leaves,inner); vp_assert(m.count_leaf_nodes==leaves,"the number of leaves is counted wrongly"); vp_assert(m.count_internal_nodes==inner,"the number of internal nodes is counted wrongly"); vp_assert(vp_live_heap()==leaves+inner+(TR>0),"a node is lost"); if(inner) vp_reach("grown"); }
	static Node* route(M& m,int t,T const* x){ Node* i=m.roots[t]; while(i&&!i->is_leaf()){ Inner* n=static_cast<Inner*>(i); i=x[n->split_dimension]<=n->split_value?n->child_left:n->child_right; } return i; }
#endif
	static void history(int steps,bool ask=true){
		{ M m(vp_any_double(0,10),0.1,1,TR); vp_track_all(L>1||F>1);
		if(ask){ T y[F]; any(y); query(m,y); }
		int n=0; vp_track(&n,sizeof n); for(;n<steps&&vp_any_bool();n++){ vp_merge(); T x[F]; any(x); int l=vp_split(vp_any_int(0,L-1));
#ifdef VP_WHITE
			long long before[TR+1][L]; for(int t=0;t<TR;t++) for(int k=0;k<L;k++) before[t][k]=0;
#endif
			bool r=m.train(x,l); vp_assert(r,"training reports a failure");
#ifdef VP_WHITE
			wellformed(m); vp_assert(m.count_data_point==n+1,"the data points are counted wrongly");
			for(int t=0;t<TR;t++){ Node* nd=route(m,t,x); vp_assert(nd!=nullptr,"a tree was not trained"); for(int f=0;f<F;f++) vp_assert(nd->bound_lower[f]<=x[f]&&x[f]<=nd->bound_upper[f],"the leaf answering a data point was not trained with it"); vp_assert(nd->get_counters(l)>0,"the leaf answering a data point has not counted it"); }
#endif
			if(ask){ T y[F]; any(y); query(m,y); }
		} }
		vp_assert(vp_live_heap()==0,"destroying a forest leaves nodes behind"); vp_reach("history"); }
#ifdef VP_WHITE
	// two data points in the box of one leaf are answered alike, a point on the split value like any other
	static void routing(int steps){ M m(vp_any_double(0,10),0.1,1,1); vp_track_all(true);
		for(int n=0;n<steps;n++){ vp_merge(); T x[F]; any(x); m.train(x,n%L); }
		vp_merge(); T x[F],y[F]; any(x); any(y); Node* nd=route(m,0,x); vp_assume(route(m,0,y)==nd); for(int f=0;f<F;f++){ vp_assume(nd->bound_lower[f]<=x[f]); vp_assume(x[f]<=nd->bound_upper[f]); vp_assume(nd->bound_lower[f]<=y[f]); vp_assume(y[f]<=nd->bound_upper[f]); }
		if(nd->parent){ Inner* pa=static_cast<Inner*>(nd->parent); if(pa->child_left==nd&&y[pa->split_dimension]<pa->split_value){ vp_assume(x[pa->split_dimension]==pa->split_value); vp_reach("tie"); } else vp_reach("inner"); }
		double a[L],b[L]; m.predict(x,a); m.predict(y,b); for(int l=0;l<L;l++) vp_assert(vp_same(a[l],b[l]),"two data points in the box of the same leaf are answered differently"); vp_reach("routing"); }
#endif
};
SCN scn_C14_history_f1(){ UF<double,1,1,2>::history(3); }
SCN scn_C14_history_t2(){ UF<double,2,1,2>::history(2); }
SCN scn_C14_structure_6(){ UF<double,1,1,1>::history(6,false); }
SCN scn_C14_structure_f2(){ UF<double,1,2,1>::history(3,false); }
SCN thr_C14_structure_f2(){ UF<double,1,2,1>::history(4,false); }
SCN thr_C14_structure_7(){ UF<double,1,1,1>::history(7,false); }
SCN thr_C14_history_4(){ UF<double,1,1,2>::history(4); }
SCN thr_C14_structure_l2(){ UF<double,1,1,2>::history(5,false); }
SCN scn_C14_structure_t2(){ UF<double,2,1,1>::history(3,false); }
SCN scn_C14_structure_t3(){ UF<double,3,1,1>::history(2,false); }
SCN scn_C14_structure_l2(){ UF<double,1,1,2>::history(4,false); }
SCN scn_C14_structure_l3(){ UF<double,1,1,3>::history(3,false); }
SCN scn_C14_history_int(){ UF<int,1,1,2>::history(2); }
SCN scn_C14_history_float(){ UF<float,1,1,2>::history(2); }
SCN scn_C14_empty(){ UF<double,0,1,1>::history(1); }
#ifdef VP_WHITE
SCN scn_C16_unbound(){ UF<double,1,1,2,FN>::routing(3); }
SCN scn_C16_unbound_f2(){ UF<double,1,2,2,FN>::routing(3); }
SCN scn_C16_unbound_l3(){ UF<double,1,1,3,FN>::routing(3); }
SCN scn_C16_unbound_int(){ UF<int,1,1,2,FN>::routing(3); }
#endif
SCN scn_C16_unbound_train(){ UF<double,1,1,2>::history(3); }
SCN scn_C25_unbound(){ UF<double,1,1,2>::history(3); }
SCN scn_C25_unbound_t2(){ UF<double,2,1,2>::history(2); }
SCN scn_C25_unbound_t3(){ UF<double,3,1,1>::history(2,false); }
