#include "vp.h"
#include "hoeffding_tree.hpp"
struct FN { static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } static bool isnan(double x){ return std::isnan(x); } };
static bool near(double a,double b){ if(a==b) return true; double d=a-b; return d<=1e-6&&d>=-1e-6; }
struct FM { static double log(double x){ vp_merge(); return std::log(x); } static double log2(double x){ vp_merge(); return std::log2(x); } static bool isnan(double x){ vp_merge(); return std::isnan(x); } }; // joins the states inside the user's functions
// memory for N nodes with their counters (the right child of a split has its own, the left one takes over), one byte less if LESS
template<class T,int F,int L,int S> struct Size { typedef HoeffdingTree<T,F,L,4000,FN> P; static constexpr int node=sizeof(typename P::Node); static constexpr int cnt=sizeof(int)+2*(S-F)*sizeof(double)+S*sizeof(int)*L; static constexpr int of(int n,int less=0){ return n*node+(n+1)/2*cnt-less; } };
template<class T,int F,int L,int S,int N,int LESS=0,class FU=FN> struct H {
	static constexpr int MS=Size<T,F,L,S>::of(N,LESS); typedef HoeffdingTree<T,F,L,MS,FU> Tree; typedef typename Tree::Node Node;
	static void sizes(int* s){ for(int f=0;f<F;f++) s[f]=S/F; s[0]+=S-S/F*F; }
	static void any(T* x){ for(int f=0;f<F;f++) x[f]=(T)vp_any_double(-100,100); }
	static void query(Tree& t,T const* x){ double s[L]; for(int l=0;l<L;l++) s[l]=-7; int p=t.predict(x,s); vp_assert(p>=0&&p<L,"the predicted label is out of range"); for(int l=0;l<L;l++){ vp_assert(s[l]>=0,"a score is not a share"); vp_assert(L>2||s[l]<=s[p],"the predicted label does not have the highest score"); } }
#ifdef VP_WHITE
	static void track(Tree& t){ vp_track(&t.buffer_offset,sizeof t.buffer_offset); vp_track(&t.buffer_preset,sizeof t.buffer_preset); vp_track(t.features_size,sizeof t.features_size); vp_track(&t.sum_feature_size,sizeof(int)); for(int i=0;i<N;i++){ Node* n=(Node*)t.buffer+i; vp_track(&n->split_feature,sizeof(int)); vp_track(n->children,sizeof n->children); } }
	static int walk(Tree& t,int i,bool* seen,bool* used,int depth){
		vp_assert(i>=0&&(i+1)*(int)sizeof(Node)<=t.buffer_offset,"a child of a node lies outside the nodes given out"); vp_assert(!seen[i],"a node is reached twice"); seen[i]=true; Node* n=(Node*)t.buffer+i; vp_assert(n->tree==&t,"a node does not belong to its tree");
		if(n->is_leaf()){ int* c; double* lim; double* inf; n->get_informations(c,lim,inf); int lo=(int)((char*)c-t.buffer), hi=0; hi=lo+n->compute_total_size_counters(); for(int l=0;l<L;l++){ int k=l; char* q=(char*)n->get_counters(k); vp_assert(q-t.buffer>=lo&&q-t.buffer+t.sum_feature_size*(int)sizeof(int)<=hi,"the counters of a label lie outside the statistics of the leaf"); vp_assert(q>=(char*)(inf+t.sum_feature_size-F),"the counters of a label overlap the limits of the leaf"); }
			vp_assert(lo>=t.buffer_offset&&lo>=t.buffer_preset,"the statistics of a leaf overlap the nodes"); vp_assert(hi<=MS,"the statistics of a leaf end beyond the memory given"); int k=(MS-hi)/n->compute_total_size_counters(); vp_assert((MS-hi)%n->compute_total_size_counters()==0,"the statistics of the leaves are not laid out one after the other"); vp_assert(!used[k],"two leaves share their statistics"); used[k]=true; return 1; }
		vp_assert(n->split_feature<F,"a node splits on a feature that does not exist"); int a=walk(t,n->children[0],seen,used,depth+1); return a+walk(t,n->children[1],seen,used,depth+1)+1; }
	static int wellformed(Tree& t){ bool seen[N+1],used[N+1]; for(int i=0;i<=N;i++) seen[i]=used[i]=false; int n=walk(t,0,seen,used,0); vp_assert(n*(int)sizeof(Node)==t.buffer_offset,"a node given out is not in the tree"); return n; }
	static bool full(Tree& t){ int n=t.buffer_offset/(int)sizeof(Node); return MS<Size<T,F,L,S>::of(n+2); }
#endif
	static void history(){
		int s[F]; sizes(s); Tree t(vp_any_double(0.001,0.999),s); vp_assert(t.get_root()->is_leaf(),"a new tree does not consist of a leaf");
#ifdef VP_WHITE
		track(t); int bound=1000000000; wellformed(t);
#else
		int bound=3;
#endif
		int n=0; vp_track(&n,bound<10?sizeof n:0);
		while(n<bound&&vp_any_bool()){ vp_merge(); if(bound<10) n++; T x[F]; any(x);
#ifdef VP_WHITE
			Node* leaf=t.sort_in_leaf(x); { int* c; double *a,*b; leaf->get_informations(c,a,b); vp_assume(*c<100000000); for(int l=0;l<L;l++){ int k=l; int* q=leaf->get_counters(k); for(int i=0;i<S;i++) vp_assume(q[i]<100000000&&q[i]>=0); } } // counters do not wrap
			bool was=full(t); int before=t.buffer_offset; T z[F]; any(z); Node* other=t.sort_in_leaf(z); int osz=other->compute_total_size_counters(); char keep[Size<T,F,L,S>::cnt]; int *oc; double *ol,*oi; other->get_informations(oc,ol,oi); if(other!=leaf) __builtin_memcpy(keep,oc,sizeof keep);
#endif
			bool r=t.train(x,vp_any_int(0,L-1));
#ifdef VP_WHITE
			if(other!=leaf){ vp_assert(other->is_leaf(),"training splits a leaf the data point does not belong to"); int *nc; other->get_informations(nc,ol,oi); vp_assert(nc==oc,"the statistics of a leaf are moved while another one is trained"); vp_assert(vp_same_mem(keep,oc,sizeof keep),"training one leaf changes the statistics of another"); vp_reach("other leaf"); }
			wellformed(t); if(!r){ vp_assert(was,"training fails although there is room"); vp_assert(t.buffer_offset==before&&leaf->is_leaf(),"a refused split changed the tree"); vp_reach("refused"); } else if(t.buffer_offset!=before){ vp_assert(!was,"a node is split although there is no room"); vp_assert(t.buffer_offset==before+2*(int)sizeof(Node)&&!leaf->is_leaf(),"a split does not turn the leaf into a node with two leaves"); vp_reach("split"); }
#endif
			T y[F]; any(y); query(t,y); }
		vp_reach("history"); }
};
// what a leaf answers: the share of the data points it has seen, per label
template<class T,int L> struct Ref { int n[L]; Ref(){ for(int l=0;l<L;l++) n[l]=0; } };
template<class T,int F,int L,class Tree> static void answers(Tree& t,T const* x,Ref<T,L> const& r,const char* msg){ double s[L]; for(int l=0;l<L;l++) s[l]=-7; int p=t.predict(x,s), sum=0; for(int l=0;l<L;l++) sum+=r.n[l]; for(int l=0;l<L;l++) vp_assert(near(s[l],sum?(double)r.n[l]/sum:0),msg); for(int l=0;l<L;l++) vp_assert(r.n[l]<=r.n[p],"the predicted label does not have the highest score"); }
// no split on its own (the bound is beyond any gain): splits are asked for; each leaf counts its own points
template<class T,int F,int L,int S,int NP> static void leaves(){
	typedef HoeffdingTree<T,F,L,Size<T,F,L,S>::of(3),FN> Tree; int s[F]; H<T,F,L,S,3>::sizes(s); Tree t(1e-300,s); Ref<T,L> all,side[2]; int sf=vp_split(vp_any_int(0,F-1)); T x[F];
	for(int i=0;i<2;i++){ int l=vp_split(vp_any_int(0,L-1)); for(int f=0;f<F;f++) x[f]=i*4; vp_assert(t.train(x,l),"training fails although nothing needs to be split"); all.n[l]++; }
	answers<T,F,L>(t,x,all,"a score is not the share of the data points seen in the leaf");
	vp_assert(t.get_root()->split(sf,2)==0,"a split is refused although there is room"); vp_assert(!t.get_root()->is_leaf(),"a split node is still a leaf");
	for(int f=0;f<F;f++) x[f]=0; answers<T,F,L>(t,x,side[0],"a new leaf has seen data points"); for(int f=0;f<F;f++) x[f]=3; answers<T,F,L>(t,x,side[1],"a new leaf has seen data points");
	for(int i=0;i<NP;i++){ int l=vp_split(vp_any_int(0,L-1)); int v=vp_split(vp_any_int(1,3)); for(int f=0;f<F;f++) x[f]=f==sf?v:4-v; vp_assert(t.train(x,l),"training fails although nothing needs to be split"); side[v>2].n[l]++;
		for(int w=1;w<=3;w++){ for(int f=0;f<F;f++) x[f]=f==sf?w:4-w; answers<T,F,L>(t,x,side[w>2],"a leaf does not count exactly the data points on its side of the split"); } }
	vp_reach("leaves"); }
// a refused split leaves everything as it was, in any state
template<class T,int F,int L,int S,int N,int LESS> static void refused(){
	typedef H<T,F,L,S,N,LESS,FM> HH; typedef typename HH::Tree Tree; int s[F]; HH::sizes(s); Tree t(1e-300,s); T x[F]; 
	int splits=0; if(N>=3){ HH::any(x); t.train(x,vp_any_int(0,L-1)); vp_assume(t.get_root()->is_leaf()); vp_merge(); vp_assert(t.get_root()->split(vp_split(vp_any_int(0,F-1)),vp_any_double(-10,10))==0,"a split is refused although there is room"); splits=1; }
	while(vp_any_bool()){ vp_merge(); HH::any(x); t.train(x,vp_any_int(0,L-1)); }
	HH::any(x); double a[L],b[L]; t.predict(x,a);
#ifdef VP_WHITE
	typename Tree::Node* leaf=t.sort_in_leaf(x);
#else
	if(N>=3) return; typename Tree::Node* leaf=t.get_root();
#endif
	char before[sizeof t]; __builtin_memcpy(before,&t,sizeof t);
	for(int k=0;k<2;k++){ vp_assert(leaf->split(vp_split(vp_any_int(0,F-1)),vp_any_double(-10,10))!=0,"a split without room is not refused"); vp_assert(leaf->is_leaf(),"a leaf whose split is refused is not a leaf any more"); vp_assert(vp_same_mem(before,&t,sizeof t),"a refused split changed the tree"); t.predict(x,b); for(int l=0;l<L;l++) vp_assert(vp_same(a[l],b[l]),"a refused split changed the answers"); }
	t.train(x,vp_any_int(0,L-1)); HH::query(t,x); vp_reach("refused"); }
// with no room, a split the data asks for is reported and the leaf goes on counting
template<class T,int F,int L,int S> static void nofit(){
	typedef HoeffdingTree<T,F,L,Size<T,F,L,S>::of(3,1),FN> Tree; int s[F]; H<T,F,L,S,3>::sizes(s); Tree t(1,s); double lim[S]; for(int i=0;i<S;i++) lim[i]=i?100+i:0.5; t.get_root()->set_limits(lim);
	Ref<T,L> all; bool failed=false; T x[F]; for(int i=0;i<4;i++){ int v=vp_split(vp_any_int(0,1)); for(int f=0;f<F;f++) x[f]=f==0?v*2:0; bool r=t.train(x,v); all.n[v]++; if(!r) failed=true; vp_assert(t.get_root()->is_leaf(),"a split without room is not refused"); answers<T,F,L>(t,x,all,"a score is not the share of the data points seen in the leaf"); bool both=all.n[0]&&all.n[1]; vp_assert(r==!both,"training does not report exactly the splits that are refused"); }
	if(failed) vp_reach("nofit"); }
SCN scn_C11_history_n1(){ H<double,1,2,2,1,0,FM>::history(); }
SCN scn_C11_history_n2(){ H<double,1,2,2,3,1,FM>::history(); }
SCN scn_C11_history_n3(){ H<double,1,2,2,3,0,FM>::history(); }
SCN scn_C11_history_n5(){ H<double,1,2,2,5,0,FM>::history(); }
SCN scn_C11_history_b3(){ H<double,1,2,3,3,0,FM>::history(); }
SCN scn_C11_history_b1(){ H<double,1,2,1,3,0,FM>::history(); }
SCN scn_C11_history_f2(){ H<double,2,2,4,3,0,FM>::history(); }
SCN scn_C11_history_l1(){ H<double,1,1,2,3,0,FM>::history(); }
SCN scn_C11_history_l3(){ H<double,1,3,2,3,0,FM>::history(); }
SCN scn_C11_history_int(){ H<int,1,2,2,3,0,FM>::history(); }
SCN thr_C11_history_n7(){ H<double,1,2,2,7,0,FM>::history(); }
SCN scn_C11_history_n4(){ H<double,1,2,2,5,1,FM>::history(); }
SCN scn_C11_history_f3(){ H<float,3,2,5,3,0,FM>::history(); }
SCN thr_C11_history_f2n5(){ H<double,2,2,4,5,0,FM>::history(); }

SCN scn_C11_leaves_f1(){ leaves<double,1,2,2,3>(); }
SCN scn_C11_leaves_f2(){ leaves<double,2,2,4,2>(); }
SCN scn_C11_leaves_b5(){ leaves<double,2,2,5,2>(); }
SCN scn_C11_leaves_l3(){ leaves<double,1,3,3,2>(); }
SCN scn_C11_leaves_int(){ leaves<int,1,2,2,2>(); }
SCN scn_C11_refused_1(){ refused<double,1,2,2,1,0>(); }
SCN scn_C11_refused_1b3(){ refused<double,1,2,3,1,0>(); }
SCN scn_C11_refused_1f2(){ refused<double,2,2,4,1,0>(); }
SCN scn_C11_refused_3(){ refused<double,1,2,2,3,0>(); }
SCN thr_C11_refused_3f2(){ refused<float,2,2,4,3,0>(); }
SCN scn_C11_nofit(){ nofit<double,1,2,2>(); }
SCN scn_C11_nofit_b3(){ nofit<double,1,2,3>(); }
SCN scn_C11_nofit_f2(){ nofit<double,2,2,4>(); }
SCN scn_C11_nofit_l3(){ nofit<int,1,3,2>(); }
SCN scn_C25_tree_nofit(){ nofit<double,1,2,2>(); }
SCN scn_C25_tree_n1(){ H<double,1,2,2,1,0,FM>::history(); }
SCN scn_C25_tree_n3(){ H<double,1,2,2,3,0,FM>::history(); }
SCN scn_C25_tree_n4(){ H<double,1,2,2,5,1,FM>::history(); }
// short streams over a grid: gains by definition, and the suggested split is the best one on its own feature
static double xlog(double n,double s){ return n>0&&s>0?-(n/s)*std::log2(n/s):0; }
template<class T,int F,int L,int N> static void gains(int const* fs,double const* lim,double delta,int vals){
	typedef HoeffdingTree<T,F,L,3000,FN> Tree; Tree t(delta,fs); typename Tree::Node* root=t.get_root(); root->set_limits(lim); int nl=0; for(int f=0;f<F;f++) nl+=fs[f]-1;
	T x[N][F]; int lab[N]; double sum[8], g[8], r[8]; for(int i=0;i<nl;i++) sum[i]=0;
	for(int n=0;n<N;n++){ lab[n]=vp_split(vp_any_int(0,L-1)); for(int f=0;f<F;f++) x[n][f]=(T)((vp_split(vp_any_int(0,vals-1))+f*n)%vals); T q[F]; for(int f=0;f<F;f++) q[f]=x[n][f]; double sv=-99; int s=root->train(q,lab[n],sv); root->compute_information_gain(g);
		int k=0; for(int f=0;f<F;f++) for(int b=0;b<fs[f]-1;b++,k++){ double e=0; int a[2]={0,0}; for(int l=0;l<L;l++){ int c=0; for(int i=0;i<=n;i++) c+=lab[i]==l; e+=xlog(c,n+1); } for(int i=0;i<=n;i++) a[x[i][f]>lim[k]]++;
			for(int l=0;l<L;l++) for(int d=0;d<2;d++){ int c=0; for(int i=0;i<=n;i++) c+=lab[i]==l&&(x[i][f]>lim[k])==(d==1); e-=(double)a[d]/(n+1)*xlog(c,a[d]); }
			r[k]=e; vp_assert(near(g[k],e),"the information gain of a limit is not that of the data points seen"); sum[k]+=e; }
		double best=-1, second=-1; for(int i=0;i<nl;i++){ double v=sum[i]/(n+1); if(v>best){ second=best; best=v; } else if(v>second) second=v; } if(nl==1) second=0;
		vp_assert(s>=-1&&s<F,"the suggested feature does not exist");
		if(s>=0){ bool ok=false; k=0; for(int f=0;f<F;f++) for(int b=0;b<fs[f]-1;b++,k++) if(f==s&&lim[k]==sv&&sum[k]/(n+1)>=best-1e-6) ok=true; vp_assert(ok,"the suggested split is not the limit with the highest gain, on its feature"); vp_assert(best>1e-9,"a split without gain is suggested"); vp_reach("suggested"); }
		if(delta==1&&nl>0) vp_assert((s>=0)==(best-second>1e-6)||(best-second>-1e-6&&best-second<1e-6),"a split is not suggested although its gain exceeds the bound"); }
	vp_reach("gains"); }
SCN scn_C26_gains_f1b2(){ int fs[]={2}; double lim[]={0.5}; gains<double,1,2,4>(fs,lim,1,2); }
SCN scn_C26_gains_f1b3(){ int fs[]={3}; double lim[]={0,1}; gains<double,1,2,4>(fs,lim,1,3); }
SCN scn_C26_gains_f2b2(){ int fs[]={2,2}; double lim[]={0.5,0.5}; gains<double,2,2,3>(fs,lim,1,2); }
SCN scn_C26_gains_f2b23(){ int fs[]={2,3}; double lim[]={0,0.5,1}; gains<double,2,2,3>(fs,lim,1,3); }
SCN scn_C26_gains_f3(){ int fs[]={1,2,2}; double lim[]={0.5,0}; gains<double,3,2,3>(fs,lim,1,2); }
SCN scn_C26_gains_f3b(){ int fs[]={2,1,3}; double lim[]={0.5,0,1.5}; gains<int,3,2,2>(fs,lim,1,3); }
SCN scn_C26_gains_l3(){ int fs[]={3}; double lim[]={0.5,1.5}; gains<float,1,3,3>(fs,lim,1,3); }
SCN scn_C26_gains_b1(){ int fs[]={1,1}; double lim[]={0}; gains<double,2,2,2>(fs,lim,1,2); }
SCN scn_C26_gains_never(){ int fs[]={2,2}; double lim[]={0.5,0.5}; gains<double,2,2,2>(fs,lim,1e-300,2); }
SCN thr_C26_gains_f1b3_5(){ int fs[]={3}; double lim[]={0,1}; gains<double,1,2,5>(fs,lim,1,3); }
SCN thr_C26_gains_f2b23_4(){ int fs[]={2,3}; double lim[]={0,0.5,1}; gains<double,2,2,4>(fs,lim,1,2); }
// new leaves start from nothing, and their limits divide the box of the data points seen evenly
template<class T,int F,int L,int S> static void limits(){
	typedef HoeffdingTree<T,F,L,3000,FN> Tree; int s[F]; H<T,F,L,S,3>::sizes(s); Tree t(1e-300,s); T x[F]; double lo[F],hi[F];
	for(int i=0;i<3;i++){ for(int f=0;f<F;f++){ x[f]=(T)(vp_split(vp_any_int(0,2))*4-4*f); if(i==0||x[f]<lo[f]) lo[f]=x[f]; if(i==0||x[f]>hi[f]) hi[f]=x[f]; } t.train(x,i%L); }
	int sf=vp_split(vp_any_int(0,F-1)); double sv=(lo[sf]+hi[sf])/2; vp_assert(t.get_root()->split(sf,sv)==0,"a split is refused although there is room"); 
#ifdef VP_WHITE
	for(int side=0;side<2;side++){ typename Tree::Node* n=side?t.get_root()->get_right_child():t.get_root()->get_left_child(); vp_assert(n->is_leaf(),"the child of a new split is not a leaf"); int* c; double *lim,*inf; n->get_informations(c,lim,inf); vp_assert(*c==0,"a new leaf has seen data points"); for(int l=0;l<L;l++){ int k=l; int* q=n->get_counters(k); for(int i=0;i<S;i++) vp_assert(q[i]==0,"a new leaf has seen data points"); } int k=0;
		for(int f=0;f<F;f++){ double a=lo[f],b=hi[f]; if(f==sf){ if(side) a=sv; else b=sv; } for(int i=1;i<s[f];i++,k++){ vp_assert(near(lim[k],a+i*(b-a)/s[f]),"the limits of a new leaf do not divide its box evenly"); vp_assert(inf[k]==0,"a new leaf has gained information"); } } }
	vp_reach("limits");
#endif
}
SCN scn_C26_limits(){ limits<double,1,2,2>(); }
SCN scn_C26_limits_b3(){ limits<double,1,2,3>(); }
SCN scn_C26_limits_f2(){ limits<double,2,2,5>(); }
SCN scn_C26_limits_int(){ limits<int,2,3,4>(); }
// a data point is counted in and answered from the leaf on its side of every split, a value equal to the split value on the left
template<class T,int F,int L,int S> static void routing(bool right){
	typedef HoeffdingTree<T,F,L,Size<T,F,L,S>::of(5),FN> Tree; typedef H<T,F,L,S,5> HH; typedef typename Tree::Node Node; int s[F]; HH::sizes(s); Tree t(1e-300,s); T x[F],y[F];
	if(F==1) HH::any(x); else for(int f=0;f<F;f++) x[f]=f; t.train(x,0); if(F==1) HH::any(x); else for(int f=0;f<F;f++) x[f]=3; t.train(x,L-1); int sf=F-1; double sv=vp_any_double(-10,10); vp_assert(t.get_root()->split(sf,sv)==0,"a split is refused although there is room");
	HH::any(x); HH::any(y); bool tie=vp_any_bool(); if(tie) vp_assume(x[sf]==sv); bool sx=x[sf]>sv, sy=y[sf]>sv; double a[L],b[L];
	t.train(x,0); t.predict(x,a); vp_assert(vp_same(a[0],1.0),"a data point is not answered from the leaf it was trained in"); for(int l=1;l<L;l++) vp_assert(vp_same(a[l],0.0),"a data point is not answered from the leaf it was trained in");
	t.predict(y,b); if(sx==sy) for(int l=0;l<L;l++) vp_assert(vp_same(a[l],b[l]),"a data point on the same side of a split is answered from another leaf"); else for(int l=0;l<L;l++) vp_assert(vp_same(b[l],0.0),"a data point on the other side of a split is answered from the same leaf");
	if(tie){ vp_assert(!sx,"a value equal to the split value"); vp_reach("tie"); }
#ifdef VP_WHITE
	Node* c[2]={t.get_root()->get_left_child(),t.get_root()->get_right_child()}; vp_assert(t.sort_in_leaf(x)==c[sx],"a data point is sorted into the wrong leaf"); vp_assert(t.sort_in_leaf(y)==c[sy],"a data point is sorted into the wrong leaf");
	int sf2=0; double sv2=vp_any_double(-10,10); vp_assert(c[right]->split(sf2,sv2)==0,"a split is refused although there is room"); if(vp_any_bool()) vp_assume(y[sf2]==sv2); bool dy=y[sf2]>sv2; Node* want=sy==right?(dy?c[right]->get_right_child():c[right]->get_left_child()):c[!right]; vp_assert(t.sort_in_leaf(y)==want,"a data point is sorted into the wrong leaf");
	int* q; double *u,*v; want->get_informations(q,u,v); int n=*q; t.train(y,L-1); vp_assert(*q==n+1,"a data point is not counted in the leaf it is sorted into");
#endif
	vp_reach("routing"); }
// the data point that makes a leaf split is counted on its side, a value equal to the split value on the left
template<class T,int L> static void at_split(){
	typedef HoeffdingTree<T,1,L,Size<T,1,L,2>::of(3),FN> Tree; int s[1]={2}; Tree t(1,s); double lim[2]={2,2}; t.get_root()->set_limits(lim); T x[1]; int last=vp_split(vp_any_int(0,3)); int first=last<=2?3:1; double a[L];
	x[0]=(T)first; vp_assert(t.train(x,0),"training fails although nothing needs to be split"); x[0]=(T)last; vp_assert(t.train(x,1),"a split is refused although there is room"); vp_assert(!t.get_root()->is_leaf(),"a split the data asks for is not made");
	t.predict(x,a); for(int l=0;l<L;l++) vp_assert(vp_same(a[l],l==1?1.0:0.0),"the data point that makes a leaf split is not counted in its leaf"); x[0]=(T)first; t.predict(x,a); for(int l=0;l<L;l++) vp_assert(vp_same(a[l],0.0),"the data point that makes a leaf split is counted on the other side"); vp_reach(last==2?"tie":"split"); }
SCN scn_C16_tree_left(){ routing<double,1,2,2>(false); }
SCN scn_C16_tree_right(){ routing<double,1,2,2>(true); }
SCN scn_C16_tree_f2(){ routing<double,2,2,4>(true); }
SCN scn_C16_tree_l3(){ routing<double,1,3,3>(false); }
SCN scn_C16_tree_int(){ routing<int,1,2,2>(true); }
SCN scn_C16_tree_split(){ at_split<double,2>(); }
SCN scn_C16_tree_split_l3(){ at_split<float,3>(); }
SCN scn_C16_tree_train(){ H<double,1,2,2,3,0,FM>::history(); }
SCN scn_C15_history_tree(){ H<double,1,2,2,3,0,FM>::history(); }
SCN scn_C15_history_tree_l3(){ H<double,1,3,2,3,0,FM>::history(); }
