#include "vp.h"
#include "mc_nn.hpp"
template<class T> static T val(double lo,double hi){ if(std::is_floating_point<T>::value) return (T)vp_any_double(lo,hi); return (T)vp_any_int((int)lo,(int)hi); }
template<class T,int F,int C,int K,int EMPTY=-1> struct M {
	typedef MCNN<T,F,C,EMPTY> N;
	static void query(N const& m,bool const* seen,T const* x){
		int c=m.count_clusters(); vp_assert(c>=0&&c<=C,"the number of clusters is not between 0 and the capacity");
		int p=m.predict(x); vp_assert((p==EMPTY)==(c==0),"the empty class is not answered exactly when no cluster is in use"); if(p!=EMPTY){ vp_assert(p>=0&&p<K,"the predicted label was never given"); vp_assert(seen[p],"the predicted label was never seen in training"); vp_reach("predicted"); } else vp_reach("empty");
#ifdef VP_WHITE
		int n=0; bool has=false; for(int i=0;i<C;i++) if(m.active[i]){ n++; vp_assert(m.clusters[i].data_count>=1,"a cluster in use has no data point"); int l=m.clusters[i].label; vp_assert(l>=0&&l<K,"a cluster in use has a label that was never given"); vp_assert(seen[l],"a cluster in use has a label never seen in training"); if(l==p) has=true; }
		vp_assert(n==c,"the reported number of clusters is not the number of clusters in use"); vp_assert(p==EMPTY||has,"the predicted label is not that of a cluster in use");
#endif
	}
	// every history, whatever the features (MODE: cleaning method)
	static void history(unsigned err,unsigned mode){
		N m(err,mode,vp_any_double(0,200)); bool seen[K]; for(int i=0;i<K;i++) seen[i]=false; vp_track(seen,sizeof seen);
#ifdef VP_WHITE
		vp_track(m.active,sizeof m.active); vp_track(&m.count_active_cluster,sizeof m.count_active_cluster); for(int i=0;i<C;i++) vp_track(&m.clusters[i].label,sizeof m.clusters[i].label);
		int bound=1000000000;
#else
		int bound=4;
#endif
		vp_assert(m.count_clusters()==0,"a new instance has clusters");
		int n=0; vp_track(&n,bound<10?sizeof n:0);
		while(n<bound&&vp_any_bool()){ vp_merge(); if(bound<10) n++;
#ifdef VP_WHITE
			for(int i=0;i<C;i++) if(m.active[i]) vp_assume(m.clusters[i].data_count<1000000000u); // counters do not wrap
#endif
			bool had=false;
			T x[F]; for(int f=0;f<F;f++) x[f]=val<T>(-1000,1000); int l=vp_split(vp_any_int(0,K-1)); int before=m.count_clusters();
			
#ifdef VP_WHITE
			for(int i=0;i<C;i++) if(m.active[i]&&m.clusters[i].label==l) had=true;
#endif
			bool r=m.train(x,l); if(r) seen[l]=true; else { vp_assert(mode==1&&before==C,"training is refused although there is room or clusters may be replaced"); vp_reach("refused"); }
#ifdef VP_WHITE
			if(r&&!had){ bool has=false; for(int i=0;i<C;i++) if(m.active[i]&&m.clusters[i].label==l) has=true; vp_assert(has,"no cluster carries the label of the first point of its class"); vp_reach("new label"); }
#endif
			if(r&&C==1){ int p=m.predict(x); vp_assert(p==l,"the only cluster does not carry the label of the last point taken in"); }
			T y[F]; for(int f=0;f<F;f++) y[f]=val<T>(-1000,1000); query(m,seen,y); }
	}
	// far away points, infinities and NaN included
	static void far(){ N m(2,0); bool seen[K]; for(int i=0;i<K;i++) seen[i]=false; T x[F]; for(int f=0;f<F;f++) x[f]=(T)vp_any_fp(); query(m,seen,x); for(int i=0;i<3;i++){ int l=vp_split(vp_any_int(0,K-1)); for(int f=0;f<F;f++) x[f]=(T)vp_any_fp(); vp_assert(m.train(x,l),"training fails"); seen[l]=true; for(int f=0;f<F;f++) x[f]=(T)vp_any_fp(); query(m,seen,x); } vp_reach("far"); }
	// short histories over a grid of features with unit spacing: clusters are compared with a plain reference
	static bool near(double a,double b){ double d=a-b; return d<1e-9&&d>-1e-9; }
};
// reference: plain arrays, one feature, no timestamps other than counting
template<class T,int C,int K> struct R {
	double sum[C],sq[C]; unsigned n[C]; int lab[C],err[C]; bool act[C]; int thr; double ts,tsum[C],tini[C]; unsigned mode;
	R(int t,unsigned md){ thr=t; ts=-1; mode=md; for(int i=0;i<C;i++){ act[i]=false; n[i]=0; lab[i]=err[i]=0; sum[i]=sq[i]=tsum[i]=tini[i]=0; } }
	double d(int i,double x) const { double c=(T)(sum[i]/n[i]); return (c-x)*(c-x); }
	double dist(double x,int lb,bool& any) const { double r=0; any=false; for(int i=0;i<C;i++) if(act[i]&&(lb<0||lab[i]==lb)){ double e=d(i,x); if(!any||e<r) r=e; any=true; } return r; }
};
// the nearest cluster decides; ties may go either way
template<class T,int C,int K,int N> static void nearest(unsigned err,unsigned mode){
	typedef MCNN<T,1,C> M; M m(err,mode); static const int grid[]={0,3,10,-6};
	// with a high error threshold and enough capacity there is one cluster per label, its centroid is the mean
	double sum[K]; int n[K]; for(int k=0;k<K;k++) sum[k]=n[k]=0;
	for(int i=0;i<N;i++){ int l=vp_split(vp_any_int(0,K-1)); T x[1]={(T)grid[vp_split(vp_any_int(0,3))]}; vp_assert(m.train(x,l),"training fails although there is room"); sum[l]+=x[0]; n[l]++; int c=0; for(int k=0;k<K;k++) c+=n[k]>0; vp_assert(m.count_clusters()==c,"there is not one cluster per label although none was split"); }
	for(int q=-8;q<=12;q+=4){ T x[1]={(T)q}; int p=m.predict(x); vp_assert(p>=0&&p<K&&n[p]>0,"the predicted label was never seen in training"); T cp=(T)(sum[p]/n[p]); for(int k=0;k<K;k++) if(n[k]){ T c=(T)(sum[k]/n[k]); vp_assert((cp-q)*(cp-q)<=(c-q)*(c-q)+1e-9,"the predicted label is not that of the nearest cluster"); } }
	vp_reach("nearest"); }
// two labels next to each other: the errors split a cluster, and the two halves lie around the old centroid
template<class T> static void splitting(){
	typedef MCNN<T,2,4> M; M m(2,0); T a[2]={0,0}, b[2]={100,100}; m.train(a,0); m.train(b,1); vp_assert(m.count_clusters()==2,"there is not one cluster per label although none was split");
	T near_b[2]={90,100}; m.train(near_b,0); vp_assert(m.count_clusters()==2,"a cluster is split before its error count is used up"); T near_a[2]={20,0}; m.train(near_a,0); 
	T nb2[2]={88,100}; m.train(nb2,0); vp_assert(m.count_clusters()==3||m.count_clusters()==4,"a cluster whose error count is used up is not split"); vp_reach("split"); 
	T q[2]={0,0}; vp_assert(m.predict(q)==0,"the predicted label is not that of the nearest cluster"); T q1[2]={100,100}; vp_assert(m.predict(q1)==1,"the predicted label is not that of the nearest cluster"); }
// a cluster that does not take part any more is removed, and then no longer counted nor predicted
template<class T> static void cleaning(unsigned mode){
	typedef MCNN<T,1,4> M; M m(50,mode,20); T a[1]={0}, b[1]={1000}; m.train(b,1); m.train(b,1); vp_assert(m.count_clusters()==1,"there is not one cluster per label although none was split"); bool gone=false;
	for(int i=0;i<12;i++){ m.train(a,0); int c=m.count_clusters(), p=m.predict(b); if(c==1){ vp_assert(p==0,"a removed cluster still predicts"); gone=true; } else { vp_assert(c==2,"the number of clusters is wrong"); vp_assert(p==1,"the predicted label is not that of the nearest cluster"); vp_assert(!gone,"a removed cluster came back"); } }
	vp_assert(gone==(mode!=0),mode?"a cluster below the performance threshold is kept":"a cluster is removed although the cleaning method does not allow it"); vp_reach("cleaning"); }
// a full set of clusters: the least participating one gives way (methods 0 and 2), or the point is refused (method 1)
template<class T> static void full(unsigned mode){
	typedef MCNN<T,1,2> M; M m(50,mode,0); T x[1]; x[0]=0; m.train(x,0); x[0]=100; m.train(x,1); int busy=vp_split(vp_any_int(0,1)); for(int i=0;i<5;i++){ x[0]=busy*100; m.train(x,busy); } if(vp_split(vp_any_int(0,1))){ x[0]=(1-busy)*100; m.train(x,1-busy); for(int i=0;i<9;i++){ x[0]=busy*100; m.train(x,busy); } }
	x[0]=50; bool r=m.train(x,2); vp_assert(r==(mode!=1),"a point is not refused exactly when the clusters may not be replaced"); vp_assert(m.count_clusters()==2,"the number of clusters changed although all are in use"); int pb,po,pn; x[0]=busy*100; pb=m.predict(x); x[0]=(1-busy)*100; po=m.predict(x); x[0]=50; pn=m.predict(x);
	vp_assert(pb==busy,"the participating cluster was removed"); if(mode==1) vp_assert(po==1-busy,"a refused point changed the clusters"); else { vp_assert(pn==2,"the new cluster does not predict"); vp_assert(po==2,"the removed cluster still predicts"); } vp_reach("full"); }
SCN scn_C07_history_c1_m0(){ M<double,1,1,2>::history(vp_split(vp_any_int(0,2)),0); }
SCN scn_C07_history_c1_m1(){ M<double,1,1,2>::history(vp_split(vp_any_int(0,2)),1); }
SCN scn_C07_history_c1_m2(){ M<double,1,1,2>::history(vp_split(vp_any_int(0,2)),2); }
SCN scn_C07_history_c2_m0(){ M<double,1,2,2>::history(2,0); }
SCN scn_C07_history_c2_m1(){ M<double,1,2,2>::history(2,1); }
SCN scn_C07_history_c2_m2(){ M<double,1,2,2>::history(2,2); }
SCN scn_C07_history_c2_e0(){ M<double,1,2,2>::history(0,vp_split(vp_any_int(0,2))); }
SCN scn_C07_history_c3_m0(){ M<double,1,3,2>::history(1,0); }
SCN scn_C07_history_c3_m1(){ M<double,1,3,2>::history(1,1); }
SCN scn_C07_history_c3_m2(){ M<double,1,3,2>::history(1,2); }
SCN scn_C07_history_f2(){ M<double,2,2,2>::history(1,vp_split(vp_any_int(0,2))); }
SCN scn_C07_history_int(){ M<int,1,2,2>::history(1,vp_split(vp_any_int(0,2))); }
SCN scn_C07_history_float(){ M<float,1,2,2>::history(1,vp_split(vp_any_int(0,2))); }
SCN scn_C07_history_empty(){ M<double,1,2,2,7>::history(1,vp_split(vp_any_int(0,2))); }
SCN scn_C07_far(){ M<double,1,2,2>::far(); }
SCN scn_C07_far_f2(){ M<float,2,2,2>::far(); }
SCN scn_C07_nearest(){ nearest<double,3,2,3>(50,vp_split(vp_any_int(0,2))); }
SCN scn_C07_nearest_3(){ nearest<double,3,3,3>(50,0); }
SCN scn_C07_nearest_int(){ nearest<int,3,2,3>(50,0); }
SCN scn_C07_nearest_float(){ nearest<float,2,2,3>(50,0); }
SCN scn_C07_splitting(){ splitting<double>(); splitting<int>(); splitting<float>(); }
SCN scn_C07_cleaning(){ cleaning<double>(0); cleaning<double>(1); cleaning<double>(2); cleaning<int>(1); }
SCN scn_C07_full(){ full<double>(0); full<double>(1); full<double>(2); full<int>(0); }
SCN thr_C07_history_c3_k3(){ M<double,1,3,3>::history(1,0); }
SCN thr_C07_history_c3_k3m1(){ M<double,1,3,3>::history(1,1); }
SCN thr_C07_history_c4(){ M<double,1,4,2>::history(1,0); }
SCN thr_C07_nearest_5(){ nearest<double,3,3,4>(50,0); }
// settings
SCN scn_C07_settings(){ double p=vp_any_double(0,100); MCNN<double,1,2> m(7,1,p); vp_assert(m.get_error_thr()==7&&vp_same(m.get_performance_thr(),p),"the thresholds are not the ones given"); vp_reach("settings"); }
// training reports whether a data point was taken in
SCN scn_C25_clusters_m0(){ M<double,1,2,2>::history(2,0); }
SCN scn_C25_clusters_m1(){ M<double,1,2,3>::history(2,1); }
SCN scn_C25_clusters_m2(){ M<double,1,2,2>::history(2,2); }
SCN scn_C25_clusters_nearest(){ nearest<double,2,2,3>(50,vp_split(vp_any_int(0,2))); }
SCN scn_C25_clusters_full(){ full<double>(0); full<double>(1); full<double>(2); full<int>(0); }
