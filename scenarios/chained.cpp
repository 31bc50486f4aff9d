#include "vp.h"
#include <cstdlib>
#include "chained_reservoir.hpp"
// reads of the model's private chain use these accessors only
#ifdef VP_WHITE
#define HEAD(r,i) (&(r).sample[i])
#define NXT(n) ((n)->next)
#define ELT(n) ((n)->element)
#define TS(n) ((n)->timestamp)
#endif
static unsigned draws; // random() is a pure function of the number of draws so that two instances can be given the same history
struct RF { static double random(){ return vp_any_double(0,1); } static void* malloc(unsigned n){ return std::malloc(n); } };
static double tape[64]; static int tpos, tlen; static bool replay;
struct RT { static double random(){ if(replay){ vp_assume(tpos<tlen); return tape[tpos++]; } double d=vp_any_double(0,1); tape[tlen++]=d; return d; } static void* malloc(unsigned n){ return std::malloc(n); } };
static const unsigned TS1[]={1,2,2,4,5,5,7,8,9}, TS2[]={3,3,3,6,6,9,10,10,12};
#ifdef VP_WHITE
// after obsolete(t), every slot shows what the documentation promises about its own chain
template<class R,int N> static void check(R& r,unsigned t){
	int len[N]; int el[N][12]; unsigned ts[N][12];
	for(int i=0;i<N;i++){ len[i]=0; auto* n=HEAD(r,i); while(n!=NULL){ vp_assert(len[i]<12,"a chain grew without bound"); el[i][len[i]]=ELT(n); ts[i][len[i]]=TS(n); if(len[i]>0&&TS(n)==0) break; len[i]++; n=NXT(n); } }
	r.obsolete(t);
	for(int i=0;i<N;i++){ int f=0; while(f<len[i]&&ts[i][f]<=t) f++;
		if(f==0) vp_reach("kept"); if(f==len[i]){ f=0; vp_reach("no successor"); } else if(f>0) vp_reach("shifted");
		auto* n=HEAD(r,i); for(int k=f;k<len[i];k++){ vp_assert(n!=NULL,"the chain lost elements when its head became obsolete"); vp_assert(ELT(n)==el[i][k]&&TS(n)==ts[i][k],k==f?"a slot does not show the first element of its chain that is newer than the obsolete timestamp":"the rest of a chain changed when its head became obsolete"); n=NXT(n); }
		vp_assert(n==NULL||TS(n)==0,"obsolete elements remain in the chain"); vp_assert(r[i]==el[i][f],"operator[] does not show the head of the chain"); }
}
#endif
template<class R,int N,int A> static void run(const unsigned* ts,unsigned t1,unsigned t2,int more){
	vp_track_all(true); R r; int e[A]; int n=0; vp_track(&n,sizeof n); for(n=0;n<A;n++){ vp_merge(); e[n]=100+n; r.add(e[n],ts[n]); }
	vp_merge();
	// what a slot shows is one of the elements added
	for(int i=0;i<N;i++){ bool ok=false; for(int k=0;k<A;k++) ok|=r[i]==e[k]; vp_assert(ok,"a slot shows something that was never added"); }
	int before[N]; for(int i=0;i<N;i++) before[i]=r[i];
#ifdef VP_WHITE
	check<R,N>(r,t1);
#else
	r.obsolete(t1);
#endif
	for(int i=0;i<N;i++){ unsigned b=ts[before[i]-100]; int a=r[i]; vp_assert(a>=100&&a<100+A,"a slot shows something that was never added"); if(b>t1) vp_assert(a==before[i],"an element newer than the obsolete timestamp was discarded"); else if(a!=before[i]) vp_assert(ts[a-100]>t1,"an obsolete element was replaced by another obsolete element"); }
	vp_merge(); for(int k=0;k<more;k++) r.add(200+k,ts[A-1]+1+k);
#ifdef VP_WHITE
	check<R,N>(r,t2);
#endif
	vp_reach("run");
}
// declaring t2 obsolete at once or after t1 < t2 shows the same elements
template<int N,int A> static void steps(const unsigned* ts,unsigned t1,unsigned t2){
	typedef ChainedReservoirSampling<int,N,RT> R; R a,b; tlen=0; tpos=0; replay=false; for(int i=0;i<A;i++) a.add(100+i,ts[i]); replay=true; for(int i=0;i<A;i++) b.add(100+i,ts[i]);
	for(int i=0;i<N;i++) vp_assert(a[i]==b[i],"two reservoirs with the same history differ");
	a.obsolete(t1); a.obsolete(t2); b.obsolete(t2); for(int i=0;i<N;i++){ if(ts[b[i]-100]>t2) vp_assert(a[i]==b[i],"discarding in two steps and at once leave different elements: a chain was lost or reordered"); else vp_assert(ts[a[i]-100]<=t2,"discarding at once found no successor although discarding in two steps did"); } vp_reach("steps"); }
SCN scn_C05_two_5(){ run<ChainedReservoirSampling<int,2,RF>,2,5>(TS1,vp_split(vp_any_int(0,6)),9,0); }
SCN scn_C05_two_4_again(){ run<ChainedReservoirSampling<int,2,RF>,2,4>(TS1,vp_split(vp_any_int(1,4)),vp_split(vp_any_int(2,6)),1); }
SCN scn_C05_two_4_dup(){ run<ChainedReservoirSampling<int,2,RF>,2,4>(TS2,vp_split(vp_any_int(2,6)),vp_split(vp_any_int(3,7)),2); }
SCN scn_C05_three_5(){ run<ChainedReservoirSampling<int,3,RF>,3,5>(TS1,vp_split(vp_any_int(0,6)),7,0); }
SCN scn_C05_one_6(){ run<ChainedReservoirSampling<int,1,RF>,1,6>(TS1,vp_split(vp_any_int(0,6)),vp_split(vp_any_int(3,9)),1); }
SCN scn_C05_steps_two(){ unsigned t1=vp_split(vp_any_int(1,5)); steps<2,5>(TS1,t1,t1+vp_split(vp_any_int(0,2))); }
SCN scn_C05_steps_one(){ unsigned t1=vp_split(vp_any_int(1,7)); steps<1,7>(TS1,t1,t1+vp_split(vp_any_int(0,3))); }
SCN thr_C05_two_7(){ run<ChainedReservoirSampling<int,2,RF>,2,7>(TS1,vp_split(vp_any_int(0,8)),vp_split(vp_any_int(4,9)),1); }
SCN thr_C05_three_5_dup(){ run<ChainedReservoirSampling<int,3,RF>,3,5>(TS2,vp_split(vp_any_int(2,7)),vp_split(vp_any_int(4,8)),0); }
// a chain may become longer than any fixed number of elements
struct RLong { static double random(){ return 0.99; } static void* malloc(unsigned n){ return std::malloc(n); } };
SCN scn_C05_long(){ ChainedReservoirSampling<int,1,RLong> r; for(int i=0;i<5003;i++) r.add(i,i+1); int a=r[0]; vp_assert(a>=0&&a<5003,"a slot shows something that was never added"); vp_reach("long chain"); }
