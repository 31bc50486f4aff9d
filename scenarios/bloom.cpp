#include "vp.h"
#include "bloom_filter.hpp"
// hash functions: unknown pure functions of the element value over the whole documented range
template<int N> unsigned h0(int* e){ return vp_split(vp_pure_int(0,0,N-1,*e)); }
template<int N> unsigned h1(int* e){ return vp_split(vp_pure_int(1,0,N-1,*e)); }
template<int N> unsigned h2(int* e){ return vp_split(vp_pure_int(2,0,N-1,*e)); }
template<int N,int H> struct B {
	typedef unsigned (*hf)(int*);
	typedef BloomFilter<int,N,H> F;
	static hf* hs(){ static hf h[3]={h0<N>,h1<N>,h2<N>}; return h; }
	static void history(){ // any history around one remembered element
		F f(hs()); int key=vp_any_int(INT_MIN,INT_MAX); bool in=false; vp_track(&in,sizeof in);
		while(vp_any_bool()){
			vp_merge();
			int op=vp_split(vp_any_int(0,6));
			if(op==0){ f.add(key); in=true; }
			else if(op==1){ f.add(&key); in=true; }
			else if(op==2){ int o=vp_any_int(INT_MIN,INT_MAX); if(vp_any_bool()) f.add(o); else f.add(&o); }
			else if(op==3){ int o=vp_any_int(INT_MIN,INT_MAX); if(vp_any_bool()) f.lookup(o); else f.lookup(&o); }
			else if(op==4){ f.clear(); in=false; int o=vp_any_int(INT_MIN,INT_MAX); vp_assert(!f.lookup(o),"after clear() a lookup answers true"); vp_reach("clear"); }
			else if(op==5){ unsigned char b[N]; for(int i=0;i<N;i++) b[i]=vp_any_bool()?1:0; f.set(b); in=false; }
			if(in){ vp_reach("member"); vp_assert(f.lookup(key),"lookup(element) is false although the element was added"); vp_assert(f.lookup(&key),"lookup(pointer) is false although the element was added"); }
		}
	}
	static void fresh(){ F f(hs()); int o=vp_any_int(INT_MIN,INT_MAX); vp_assert(!f.lookup(o),"a new filter answers true"); vp_assert(!f.lookup(&o),"a new filter answers true"); vp_reach("fresh"); }
	static void pureset(){ F f(hs()); unsigned char b[N]; for(int i=0;i<N;i++) b[i]=vp_any_bool()?1:0;
		if(vp_any_bool()){ int o=vp_any_int(INT_MIN,INT_MAX); f.add(o); }
		f.set(b); int k=vp_any_int(INT_MIN,INT_MAX); bool want=true; for(int i=0;i<H;i++) if(!b[hs()[i](&k)]) want=false; vp_assert(f.lookup(k)==want,"lookup does not answer from the bits given to set()"); vp_reach("set"); }
};
SCN scn_C01_history_n4h2(){ B<4,2>::history(); }
SCN scn_C01_history_n6h1(){ B<6,1>::history(); }
SCN scn_C01_history_n3h3(){ B<3,3>::history(); }
SCN scn_C01_history_n1h1(){ B<1,1>::history(); }
SCN scn_C01_fresh(){ B<17,3>::fresh(); B<1,1>::fresh(); B<8,2>::fresh(); }
SCN scn_C01_set(){ B<5,2>::pureset(); }
SCN scn_C01_set9(){ B<9,1>::pureset(); }

// a filter larger than a byte can index: positions around the 8- and 16-bit limits
template<int N> unsigned hbig(int* e){ static const int p[]={0,1,2,127,128,255,256,257,N/2,N-2,N-1}; return p[vp_split(vp_pure_int(0,0,10,*e))]; }
template<int N> static void big(){ typedef unsigned (*hf)(int*); static hf h[1]={hbig<N>}; vp_unroll(N+10); BloomFilter<int,N,1> f(h); int k=vp_any_int(INT_MIN,INT_MAX), o=vp_any_int(INT_MIN,INT_MAX);
	vp_assert(!f.lookup(k),"a new filter answers true"); f.add(k); vp_assert(f.lookup(k),"lookup is false although the element was added"); bool same=hbig<N>(&k)==hbig<N>(&o); vp_assert(f.lookup(o)==same,"an element whose bits are not set is found"); f.add(&o); vp_assert(f.lookup(k)&&f.lookup(o),"lookup is false although the element was added"); f.clear(); vp_assert(!f.lookup(k)&&!f.lookup(o),"after clear() a lookup answers true"); vp_reach("big"); }
SCN scn_C01_big300(){ big<300>(); }
SCN scn_C01_big1000(){ big<1000>(); }
SCN thr_C01_big40000(){ big<40000>(); }
