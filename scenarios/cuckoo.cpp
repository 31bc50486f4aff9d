#include "vp.h"
#include "cuckoo_filter.hpp"
#include <cstring>
// Elements are 0..K-1. Their fingerprints and hashes, and the hash of a fingerprint, are unknown pure
// functions over the whole documented range; the number of buckets is a power of two (hashes are combined by XOR).
static unsigned char fps[4]; static unsigned eh[4]; static unsigned fh[256]; 
template<int B,int EMPTY,int E> struct Fn {
	static unsigned char fingerprint(int const* e){ vp_assert(*e>=0&&*e<4,"the fingerprint function is called with something that is not an element"); return fps[*e]; }
	static unsigned hash(int const* e){ vp_assert(*e>=0&&*e<4,"the hash function is called with something that is not an element"); return eh[*e]; }
	static unsigned hash(unsigned char fp){ vp_assert(fp!=EMPTY&&fp<(1<<E),"the hash function is called with something that is no fingerprint"); return fh[fp]; }
};
static double rnd(){ vp_merge(); return vp_any_double(0,1); }
template<int B,int S,int E,int EMPTY,int K,int LO,int HI,bool SAME=false,int HM=B-1,int EM=B-1> struct C {
	typedef CuckooFilter<int,B,S,E,Fn<B,EMPTY,E>,rnd,EMPTY> F;
	static void world(){ // every choice of fingerprints and hashes, the first element hashing to 0 by symmetry
		for(int i=0;i<K;i++){ int f=i==1&&SAME?fps[0]:LO+i%(HI-LO+1); fps[i]=f; eh[i]=i==0?0:vp_split(vp_any_int(0,B-1)); vp_assume((eh[i]&~EM)==0); fh[f]=B; }
		for(int i=0;i<K;i++) if(fh[fps[i]]==B) { fh[fps[i]]=vp_split(vp_any_int(0,B-1)); vp_assume((fh[fps[i]]&~HM)==0); } }
	static bool room(F& f,int k,int const* cnt){ // a free slot in either bucket of the element
		unsigned h1=eh[k], h2=eh[k]^fh[fps[k]]; int used=0; for(int j=0;j<K;j++) if((eh[j]==h1&&h2==(eh[j]^fh[fps[j]]))||(eh[j]==h2&&h1==(eh[j]^fh[fps[j]]))) used+=cnt[j]; 
		int touching=0; for(int j=0;j<K;j++){ unsigned a=eh[j], b=eh[j]^fh[fps[j]]; if(a==h1||a==h2||b==h1||b==h2) touching+=cnt[j]; }
		return touching<(h1==h2?S:2*S); } // even if everything that may live there does
	// MODE 2: what adds promise; MODE 3: what removals and clear() promise; the other half is taken for granted
	#define A2(c,m) do{ if(MODE==2) vp_assert(c,m); else vp_assume(c); }while(0)
	#define A3(c,m) do{ if(MODE==3) vp_assert(c,m); else vp_assume(c); }while(0)
	template<int MODE> static void history(){
		world(); F f; int cnt[K]; for(int i=0;i<K;i++) cnt[i]=0; vp_track(cnt,sizeof cnt);
		for(int i=0;i<K;i++) A3(!f.lookup(i),"a new filter answers true");
		while(vp_any_bool()){
			vp_merge();
			int op=vp_split(vp_any_int(0,3)); int k=vp_split(vp_any_int(0,K-1)); bool ok=true;
			if(op==0){ bool fits=room(f,k,cnt); ok=k&1?f.add(k):f.add(&k); if(ok){ cnt[k]++; vp_reach("add"); } else A2(!fits,"an add that fits in a free slot is refused"); }
			else if(op==1){ if(cnt[k]>0){ if(k&1) f.remove(k); else f.remove(&k); cnt[k]--; vp_reach("remove"); } }
			else if(op==2){ if(!f.lookup(k)){ A2(cnt[k]==0,"an added element is not found"); F const before(f); f.remove(k); A3(vp_same_mem(&before,&f,sizeof f),"removing an absent element changes the filter"); vp_reach("absent"); } }
			else { f.clear(); for(int i=0;i<K;i++){ cnt[i]=0; A3(!f.lookup(i),"after clear() a lookup answers true"); } vp_reach("clear"); }
			bool any=false; for(int i=0;i<K;i++) any|=cnt[i]>0;
			for(int i=0;i<K;i++){
				if(cnt[i]>0){ bool found=i==1?f.lookup(&i):f.lookup(i);
					if(!ok) A2(found,"an added element is not found after an add that reported failure");
					else if(op==0) A2(found,"an added element is not found after a later add that succeeded");
					else if(op==1) A3(found,"removing an element made another one disappear");
					else A3(found,"removing an absent element made another one disappear"); }
				else if(!any&&ok) A3(!f.lookup(i),"after every copy was removed something is still found"); }
			if(!ok){ vp_reach("full"); vp_assume(false); }
		}
	}
};
SCN scn_C02_b2s1(){ C<2,1,2,0,2,1,3>::history<2>(); }
SCN scn_C03_b2s1(){ C<2,1,2,0,2,1,3>::history<3>(); }
SCN scn_C02_b2s1_three(){ C<2,1,2,0,3,1,2>::history<2>(); }
SCN scn_C03_b2s1_three(){ C<2,1,2,0,3,1,2>::history<3>(); }
SCN scn_C02_b4s1(){ C<4,1,2,0,3,1,3,false,2,3>::history<2>(); }
SCN scn_C03_b4s1(){ C<4,1,2,0,3,1,3,false,2,3>::history<3>(); }
SCN thr_C02_b4s1(){ C<4,1,2,0,3,1,3,false,3,1>::history<2>(); }
SCN thr_C03_b4s1(){ C<4,1,2,0,3,1,3,false,3,1>::history<3>(); }
SCN scn_C02_b4s1_same(){ C<4,1,2,0,3,2,3,true>::history<2>(); }
SCN scn_C03_b4s1_same(){ C<4,1,2,0,3,2,3,true>::history<3>(); }
SCN scn_C02_b2s2(){ C<2,2,2,0,2,1,3>::history<2>(); }
SCN scn_C03_b2s2(){ C<2,2,2,0,2,1,3>::history<3>(); }
SCN scn_C02_b2s2_same(){ C<2,2,2,0,3,1,3,true>::history<2>(); }
SCN scn_C03_b2s2_same(){ C<2,2,2,0,3,1,3,true>::history<3>(); }
SCN scn_C02_b1s3(){ C<1,3,3,0,2,6,7>::history<2>(); }
SCN scn_C03_b1s3(){ C<1,3,3,0,2,6,7>::history<3>(); }
SCN scn_C02_wide8(){ C<2,1,8,0,2,127,128>::history<2>(); }
SCN scn_C03_wide8(){ C<2,1,8,0,2,127,128>::history<3>(); }
SCN scn_C02_wide7(){ C<2,1,7,0,2,126,127>::history<2>(); }
SCN scn_C03_wide7(){ C<2,1,7,0,2,126,127>::history<3>(); }
SCN scn_C02_empty3(){ C<2,1,2,3,2,0,1>::history<2>(); }
SCN scn_C03_empty3(){ C<2,1,2,3,2,0,1>::history<3>(); }
SCN scn_C02_empty255(){ C<2,1,8,255,2,253,254>::history<2>(); }
SCN scn_C03_empty255(){ C<2,1,8,255,2,253,254>::history<3>(); }
SCN scn_C02_b8s2(){ C<8,2,5,0,2,30,31,false,4,6>::history<2>(); }
SCN scn_C03_b8s2(){ C<8,2,5,0,2,30,31,false,4,6>::history<3>(); }
SCN thr_C02_b8s3(){ C<8,3,5,0,2,30,31,false,4,0>::history<2>(); }
SCN thr_C03_b8s3(){ C<8,3,5,0,2,30,31,false,4,0>::history<3>(); }
