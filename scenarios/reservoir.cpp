#include "vp.h"
#include "reservoir_sampling.hpp"
#include <cmath>
// the random function may return any value in [0,1], both ends included
struct RF { static double random(){ return vp_any_double(0,1); } static int floor(double d){ return (int)::floor(d); } };
struct Item { int a; double b; };
template<class R,unsigned N,bool PLAIN> static void history(){
	R r; int shadow[N]; unsigned filled=0, offered=0; vp_track(&filled,sizeof filled); bool over=false; vp_track(&over,sizeof over);
	vp_assert(r.count()==0,"a new reservoir counts elements");
	while(vp_any_bool()){
		vp_merge();
		int e=vp_any_int(INT_MIN,INT_MAX);
		unsigned c0=r.count();
		int i=r.add(e); offered++;
		vp_assert(i>=-1&&i<(int)N,"add() returns an index outside the reservoir");
		if(PLAIN&&!over){ if(filled<N) vp_assert(i==(int)filled,"the first elements do not fill the slots in order"); }
		if(!PLAIN){ vp_assert(i>=0,"the exponential reservoir refuses an element"); vp_assert(i<=(int)filled,"a slot is skipped while filling"); }
		if(i>=0) shadow[i]=e;
		if(i==(int)filled){ filled++; vp_reach("filling"); } else vp_reach("replacing");
		if(filled==N) over=true;
		for(unsigned k=0;k<filled;k++){ vp_assert(r[k]==shadow[k],"a slot does not hold the element add() reported there, or another slot changed"); R const& cr=r; vp_assert(cr[k]==shadow[k],"the const view disagrees"); }
		if(PLAIN) vp_assert(r.count()==c0+1,"count() does not count every element offered");
		else vp_assert(r.count()==filled,"count() is not the number of filled slots");
	}
}
template<class R,unsigned N,bool PLAIN> static void indexes(){ // sample_index agrees with add
	R r; unsigned filled=0; vp_track(&filled,sizeof filled);
	while(vp_any_bool()){ vp_merge(); unsigned c0=r.count(); int i=r.sample_index(); vp_assert(i>=-1&&i<(int)N,"sample_index() returns an index outside the reservoir"); if(PLAIN){ vp_assert(r.count()==c0+1,"count() does not count every element offered"); if(filled<N){ vp_assert(i==(int)filled,"the first elements do not fill the slots in order"); filled++; } } else { vp_assert(i>=0&&i<=(int)filled,"a slot is skipped while filling"); if(i==(int)filled) filled++; vp_assert(r.count()==filled,"count() is not the number of filled slots"); } vp_reach("index"); }
}
template<class R,unsigned N> static void items(){ // larger element types are copied whole
	R r; for(unsigned k=0;k<N+1;k++){ Item e; e.a=vp_any_int(INT_MIN,INT_MAX); e.b=vp_any_double(-1e300,1e300); int i=r.add(e); vp_assert(i>=-1&&i<(int)N,"add() returns an index outside the reservoir"); if(i>=0){ vp_assert(vp_same(r[i].b,e.b),"the stored element is not the element offered"); vp_assert(r[i].a==e.a,"the stored element is not the element offered"); vp_reach("item"); } } }
// late in a stream: the counter is large and the threshold small
template<unsigned N> static void late(){ ReservoirSampling<int,N,RF> r; while(vp_any_bool()){ vp_merge(); r.sample_index(); }
	int s[N]; for(unsigned k=0;k<N;k++){ s[k]=vp_any_int(INT_MIN,INT_MAX); r[k]=s[k]; } vp_assume(r.count()>=N); unsigned c0=r.count(); int e=vp_any_int(INT_MIN,INT_MAX); int i=r.add(e); vp_assert(i>=-1&&i<(int)N,"add() returns an index outside the reservoir"); vp_assert(r.count()==c0+1,"count() does not count every element offered"); if(i<0) vp_reach("refused"); for(int k=0;k<(int)N;k++) vp_assert(r[k]==(k==i?e:s[k]),"a refused element changed the sample, or another slot changed"); }
SCN scn_C04_plain3(){ history<ReservoirSampling<int,3,RF>,3,true>(); }
SCN scn_C04_plain1(){ history<ReservoirSampling<int,1,RF>,1,true>(); }
SCN scn_C04_plain7(){ history<ReservoirSampling<int,7,RF>,7,true>(); }
SCN scn_C04_exp3(){ history<ExponentialReservoirSampling<int,3,RF>,3,false>(); }
SCN scn_C04_exp1(){ history<ExponentialReservoirSampling<int,1,RF>,1,false>(); }
SCN scn_C04_exp7(){ history<ExponentialReservoirSampling<int,7,RF>,7,false>(); }
SCN scn_C04_index_plain(){ indexes<ReservoirSampling<int,4,RF>,4,true>(); }
SCN scn_C04_index_exp(){ indexes<ExponentialReservoirSampling<int,4,RF>,4,false>(); }
SCN scn_C04_items_plain(){ items<ReservoirSampling<Item,2,RF>,2>(); }
SCN scn_C04_items_exp(){ items<ExponentialReservoirSampling<Item,2,RF>,2>(); }
SCN scn_C04_late(){ late<3>(); }
