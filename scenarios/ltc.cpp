#include "vp.h"
#include "ltc.hpp"
// any history: strictly increasing timestamps, arbitrary values
template<class E,class T,int EPS,bool F,int U=1> struct P {
	typedef LTC<E,T,EPS,32767,-32768,U> L;
	static E val(){ if(F) return (E)vp_any_double(-1000,1000); return (E)vp_any_int(-1000,1000); }
	static T step(){ if(std::is_floating_point<T>::value) return (T)vp_any_double(0.5,50); return (T)vp_any_int(1,50); }
	static bool eq(double a,double b){ return vp_same(a,b)||a==b; }
	static void history(){
		L l; T t=0; E v=val(); T start=t, prev=t; E sv=v; bool first=true; vp_track(&first,sizeof first); bool closed=false; vp_track(&closed,sizeof closed); T ot=0; E ov=0;
		vp_assert(!l.add(t,v),"the first point of a series closes a segment");
		{ T a; E b; l.get_value_to_transmit(a,b); ot=a; ov=b; }
		t+=step(); vp_assert(!l.add(t,val()),"the second point of a series closes a segment"); prev=t;
		while(vp_any_bool()){
			vp_merge();
			t=step(); vp_assume(t>0); t=prev+t; vp_assume(t>prev);
			E w=val(); int r=l.add(t,w); vp_assert(r==0||r==1,"add() answers neither true nor false"); T a; E b; l.get_value_to_transmit(a,b);
			if(r){ vp_assert(eq(a,start),"the point to transmit does not carry the time at which the closed segment started"); if(first) vp_assert(eq(b,sv),"the point to transmit is not the first point given"); first=false; closed=true; start=prev; vp_reach("close"); }
			else { vp_assert(eq(a,ot)&&eq(b,ov),"a point that closes nothing changed the point to transmit"); vp_reach("extend"); }
			ot=a; ov=b; prev=t;
#ifdef VP_WHITE
			vp_assert(eq(l.last_transmit_point.timestamp,start),"a segment does not start at the time of the previously added point");
			vp_assert(eq(l.UL.timestamp,t)&&eq(l.LL.timestamp,t),"the limits do not belong to the point added last");
#endif
		}
	}
	static double near(double x){ return vp_any_double(x-0.2,x+0.2); }
	static void feed(L& l,T t,double v,bool want,const char* m){ vp_assert((bool)l.add(t,(E)v)==want,m); }
	static void tx(L& l,double t,double lo,double hi){ T a; E b; l.get_value_to_transmit(a,b); vp_assert(a==(T)t,"the point to transmit does not carry the time at which the closed segment started"); vp_assert(b>=lo&&b<=hi,"the point to transmit is not within epsilon of the data"); }
	// a signal that stays within epsilon of a constant never closes a segment
	static void flat(){ L l; double t=0; l.add(0,(E)near(7)); while(vp_any_bool()){ vp_merge(); t+=1; vp_assume(t<1e6); vp_assert(!l.add((T)t,(E)near(7)),"a segment is closed although a horizontal line is within epsilon of every point"); vp_reach("flat"); } }
	// decisions on short series whose outcome does not depend on rounding (epsilon 5); every value may vary by 0.2
	static void up(){ L l; E v0=(E)near(0); feed(l,0,v0,false,"closed too early"); feed(l,1,near(0),false,"closed too early"); feed(l,2,near(24),true,"a point above the cone does not close the segment"); tx(l,0,v0,v0); 
		feed(l,3,near(48),false,"the new segment does not cover the point that closed the previous one"); feed(l,4,near(52),true,"a point below the cone does not close the new segment"); tx(l,1,-5.3,5.3); vp_reach("up"); }
	static void down(){ L l; E v0=(E)near(100); feed(l,10,v0,false,"closed too early"); feed(l,12,near(100),false,"closed too early"); feed(l,16,near(60),true,"a point below the cone does not close the segment"); tx(l,10,v0,v0); feed(l,20,near(20),false,"the new segment does not cover the point that closed the previous one"); feed(l,24,near(40),true,"a point above the cone does not close the new segment"); tx(l,12,94.7,105.3); vp_reach("down"); }
	// the cone only ever narrows
	static void narrow(){ L l; feed(l,0,near(0),false,"closed too early"); feed(l,1,near(0),false,"closed too early"); feed(l,10,near(0),false,"closed although the cones intersect"); int up=vp_split(vp_any_int(0,2)); 
		if(up==1) feed(l,11,near(20),true,"the upper limit was not narrowed by an earlier point"); else if(up==2) feed(l,11,near(-20),true,"the lower limit was not narrowed by an earlier point"); else feed(l,11,near(3),false,"closed although the cones intersect"); vp_reach("narrow"); }
	// limits set by an early point still bind later
	static void keep(){ L l; feed(l,0,near(0),false,"closed too early"); feed(l,10,near(0),false,"closed too early"); // slopes within +-0.5
		int up=vp_split(vp_any_int(0,3)); double s=up&1?1:-1; feed(l,11,near(s*8),false,"closed although the cones intersect"); // would allow up to 13 at 11
		if(up<2) feed(l,20,near(s*17),true,"a limit set by an early point was widened by a later one"); else feed(l,20,near(s*9),false,"closed although the cones intersect"); vp_reach("keep"); }
	// the limits are extended along the slopes they stand for
	static void slope(){ L l; double s=vp_split(vp_any_int(0,1))?10:-10; feed(l,0,near(0),false,"closed too early"); feed(l,10,near(s*10),false,"closed too early"); feed(l,11,near(s*11),false,"closed although the cones intersect"); 
		int k=vp_split(vp_any_int(0,3)); double d=(k&1?1:-1)*(k<2?17:7); feed(l,20,near(s*20+d),k<2,k<2?"the limits were not extended along their slopes":"closed although the cones intersect"); vp_reach("slope"); }
	static void ramp(){ L l; feed(l,0,near(0),false,"closed too early"); feed(l,1,near(4),false,"closed too early"); feed(l,10,near(40),false,"closed although the cones intersect"); feed(l,20,near(80),false,"closed although the cones intersect"); bool b=vp_split(vp_any_int(0,1)); feed(l,30,near(b?120:90),!b,"the answer does not tell whether the new point fits the segment"); if(!b){ tx(l,0,-0.2,0.2); feed(l,40,near(100),false,"the new segment does not cover the point that closed the previous one"); } vp_reach("ramp"); }
};
typedef P<double,double,5,true> PD; typedef P<int,int,5,false> PI;
SCN scn_C06_history_double(){ P<double,double,3,true>::history(); }
SCN scn_C06_history_int(){ P<int,int,3,false>::history(); }
SCN scn_C06_history_intd(){ P<double,int,1,true>::history(); }
SCN scn_C06_flat(){ PD::flat(); }
SCN scn_C06_up(){ PD::up(); }
SCN scn_C06_down(){ PD::down(); }
SCN scn_C06_narrow(){ PD::narrow(); }
SCN scn_C06_keep(){ PD::keep(); }
SCN scn_C06_ramp(){ PD::ramp(); }
SCN scn_C06_up_int(){ PI::up(); }
SCN scn_C06_down_int(){ PI::down(); }
SCN scn_C06_ramp_int(){ PI::ramp(); }
// values are limited to [min_value,max_value] before they bound the segment
template<class E> static void limits(){ LTC<E,int,5,100,-100> l; l.add(0,100); l.add(10,100); vp_assert(!l.add(20,(E)100),"closed although the cones intersect"); vp_assert(l.add(30,(E)-100),"a point below the cone does not close the segment"); int t; E v; l.get_value_to_transmit(t,v); vp_assert(t==0&&v==100,"the point to transmit is not the first point given"); vp_assert(!l.add(40,(E)-100)||true,""); vp_reach("limits"); }
SCN scn_C06_limits(){ limits<int>(); limits<double>(); }
SCN scn_C06_unit_ramp(){ P<double,int,5,true,3>::ramp(); }
SCN scn_C06_unit_keep(){ P<double,int,5,true,4>::keep(); }
SCN scn_C06_unit_keep_d(){ P<double,double,5,true,10>::keep(); }
SCN scn_C06_unit_narrow(){ P<double,double,5,true,7>::narrow(); }
SCN scn_C06_unit_down(){ P<double,double,5,true,2>::down(); }
SCN scn_C06_slope(){ PD::slope(); P<double,int,5,true>::slope(); }
SCN scn_C06_unit_slope(){ P<double,double,5,true,10>::slope(); P<double,int,5,true,10>::slope(); P<double,int,5,true,3>::slope(); }
// a segment is closed exactly when no line within epsilon is left: a line that only touches the limits is enough (numbers that every arithmetic represents exactly)
template<class E,class T> struct Touch {
	static void touch(){ typedef LTC<E,T,2,32767,-32768> L; L l; int s=vp_split(vp_any_int(-3,3)); double g=vp_split(vp_any_int(0,1))?1:-1; int k=vp_split(vp_any_int(0,3));
		vp_assert(!l.add(0,0),"closed too early"); vp_assert(!l.add(1,(E)s),"closed too early");
		double edge=2*(s+2*g)+2*g; // the line through the limit at time 1 just reaches the near limit at time 2
		if(k==0) vp_assert(l.add(2,(E)(edge+g)),"a point beyond the cone does not close the segment");
		else { vp_assert(!l.add(2,(E)edge),"a segment is closed although a line touching its limits is within epsilon of every point");
			if(k==1) vp_assert(!l.add(4,(E)(4*(s+2*g)+2*g)),"a segment is closed although a line touching its limits is within epsilon of every point");
			else if(k==2) vp_assert(l.add(4,(E)(4*(s+2*g)+3*g)),"a point beyond the cone does not close the segment");
			else vp_assert(l.add(4,(E)(4*(s+2*g)-3*g)),"a point beyond the cone does not close the segment"); }
		vp_reach("touch"); }
	static void line(){ typedef LTC<E,T,0,32767,-32768> L; L l; int s=vp_split(vp_any_int(-3,3)), v0=vp_split(vp_any_int(0,1))*5, at=vp_split(vp_any_int(2,6)); double g=vp_split(vp_any_int(0,1))?1:-1;
		for(int t=0;t<at;t++) vp_assert(!l.add((T)t,(E)(v0+s*t)),"a segment is closed although every point is on one line");
		vp_assert((bool)l.add((T)at,(E)(v0+s*at+g)),"a point off the line does not close the segment although epsilon is zero"); vp_reach("line"); }
};
SCN scn_C06_touch(){ Touch<double,double>::touch(); Touch<int,int>::touch(); }
SCN scn_C06_line(){ Touch<double,int>::line(); Touch<int,unsigned>::line(); }
