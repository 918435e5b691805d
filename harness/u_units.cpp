// unit conversions
#include "symmetric.h"
#include "GyotoConverters.h"
#include "GyotoScreen.h"
#include "GyotoPhoton.h"
using namespace Gyoto::Units;
typedef double (*F)(double,const std::string&,const SmartPointer<Metric::Generic>&);
static SmartPointer<Metric::Generic> met() { Metric::Minkowski*m=new Metric::Minkowski(); double u=v_real("ul"); v_assume(u>0.01&&u<100); m->mass(u/GYOTO_G_OVER_C_SQUARE); return SmartPointer<Metric::Generic>(m); }
static double val() { double x=v_real("x"); v_assume(x>1e-3&&x<1e3); return x; }
static void inverse(F to,F from,const char*u) { Init(); SmartPointer<Metric::Generic> g=met(); double x=val(); double y=to(x,u,g); v_eq(from(y,u,g)/x,1.,"conversion and its inverse"); v_eq(to(2*x,u,g)/(std::string(u)=="Hz"||std::string(u)=="GHz"||std::string(u)=="eV"?y/2:2*y),1.,"conversions are proportional"); v_reach("end"); }
#define INV(n,a,b,u) H(n) { inverse(a,b,u); }
INV(m_none,ToMeters,FromMeters,"") INV(m_m,ToMeters,FromMeters,"m") INV(m_km,ToMeters,FromMeters,"km") INV(m_geo,ToMeters,FromMeters,"geometrical") INV(m_pc,ToMeters,FromMeters,"pc") INV(m_sunradius,ToMeters,FromMeters,"sunradius")
INV(m_s,ToMeters,FromMeters,"s") INV(m_yr,ToMeters,FromMeters,"yr") INV(m_hz,ToMeters,FromMeters,"Hz") INV(m_ghz,ToMeters,FromMeters,"GHz") INV(m_ev,ToMeters,FromMeters,"eV")
INV(s_none,ToSeconds,FromSeconds,"") INV(s_s,ToSeconds,FromSeconds,"s") INV(s_yr,ToSeconds,FromSeconds,"yr") INV(s_geo,ToSeconds,FromSeconds,"geometrical_time") INV(s_m,ToSeconds,FromSeconds,"m") INV(s_km,ToSeconds,FromSeconds,"km")
INV(g_none,ToGeometrical,FromGeometrical,"") INV(g_geo,ToGeometrical,FromGeometrical,"geometrical") INV(g_m,ToGeometrical,FromGeometrical,"m") INV(g_km,ToGeometrical,FromGeometrical,"km") INV(g_yr,ToGeometrical,FromGeometrical,"yr")
INV(t_none,ToGeometricalTime,FromGeometricalTime,"") INV(t_geo,ToGeometricalTime,FromGeometricalTime,"geometrical_time") INV(t_s,ToGeometricalTime,FromGeometricalTime,"s") INV(t_km,ToGeometricalTime,FromGeometricalTime,"km")
// known factors
H(factors) { Init(); SmartPointer<Metric::Generic> g=met(); double x=val(),ul=g->unitLength();
  v_eq(ToMeters(x,"geometrical",g),x*ul,"geometrical length"); v_eq(ToMeters(x,"sunradius",g)/GYOTO_SUN_RADIUS,x,"sun radius"); v_eq(ToSeconds(x,"geometrical_time",g)*GYOTO_C,x*ul,"geometrical time"); v_eq(ToSeconds(x,"m",g)*GYOTO_C,x,"light travel time"); v_eq(ToMeters(x,"s",g)/GYOTO_C,x,"light travel length"); v_eq(FromMeters(x*GYOTO_C,"s",g),x,"light travel time of a length");
  v_eq(ToGeometrical(x,"m",g)*ul,x,"length in units of the metric"); v_eq(ToGeometricalTime(x,"s",g)*ul/GYOTO_C,x,"time in units of the metric"); v_eq(ToKilograms(x,"sunmass")/GYOTO_SUN_MASS,x,"sun mass"); v_eq(FromKilograms(x*GYOTO_SUN_MASS,"sunmass"),x,"sun mass"); v_eq(ToKilograms(x,"kg"),x,"kilograms"); v_eq(FromKilograms(x,""),x,"kilograms"); v_eq(FromKilograms(ToKilograms(x,"g"),"g"),x,"conversion and its inverse");
  v_reach("end"); }
H(herz) { Init(); double x=val(); int i=v_choose("u",0,7); const char*u[8]={"","Hz","GHz","m","km","eV","keV","J"}; double y=ToHerz(x,u[i]); v_eq(FromHerz(y,u[i])/x,1.,"conversion and its inverse"); 
  if(i<2) v_eq(y,x,"herz"); if(i==3) v_eq(y*x/GYOTO_C,1.,"frequency of a wavelength"); if(i==5) v_eq(y/GYOTO_eV2Hz,x,"frequency of an energy"); v_reach("end"); }
H(refused) { Init(); SmartPointer<Metric::Generic> n; double x=val(); int k=v_choose("k",0,7); bool t=false; try { switch(k) { case 0: ToMeters(x,"geometrical",n); break; case 1: FromMeters(x,"geometrical",n); break; case 2: ToSeconds(x,"geometrical_time",n); break; case 3: FromSeconds(x,"geometrical_time",n); break; case 4: ToGeometrical(x,"m",n); break; case 5: ToKilograms(x,"m"); break; case 6: ToHerz(x,"kg"); break; default: ToSeconds(x,"kg",n); } } catch(Gyoto::Error const&) { t=true; } v_assert(t,"meaningless conversions are refused"); v_reach("end"); }
// converters
H(converter) { Init(); double x=val(); Converter c; v_eq(c(x),x,"the default converter does nothing"); c.reset("km","m"); double k=c(x); v_eq(k,ToMeters(x,"km"),"converter agrees with the helper"); Converter d("m","km"); v_eq(d(k)/x,1.,"converters of swapped units are inverse"); c.reset(); v_eq(c(x),x,"reset converter does nothing"); bool t=false; try { c.reset("m","kg"); } catch(Gyoto::Error const&) { t=true; } v_assert(t,"meaningless conversions are refused"); t=false; try { Unit u("nonsense"); } catch(Gyoto::Error const&) { t=true; } v_assert(t,"unknown units are refused"); v_assert(areConvertible("km","pc")&&!areConvertible("km","kg"),"convertible units"); v_reach("end"); }
// a screen's properties in units
H(screen) { Init(); SmartPointer<Metric::Generic> g=met(); Screen s; s.metric(g); double d=v_real("d"); v_assume(d>1&&d<100); s.distance(d*g->unitLength()); int k=v_choose("k",0,8); double x=val(); const char*len[4]={"geometrical","m","km","rad"};
  switch(k) { case 0: s.distance(x,"geometrical"); v_eq(s.distance(),x*g->unitLength(),"distance in units"); v_eq(s.distance("geometrical"),x,"distance round trip"); break;
   case 1: s.distance(x,"km"); v_eq(s.distance("km")/x,1.,"distance round trip"); break;
   case 2: s.time(x,"geometrical_time"); v_eq(s.time()*GYOTO_C,x*g->unitLength(),"time in units"); v_eq(s.time("geometrical_time"),x,"time round trip"); break;
   case 3: { const char*u=len[v_choose("u",0,3)]; s.fieldOfView(x,u); v_eq(s.fieldOfView(u)/x,1.,"field of view round trip"); s.dangle1(x,u); v_eq(s.dangle1(u)/x,1.,"offset round trip"); s.dangle2(x,u); v_eq(s.dangle2(u)/x,1.,"offset round trip"); v_eq(s.dangle1()/s.fieldOfView(),1.,"same unit, same angle"); v_eq(s.dangle2()/s.fieldOfView(),1.,"same unit, same angle"); break; }
   case 4: s.fieldOfView(x,"geometrical"); v_eq(s.fieldOfView()*d,x,"field of view at the distance of the object"); break;
   case 5: s.PALN(x,"degree"); v_eq(s.PALN("degree")/x,1.,"angle round trip"); s.inclination(x,"degree"); v_eq(s.inclination()/s.PALN(),1.,"same unit, same angle"); v_eq(s.inclination("degree")/x,1.,"angle round trip"); s.argument(x,"degree"); v_eq(s.argument()/s.PALN(),1.,"same unit, same angle"); v_eq(s.argument("degree")/x,1.,"angle round trip"); break;
   case 6: s.freqObs(x,"m"); v_eq(s.freqObs()*x/GYOTO_C,1.,"observing wavelength"); v_eq(s.freqObs("m")/x,1.,"frequency round trip"); break;
   case 7: s.fieldOfView(x,"arcsec"); v_eq(s.fieldOfView("arcsec")/x,1.,"field of view round trip"); break;
   default: g->mass(x,"sunmass"); v_eq(g->mass("sunmass")/x,1.,"mass round trip"); v_eq(g->mass()/GYOTO_SUN_MASS,x,"mass in kilograms"); v_eq(g->unitLength()/(g->mass()*GYOTO_G_OVER_C_SQUARE),1.,"unit of length of the metric"); }
  v_reach("end"); }
