// Symbolic instances of every analytic metric: symbolic parameters, symbolic position.
#ifndef V_METRICS_H
#define V_METRICS_H
#include "v.h"
#include "GyotoKerrBL.h"
#include "GyotoKerrKS.h"
#include "GyotoMinkowski.h"
#include "GyotoHayward.h"
#include "GyotoReissnerNordstrom.h"
#include "GyotoKerr2PN.h"
#include "GyotoRezzollaZhidenko.h"
#include "GyotoKonoplyaRezzollaZhidenko.h"
#include "GyotoSchwarzschildHarmonic.h"
#include "GyotoChernSimons.h"
#include "GyotoBalasinGrumiller.h"
#include "GyotoShift.h"
#include "GyotoComplexMetric.h"
#include "GyotoWorldline.h"
#include <vector>
#include <cmath>
using namespace Gyoto;
static inline void sphpos(double *pos, double rmin) {
  pos[0]=v_real("t"); pos[1]=v_real("r"); pos[2]=v_real("th"); pos[3]=v_real("ph");
  v_assume(pos[1]>rmin);
  v_assume(sin(pos[2])>0);
}
static inline void cartpos(double *pos) {
  pos[0]=v_real("t"); pos[1]=v_real("x"); pos[2]=v_real("y"); pos[3]=v_real("z");
}
// metric k at an admissible symbolic position
enum { KERRBL, KERRKS, MINKS, MINKC, HAYWARD, RN, K2PN, RZ, KRZ, SCHH, CS, BG, NMET };
template<int K> struct MK;
#ifndef KRZ_SPINS
#define KRZ_SPINS 3
#endif
template<> struct MK<KERRBL> { typedef Metric::KerrBL T; static T* mk(double*pos){ T*m=new T(); double a=v_real("a"); v_assume(a>-1&&a<1); m->spin(a); sphpos(pos,2.05); return m; } };
template<> struct MK<KERRKS> { typedef Metric::KerrKS T; static T* mk(double*pos){ T*m=new T(); double a=v_real("a"); v_assume(a>-1&&a<1); m->spin(a); cartpos(pos); v_assume(pos[1]*pos[1]+pos[2]*pos[2]+pos[3]*pos[3]>6); return m; } };
template<> struct MK<MINKS> { typedef Metric::Minkowski T; static T* mk(double*pos){ T*m=new T(); m->spherical(true); sphpos(pos,0.); return m; } };
template<> struct MK<MINKC> { typedef Metric::Minkowski T; static T* mk(double*pos){ T*m=new T(); cartpos(pos); return m; } };
template<> struct MK<HAYWARD> { typedef Metric::Hayward T; static T* mk(double*pos){ T*m=new T(); double a=v_real("a"),b=v_real("b"); v_assume(a>-1&&a<1); m->spin(a); m->charge(b); sphpos(pos,1.05); return m; } };
template<> struct MK<RN> { typedef Metric::ReissnerNordstrom T; static T* mk(double*pos){ T*m=new T(); double b=v_real("b"); v_assume(b>=0); m->charge(b); sphpos(pos,2.05); return m; } };
template<> struct MK<K2PN> { typedef Metric::Kerr2PN T; static T* mk(double*pos){ T*m=new T(); double a=v_real("a"); m->kerrQuadrupole(false); m->spin(a); m->quadrupole(v_real("b")); cartpos(pos); return m; } };
template<> struct MK<RZ> { typedef Metric::RezzollaZhidenko T; static T* mk(double*pos){ T*m=new T();
  double e=v_real("eps"); v_assume(e>-0.5); m->epsilon(e);
  std::vector<double> a(4,0.), b(4,0.); int md=v_choose("mode",0,2); for(int i=0;i<4;++i){ if (md==0||(md==2&&i<2)) {a[i]=v_real_i("aa",i); v_assume(a[i]>=0);} if (md==1||(md==2&&i<2)) {b[i]=v_real_i("bb",i); v_assume(b[i]>=0);} } m->aparam(a); m->bparam(b); sphpos(pos,0.); v_assume(pos[1]*(1+e)>2.1); return m; } };
template<> struct MK<KRZ> { typedef Metric::KonoplyaRezzollaZhidenko T; static T* mk(double*pos){ T*m=new T();
  // three spins with a rational horizon radius keep the closed forms rational in (r, theta, delta)
  static const double aa[3]={0.6,-0.8,0.28}; double a=aa[v_choose("spin",0,KRZ_SPINS-1)]; m->spin(a);
  // the class accepts at most one non-zero deformation of each family
  int k=v_choose("which",-1,9); double x=v_real("delta");
  try { if (k>=0 && k<6) { std::vector<double> d(6,0.); d[k]=x; m->deltashorizon(d); } else if (k>=6) { std::vector<double> s(4,0.); s[k-6]=x; m->deltasasymptotics(s); } }
  catch (Gyoto::Error const&) { v_assume(false); }
  sphpos(pos,2.05); return m; } };
template<> struct MK<SCHH> { typedef Metric::SchwarzschildHarmonic T; static T* mk(double*pos){ T*m=new T(); sphpos(pos,1.05); return m; } };
template<> struct MK<CS> { typedef Metric::ChernSimons T; static T* mk(double*pos){ T*m=new T(); double a=v_real("a"); v_assume(a>-1&&a<1); m->spin(a); m->dzetaCS(v_real("b")); sphpos(pos,2.05); return m; } };
template<> struct MK<BG> { typedef Metric::BalasinGrumiller T; static T* mk(double*pos){ T*m=new T(); m->V0value(v_real("V0")); double R=v_real("R0"),r0=v_real("r0"); v_assume(R>0&&r0>0); m->Rvalue(R); m->r0value(r0); sphpos(pos,0.); return m; } };
#endif
