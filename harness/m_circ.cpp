// circular velocity: unit, future-directed, circular, and a geodesic in the equatorial plane, in both directions
#include "symmetric.h"
static void anywhere(const Metric::Generic &m, double *pos, int dir) {
  double v[4]; m.circularVelocity(pos,v,dir);
  v_assume(v[0]!=0);       // 0 signals that no timelike circular motion exists here
  v_eq(dot(m,pos,v,v),-1.,"circular velocity has norm -1");
  v_assert(v[0]>0,"circular velocity is future-directed");
  v_eq(v[1],0.,"no radial motion"); v_eq(v[2],0.,"no polar motion");
  v_reach("end");
}
static void equat(const Metric::Generic &m, double *pos, int dir, bool sign=true) {
  pos[2]=M_PI*0.5;
  double v[4]; m.circularVelocity(pos,v,dir);
  v_assume(v[0]!=0);
  double G[4][4][4]; m.christoffel(G,pos);
  double s=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) s+=G[1][i][j]*v[i]*v[j];
  v_eq(s/(v[0]*v[0]),0.,"equatorial circular velocity is geodesic");
  if (sign) v_assert(dir>0?v[3]>0:v[3]<0,"requested sense of rotation");
  v_reach("end");
}
enum { RNC=100, RZC, KRZC };
template<> struct MK<RNC> { typedef Metric::ReissnerNordstrom T; static T* mk(double*pos){ T*m=MK<RN>::mk(pos); v_assume(m->charge()<1); return m; } };
// small deformations (circular orbits exist at the radii considered)
template<> struct MK<RZC> { typedef Metric::RezzollaZhidenko T; static T* mk(double*pos){ T*m=new T(); double e=v_real("eps"); v_assume(e>-0.2&&e<0.2); m->epsilon(e);
  std::vector<double> a(4,0.), b(4,0.); a[0]=v_real("a0"); b[0]=v_real("b0"); v_assume(a[0]>=0&&a[0]<0.1&&b[0]>=0&&b[0]<0.1); m->aparam(a); m->bparam(b); sphpos(pos,9.5); return m; } };
template<> struct MK<KRZC> { typedef Metric::KonoplyaRezzollaZhidenko T; static T* mk(double*pos){ T*m=new T(); m->spin(0.6); sphpos(pos,9.5); return m; } };
#define G(n,K,rmin,sgn) H(geo_p_##n) { double pos[4]; auto*m=MK<K>::mk(pos); v_assume(pos[1]>rmin); equat(*m,pos,1,sgn); } \
 H(geo_m_##n) { double pos[4]; auto*m=MK<K>::mk(pos); v_assume(pos[1]>rmin); equat(*m,pos,-1,sgn); }
#define EQ(n,K,rmin) H(equ_p_##n) { double pos[4]; auto*m=MK<K>::mk(pos); v_assume(pos[1]>rmin); pos[2]=M_PI*0.5; anywhere(*m,pos,1); } \
 H(equ_m_##n) { double pos[4]; auto*m=MK<K>::mk(pos); v_assume(pos[1]>rmin); pos[2]=M_PI*0.5; anywhere(*m,pos,-1); }
#define SG(n,K,rmin) H(sense_##n) { double pos[4]; auto*m=MK<K>::mk(pos); v_assume(pos[1]>rmin); pos[2]=M_PI*0.5; int d=v_choose("dir",0,1)?1:-1; double v[4]; m->circularVelocity(pos,v,d); v_assume(v[0]!=0); v_assert(v[3]*d>0,"requested sense of rotation"); v_reach("end"); }
G(kerrbl,KERRBL,9.5,true) G(schh,SCHH,5.,true) G(rn,RNC,9.5,true) G(rz,RZC,9.5,true) G(hayward,HAYWARD,9.5,false)
EQ(kerrbl,KERRBL,9.5) EQ(schh,SCHH,5.) EQ(rn,RNC,9.5) EQ(rz,RZC,9.5) EQ(hayward,HAYWARD,9.5) EQ(cs,CS,9.5) EQ(krz,KRZC,9.5)
SG(cs,CS,9.5) G(krz,KRZC,9.5,false)
static void ks(int dir,bool eq) { double pos[4]; auto*m=MK<KERRKS>::mk(pos); v_assume(pos[1]*pos[1]+pos[2]*pos[2]>100); if (eq) pos[3]=0;
  double v[4]; m->circularVelocity(pos,v,dir); v_assume(v[0]!=0);
  if (!eq) { v_eq(dot(*m,pos,v,v),-1.,"circular velocity has norm -1"); v_assert(v[0]>0,"circular velocity is future-directed"); v_eq(v[1]*pos[1]+v[2]*pos[2],0.,"no radial motion"); v_eq(v[3],0.,"no polar motion");
     double c=v[2]*pos[1]-v[1]*pos[2]; v_assert(dir>0?c>0:c<0,"requested sense of rotation"); v_reach("end"); return; }
  double G[4][4][4]; m->christoffel(G,pos);
  // acceleration of the circular motion: Omega (-y,x) rotates, so d2x/dt2 = -Omega^2 (x,y)
  double Om=(v[2]*pos[1]-v[1]*pos[2])/(pos[1]*pos[1]+pos[2]*pos[2])/v[0];
  double A[4]; for(int a=0;a<4;++a){A[a]=0; for(int i=0;i<4;++i)for(int j=0;j<4;++j)A[a]+=G[a][i][j]*v[i]*v[j]/(v[0]*v[0]);}
  v_eq(A[0],0.,"equatorial circular velocity is geodesic"); v_eq(A[1],Om*Om*pos[1],"equatorial circular velocity is geodesic"); v_eq(A[2],Om*Om*pos[2],"equatorial circular velocity is geodesic"); v_eq(A[3],0.,"equatorial circular velocity is geodesic");
  v_reach("end"); }
H(any_kerrks){ks(v_choose("dir",0,1)?1:-1,false);} H(geo_p_kerrks){ks(1,true);} H(geo_m_kerrks){ks(-1,true);}
// Keplerian approximation requested explicitly: Omega = r^-3/2 in the projected radius
static void kepl(Metric::Generic &m, double*pos, int dir, bool cart) { m.keplerian(true); double v[4]; m.circularVelocity(pos,v,dir); v_assume(v[0]!=0); v_eq(dot(m,pos,v,v),-1.,"circular velocity has norm -1");
  double Om=cart?(v[2]*pos[1]-v[1]*pos[2])/(pos[1]*pos[1]+pos[2]*pos[2])/v[0]:v[3]/v[0], R2=cart?pos[1]*pos[1]+pos[2]*pos[2]:pos[1]*pos[1]*sin(pos[2])*sin(pos[2]);
  v_eq(Om*Om*sqrt(R2)*R2,1.,"Keplerian angular velocity"); v_assert(Om*dir>0,"requested sense of rotation"); v_reach("end"); }
H(kepl_kerrbl) { double pos[4]; auto*m=MK<KERRBL>::mk(pos); v_assume(pos[1]*sin(pos[2])>9.5); kepl(*m,pos,v_bool("d")?1:-1,false); }
H(kepl_minks) { double pos[4]; auto*m=MK<MINKS>::mk(pos); v_assume(pos[1]*sin(pos[2])>9.5); kepl(*m,pos,v_bool("d")?1:-1,false); }
H(kepl_minkc) { double pos[4]; auto*m=MK<MINKC>::mk(pos); v_assume(pos[1]*pos[1]+pos[2]*pos[2]>100); kepl(*m,pos,v_bool("d")?1:-1,true); }
// specific angular momentum l = -u_phi/u_t of the circular orbit
static void angmom(const Metric::Generic&m,double*pos,double l){ pos[2]=M_PI*0.5; double v[4]; m.circularVelocity(pos,v,1.); v_assume(v[0]!=0); double g[4][4]; m.gmunu(g,pos); double ut=0,up=0; for(int i=0;i<4;++i){ut+=g[0][i]*v[i];up+=g[3][i]*v[i];}
  v_eq(l*ut,-up,"specific angular momentum of the circular orbit"); v_reach("end"); }
#define L(n,K) H(angmom_##n) { double pos[4]; auto*m=MK<K>::mk(pos); v_assume(pos[1]>9.5); angmom(*m,pos,m->getSpecificAngularMomentum(pos[1])); }
L(kerrbl,KERRBL) L(rn,RNC) L(rz,RZC) L(hayward,HAYWARD)
