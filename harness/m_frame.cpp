// observer frames
#include "symmetric.h"
static void frame(const Metric::Generic &m, double *pos, double*u, double*s1, double*s2, double*s3) {
  double *e[4]={u,s1,s2,s3};
  for(int i=0;i<4;++i) for(int j=i;j<4;++j)
    v_eq(dot(m,pos,e[i],e[j]), i==j?(i?1.:-1.):0., i==j?"frame vectors are unit":"frame vectors are orthogonal");
  v_reach("end");
}
// generic Gram-Schmidt on an arbitrary stationary axisymmetric Lorentzian metric
H(frame_gram) { SymMetric m(GYOTO_COORDKIND_SPHERICAL,true); m.lorentz(); v_assume(m.c[0][0]<0); double pos[4]; sphpos(pos,2.);
  double u[4]={1.,0.,0.,v_real("w")}, a[4]={0.,v_real("a1"),0.,0.}, b[4]={0.,v_real("b1"),v_real("b2"),0.}, c[4]={0.,0.,v_real("c2"),v_real("c3")};
  v_assume(dot(m,pos,u,u)<0); v_assume(a[1]>0&&b[2]>0&&c[3]>0);
  m.GramSchmidt(pos,u,a,b,c);
  frame(m,pos,u,a,b,c); }
static void orient(double*s1,double*s2,double*s3) { v_assert(s1[3]<0,"first frame vector points to decreasing azimuth"); v_assert(s2[2]<0,"second frame vector points to decreasing colatitude"); v_assert(s3[1]<0,"third frame vector points inwards"); }
static void gen(const Metric::Generic &m, double *pos, bool radial) {
  double u[4]={1.,radial?v_real("u1"):0.,radial?v_real("u2"):0.,v_real("u3")};
  v_assume(dot(m,pos,u,u)<0);
  double s1[4],s2[4],s3[4]; m.observerTetrad(pos,u,s1,s2,s3); frame(m,pos,u,s1,s2,s3); if (!radial) orient(s1,s2,s3);
}
H(frame_kerrbl) { double pos[4]; auto*m=MK<KERRBL>::mk(pos); gen(*m,pos,true); }
H(frame_sym) { SymMetric m(GYOTO_COORDKIND_SPHERICAL,true); m.lorentz(); v_assume(m.c[0][0]<0); double pos[4]; sphpos(pos,2.); gen(m,pos,false); }
H(frame_minks) { double pos[4]; auto*m=MK<MINKS>::mk(pos); gen(*m,pos,false); }
H(frame_rn) { double pos[4]; auto*m=MK<RN>::mk(pos); gen(*m,pos,false); }
static void kind(const Metric::Generic &m, double *pos, obskind_t k, bool velfree) {
  double u[4]={1.,0.,0.,0.}; if (velfree) u[3]=v_real("u3");
  v_assume(dot(m,pos,u,u)<0);
  double s1[4],s2[4],s3[4]; m.observerTetrad(k,pos,u,s1,s2,s3); frame(m,pos,u,s1,s2,s3); orient(s1,s2,s3);
}
H(frame_kerrbl_zamo) { double pos[4]; auto*m=MK<KERRBL>::mk(pos); kind(*m,pos,GYOTO_OBSKIND_ZAMO,false); }
H(frame_kerrbl_vel) { double pos[4]; auto*m=MK<KERRBL>::mk(pos); kind(*m,pos,GYOTO_OBSKIND_VELOCITYSPECIFIED,true); }
H(frame_minks_zamo) { double pos[4]; auto*m=MK<MINKS>::mk(pos); kind(*m,pos,GYOTO_OBSKIND_ZAMO,false); }
//H(frame_minkc_zamo) { double pos[4]; auto*m=MK<MINKC>::mk(pos); kind(*m,pos,GYOTO_OBSKIND_ZAMO,false); }

// Cartesian construction
H(frame_cart) { double pos[4]; auto*m=MK<MINKC>::mk(pos); v_assume(pos[1]*pos[1]+pos[2]*pos[2]>0.01); double u[4]={1.,0.,0.,0.}, s1[4],s2[4],s3[4]; m->Metric::Generic::observerTetrad(pos,u,s1,s2,s3); frame(*m,pos,u,s1,s2,s3);
  v_assert(s3[1]*pos[1]+s3[2]*pos[2]+s3[3]*pos[3]<0,"third frame vector points inwards"); v_assert(s1[2]*pos[1]-s1[1]*pos[2]<0,"first frame vector points to decreasing azimuth"); v_assert(s2[3]>0,"second frame vector points to decreasing colatitude"); }
