// connection == Levi-Civita connection of the metric the same object reports
#include "metrics.h"
template<class M> static void grad(M &Me, double *pos, double dg[4][16]) {
  for (int a=0;a<4;++a) v_grad([&](double*p,double*o){Me.gmunu((double(*)[4])o,p);}, pos, a, dg[a], 16);
}
static void christo(const Metric::Generic &Me, double *pos) {
  double gu[4][4], G[4][4][4], dg[4][16];
  Me.gmunu_up(gu, pos);
  v_assert(Me.christoffel(G, pos)==0, "christoffel succeeds");
  grad(Me, pos, dg);
  for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) {
    double s=0;
    for (int k=0;k<4;++k) s+=0.5*gu[a][k]*(dg[i][4*k+j]+dg[j][4*k+i]-dg[k][4*i+j]);
    v_eq(G[a][i][j], s, "connection equals that of the metric");
    v_eq(Me.christoffel(pos,a,i,j), G[a][i][j], "connection element accessor equals array");
  }
  v_reach("end");
}
// same claim through the metric's own derivative accessor (for metrics that provide it)
static void viajac(const Metric::Generic &Me, double *pos, bool exactjac) {
  double gu[4][4], gu2[4][4], G[4][4][4], dg[4][16], J[4][4][4], J2[4][4][4];
  Me.gmunu_up(gu, pos); Me.jacobian(J, pos); Me.gmunu_up_and_jacobian(gu2, J2, pos);
  v_assert(Me.christoffel(G, pos)==0, "christoffel succeeds");
  if (exactjac) grad(Me, pos, dg);
  for (int a=0;a<4;++a) for (int i=0;i<4;++i) {
    v_eq(gu[a][i], gu2[a][i], "combined accessor's inverse equals the plain one");
    for (int j=0;j<4;++j) {
      if (exactjac) v_eq(J[a][i][j], dg[a][4*i+j], "derivative accessor equals the derivative of the metric");
      v_eq(J2[a][i][j], J[a][i][j], "combined accessor's derivative equals the plain one");
      double s=0;
      for (int k=0;k<4;++k) s+=0.5*gu[a][k]*(J[i][k][j]+J[j][k][i]-J[k][i][j]);
      v_eq(G[a][i][j], s, "connection equals that of the metric");
      v_eq(Me.christoffel(pos,a,i,j), G[a][i][j], "connection element accessor equals array");
    }
  }
  v_reach("end");
}
#define C(n,K) H(chris_##n) { double pos[4]; MK<K>::T*m=MK<K>::mk(pos); christo(*m,pos); }
C(kerrbl,KERRBL)
C(minks,MINKS)
C(minkc,MINKC)
C(hayward,HAYWARD)
C(rn,RN)
C(k2pn,K2PN)
C(rz,RZ)
C(krz,KRZ)
C(schh,SCHH)
C(bg,BG)
H(chris_kerrks) { double pos[4]; auto*m=MK<KERRKS>::mk(pos); viajac(*m,pos,true); }
// numerical fallbacks: the step is finite, so the derivative is only exact for a metric affine in its coordinates
H(chris_cs) { double pos[4]; auto*m=MK<CS>::mk(pos); viajac(*m,pos,false); }
struct Affine : public Metric::Generic {
  double c[5][4][4];
  Affine() : Metric::Generic(GYOTO_COORDKIND_CARTESIAN,"Affine") {
    static const char*nm[5]={"c0","c1","c2","c3","cc"};
    for (int k=0;k<5;++k) for (int i=0;i<4;++i) for (int j=i;j<4;++j) c[k][i][j]=c[k][j][i]= k==4&&i!=j ? 0. : k<4&&((i+j+k)%3) ? 0. : v_real_i(nm[k],4*i+j);
  }
  using Metric::Generic::gmunu;
  void gmunu(double g[4][4], const double *x) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) { g[i][j]=c[4][i][j]; for (int k=0;k<4;++k) g[i][j]+=c[k][i][j]*x[k]; } }
  using Metric::Generic::gmunu_up; void gmunu_up(double g[4][4], const double *x) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=v_real_i("gup",i*j); }
  Affine*clone() const {return new Affine(*this);}
};
H(chris_generic_numeric) { Affine m; double pos[4]; cartpos(pos);
  double J[4][4][4], gu[4][4], J2[4][4][4]; const Metric::Generic &Me=m;
  int order=v_choose("order",0,1);
  if (order) Me.jacobian(J,pos);
  Me.gmunu_up_and_jacobian(gu,J2,pos); Me.jacobian(J,pos);
  for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) {
    v_eq(J2[a][i][j], m.c[a][i][j], "numerical derivative is exact for an affine metric");
    v_eq(J[a][i][j], m.c[a][i][j], "numerical derivative is exact for an affine metric");
  }
  v_reach("end");
}
struct Opq : public Metric::Generic {
  Opq() : Metric::Generic(GYOTO_COORDKIND_CARTESIAN,"Opq") {}
  static double s2(const char*n,const double*x,int k,int i,int j){ double a[7]={x[0],x[1],x[2],x[3],(double)k,(double)(i<j?i:j),(double)(i<j?j:i)}; return v_opaque(n,a,7); }
  using Metric::Generic::gmunu; using Metric::Generic::gmunu_up;
  void gmunu(double g[4][4], const double *x) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=s2("g",x,0,i,j); }
  void gmunu_up(double g[4][4], const double *x) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=s2("gup",x,0,i,j); }
  void jacobian(double J[4][4][4], const double *x) const { for (int k=0;k<4;++k) for (int i=0;i<4;++i) for (int j=0;j<4;++j) J[k][i][j]=s2("J",x,k,i,j); }
  Opq*clone() const {return new Opq(*this);}
};
H(chris_generic) { Opq m; double pos[4]; cartpos(pos); viajac(m,pos,false); }
