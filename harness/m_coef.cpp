#include "metrics.h"
template<class M> static void coefs(M &m, double *pos) {
  const Metric::Generic &G=m;
  double g[4][4], gu[4][4];
  G.gmunu(g, pos); G.gmunu_up(gu, pos);
  for (int i=0;i<4;++i) for (int j=0;j<4;++j) {
    v_eq(g[i][j], g[j][i], "metric symmetric");
    v_eq(G.gmunu(pos,i,j), g[i][j], "element accessor equals matrix accessor (covariant)");
    v_eq(G.gmunu_up(pos,i,j), gu[i][j], "element accessor equals matrix accessor (contravariant)");
    double s=0; for (int k=0;k<4;++k) s+=g[i][k]*gu[k][j];
    v_eq(s, i==j?1.:0., "contravariant is the inverse of covariant");
  }
  v_reach("end");
}
#define C(n,K) H(coef_##n) { double pos[4]; MK<K>::T*m=MK<K>::mk(pos); coefs(*m,pos); }
C(kerrbl,KERRBL)
C(kerrks,KERRKS)
C(minks,MINKS)
C(minkc,MINKC)
C(hayward,HAYWARD)
C(rn,RN)
C(k2pn,K2PN)
C(rz,RZ)
C(krz,KRZ)
C(schh,SCHH)
C(cs,CS)
C(bg,BG)
