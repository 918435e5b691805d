// A metric whose coefficients are free symbols (any symmetric matrix), to decide the algebra that every metric inherits.
#ifndef V_SYMM_H
#define V_SYMM_H
#include "metrics.h"
struct SymMetric : public Metric::Generic {
  double c[4][4];
  SymMetric(int kind, bool axisym=false) : Metric::Generic(kind,"Sym") {
    for (int i=0;i<4;++i) for (int j=i;j<4;++j) c[i][j]=c[j][i]= axisym&&i!=j&&!(i==0&&j==3) ? 0. : v_real_i("g",4*i+j);
  }
  // Lorentzian block metric with an axial and a time symmetry
  void lorentz() { v_assume(c[1][1]>0&&c[2][2]>0&&c[3][3]>0&&c[0][0]*c[3][3]<c[0][3]*c[0][3]); }
  using Metric::Generic::gmunu;
  void gmunu(double g[4][4], const double *) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=c[i][j]; }
  SymMetric*clone() const {return new SymMetric(*this);}
};
static inline void vec4(const char*n,double*v){ for(int i=0;i<4;++i) v[i]=v_real_i(n,i); }
static inline double dot(const Metric::Generic&m,const double*pos,const double*u,const double*v){ double g[4][4]; m.gmunu(g,pos); double s=0; for(int i=0;i<4;++i)for(int j=0;j<4;++j)s+=g[i][j]*u[i]*v[j]; return s; }
#endif
