// four-vector algebra: scalar products, duals, projections, null and unit normalisation
#include "symmetric.h"
static void algebra(const Metric::Generic &m, double *pos, bool heavy) {
  double u[4], v[4], d[4];
  vec4("u",u); vec4("v",v);
  v_eq(m.ScalarProd(pos,u,v), dot(m,pos,u,v), "scalar product is g(u,v)");
  m.dualOneForm(pos,u,d);
  double s=0; for(int i=0;i<4;++i) s+=d[i]*v[i];
  v_eq(s, dot(m,pos,u,v), "dual one-form contracts to the scalar product");
  v_reach("end");
}
// null condition: tdot solves g(k,k)=0, with the future-directed root first
static void nullify(const Metric::Generic &m, double *pos) {
  double c[8], td2; for(int i=0;i<4;++i){c[i]=pos[i];} c[4]=0; for(int i=1;i<4;++i) c[4+i]=v_real_i("v",i);
  double g[4][4]; m.gmunu(g,pos);
  v_assume(g[0][0]<0);
  double B=0,C=0; for(int i=1;i<4;++i){B+=g[0][i]*c[4+i]; for(int j=1;j<4;++j) C+=g[i][j]*c[4+i]*c[4+j];}
  v_assume(C>0);
  double sp[3]={c[5],c[6],c[7]};
  m.nullifyCoord(c,td2);
  v_eq(dot(m,pos,c+4,c+4), 0., "nullified vector has zero norm");
  for(int i=0;i<4;++i) v_eq(c[i],pos[i],"position untouched");
  for(int i=0;i<3;++i) v_eq(c[5+i],sp[i],"spatial components untouched");
  v_assert(c[4]>0, "chosen root is future-directed");
  double k2[4]={td2,sp[0],sp[1],sp[2]};
  v_eq(dot(m,pos,k2,k2), 0., "other root also has zero norm");
  v_assert(td2<0, "other root is past-directed");
  double c2[8]; for(int i=0;i<4;++i) c2[i]=pos[i]; c2[4]=0; for(int i=0;i<3;++i) c2[5+i]=sp[i];
  m.nullifyCoord(c2);
  v_eq(c2[4],c[4],"both overloads agree");
  v_reach("end");
}
static void unit(const Metric::Generic &m, double *pos) {
  double u[4]; vec4("u",u); v_assume(u[0]>0); v_assume(dot(m,pos,u,u)<0);
  double w[3]={u[1]/u[0],u[2]/u[0],u[3]/u[0]};
  double td=m.SysPrimeToTdot(pos,w);
  double f[4]={td,td*w[0],td*w[1],td*w[2]};
  v_eq(dot(m,pos,f,f),-1.,"dt/dtau of a timelike velocity gives a unit vector");
  v_assert(td>0,"dt/dtau positive");
  double n[4]={u[0],u[1],u[2],u[3]};
  m.normalizeFourVel(pos,n);
  v_eq(dot(m,pos,n,n),-1.,"normalised four-velocity has norm -1");
  for(int i=1;i<4;++i) v_eq(n[i]*u[0],u[i]*n[0],"normalisation keeps the direction");
  double c[8]; for(int i=0;i<4;++i){c[i]=pos[i];c[4+i]=u[i];}
  m.normalizeFourVel(c);
  for(int i=0;i<4;++i){ v_eq(c[4+i],n[i],"both overloads agree"); v_eq(c[i],pos[i],"position untouched"); }
  v_reach("end");
}
static void superluminal(const Metric::Generic &m, double *pos) {
  double w[3]; for(int i=0;i<3;++i) w[i]=v_real_i("w",i); double x[4]={1.,w[0],w[1],w[2]};
  v_assume(dot(m,pos,x,x)>=0);
  v_eq(m.SysPrimeToTdot(pos,w),0.,"superluminal velocity is rejected with 0"); v_reach("end");
}
static void project(const Metric::Generic &m, double *pos) {
  double u[4], v[4], w[4]; vec4("u",u); vec4("v",v);
  v_assume(dot(m,pos,v,v)!=0);
  for(int i=0;i<4;++i) w[i]=u[i];
  m.projectFourVect(pos,w,v);
  v_eq(dot(m,pos,w,v),0.,"projection is orthogonal to the direction removed");
  double n2=dot(m,pos,v,v), a=dot(m,pos,u,v)/n2;
  for(int i=0;i<4;++i) v_eq(w[i],u[i]-a*v[i],"projection removes only the component along the direction");
  v_reach("end");
}
static void normt(const Metric::Generic &m, double *pos) {
  double u[4]; vec4("u",u); double n=m.norm(pos,u), s=dot(m,pos,u,u);
  v_eq(n*(n<0?-n:n), s, "signed norm squares to the scalar product"); v_reach("end");
}
#define SYM(e,f) H(vec_##e) { SymMetric m(GYOTO_COORDKIND_CARTESIAN); double pos[4]; cartpos(pos); f(m,pos); }
SYM(norm,normt) SYM(nullify,nullify) SYM(unit,unit) SYM(superluminal,superluminal) SYM(project,project)
H(vec_algebra) { SymMetric m(GYOTO_COORDKIND_CARTESIAN); double pos[4]; cartpos(pos); algebra(m,pos,true); }
H(vec_linear) { SymMetric m(GYOTO_COORDKIND_CARTESIAN); double u[4],v[4],a=v_real("a"); vec4("u",u); vec4("v",v); double x[4],y[4]; for(int i=0;i<4;++i) x[i]=y[i]=u[i];
  m.multiplyFourVect(x,a); m.addFourVect(y,v); for(int i=0;i<4;++i){ v_eq(x[i],a*u[i],"scaling"); v_eq(y[i],u[i]+v[i],"addition"); } v_reach("end"); }
// metrics with their own scalar product / null root
#define ALG(n,K) H(alg_##n) { double pos[4]; auto*m=MK<K>::mk(pos); algebra(*m,pos,false); }
ALG(kerrbl,KERRBL) ALG(kerrks,KERRKS) ALG(minks,MINKS) ALG(minkc,MINKC) ALG(hayward,HAYWARD) ALG(rn,RN) ALG(k2pn,K2PN) ALG(rz,RZ) ALG(schh,SCHH) ALG(cs,CS) ALG(bg,BG)
#define NUL(n,K) H(null_##n) { double pos[4]; auto*m=MK<K>::mk(pos); nullify(*m,pos); }
NUL(kerrbl,KERRBL) NUL(rn,RN) NUL(schh,SCHH) NUL(minks,MINKS)
#define UNI(n,K) H(unit_##n) { double pos[4]; auto*m=MK<K>::mk(pos); unit(*m,pos); }
UNI(kerrbl,KERRBL) UNI(rn,RN)
// zero-angular-momentum observer: unit, future-directed, orthogonal to the axial direction
static void zamo(const Metric::Generic &m, double *pos, bool cart) {
  double v[4]; m.zamoVelocity(pos,v);
  v_eq(dot(m,pos,v,v),-1.,"ZAMO velocity has norm -1");
  double e[4]={0,0,0,1}; if (cart) { e[1]=-pos[2]; e[2]=pos[1]; e[3]=0; }
  v_eq(dot(m,pos,v,e),0.,"ZAMO has no angular momentum");
  v_assert(v[0]>0,"ZAMO velocity is future-directed");
  v_reach("end");
}
H(zamo_sym) { SymMetric m(GYOTO_COORDKIND_SPHERICAL,true); m.lorentz(); double pos[4]; sphpos(pos,2.); zamo(m,pos,false); }
#define ZAM(n,K,c) H(zamo_##n) { double pos[4]; auto*m=MK<K>::mk(pos); zamo(*m,pos,c); }
ZAM(kerrbl,KERRBL,false) ZAM(minks,MINKS,false) ZAM(minkc,MINKC,true) ZAM(rn,RN,false)
