// equations of motion: geodesic right-hand sides, parallel transport, Hamiltonian form and constants of motion, RK4
#include "symmetric.h"
struct ConnMetric : public Metric::Generic {   // a metric whose connection coefficients are free symbols
  double C[4][4][4]; int rc;
  ConnMetric() : Metric::Generic(GYOTO_COORDKIND_CARTESIAN,"Conn"), rc(0) {
    for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) C[a][i][j]=v_real_i("G",16*a+4*i+j); }
  using Metric::Generic::gmunu; using Metric::Generic::christoffel;
  void gmunu(double g[4][4], const double*) const { for (int i=0;i<4;++i) for (int j=0;j<4;++j) g[i][j]=i==j?(i?1.:-1.):0.; }
  int christoffel(double d[4][4][4], const double*) const { for (int a=0;a<4;++a) for (int i=0;i<4;++i) for (int j=0;j<4;++j) d[a][i][j]=C[a][i][j]; return rc; }
  ConnMetric*clone() const {return new ConnMetric(*this);}
};
static void rhs(int n) {
  ConnMetric m; state_t x(n), dx(n);
  for (int i=0;i<n;++i) x[i]=v_real_i("x",i);
  v_assume(x[4]>=1e-6);
  int r=m.diff(x,dx,v_real("mass"));
  v_assert(r==0,"right-hand side is defined for a future-directed state");
  for (int i=0;i<4;++i) v_eq(dx[i],x[4+i],"position derivative is the tangent vector");
  for (int v=1;v<n/4;++v) for (int a=0;a<4;++a) { double s=0; for (int i=0;i<4;++i) for (int j=0;j<4;++j) s-=m.C[a][i][j]*x[4+i]*x[4*v+j];
    v_eq(dx[4*v+a],s,v==1?"tangent vector obeys the geodesic equation":"transported vectors obey parallel transport"); }
  v_reach("end");
}
H(rhs_8) { rhs(8); }  H(rhs_12) { rhs(12); }  H(rhs_16) { rhs(16); }
H(rhs_err) { ConnMetric m; m.rc=1; state_t x(8), dx(8); for (int i=0;i<8;++i) x[i]=v_real_i("x",i);
  v_assert(m.diff(x,dx,0.)!=0,"failure of the connection or a non-future-directed tangent is reported"); v_reach("end"); }
H(rhs_past) { ConnMetric m; state_t x(8), dx(8); for (int i=0;i<8;++i) x[i]=v_real_i("x",i); v_assume(x[4]<=0);
  v_assert(m.diff(x,dx,0.)!=0,"failure of the connection or a non-future-directed tangent is reported"); v_reach("end"); }
// Keplerian Minkowski: Newtonian attraction. d2x/dt2 = -x/r^3 in terms of coordinate time
static void kepler(bool sph) {
  Metric::Minkowski m; m.keplerian(true); m.spherical(sph);
  state_t x(8), d(8); for (int i=0;i<8;++i) x[i]=v_real_i("x",i);
  v_assume(x[4]>=1);
  double X[3],V[3],A[3];
  if (sph) { v_assume(x[1]>0.1); v_assume(sin(x[2])>0); } else v_assume(x[1]*x[1]+x[2]*x[2]+x[3]*x[3]>0.01);
  if (m.diff(x,d,1.)) return;
  for (int i=0;i<4;++i) v_eq(d[i],x[4+i],"position derivative is the tangent vector");
  double td=x[4], tdd=d[4];
  if (!sph) {
    double r2=x[1]*x[1]+x[2]*x[2]+x[3]*x[3], r3=sqrt(r2)*r2, xv=x[1]*x[5]+x[2]*x[6]+x[3]*x[7];
    for (int i=0;i<3;++i) v_eq((d[5+i]*td-tdd*x[5+i])/(td*td*td), -x[1+i]/r3, "Newtonian acceleration in coordinate time");
    v_eq(tdd,-td*td*td*xv/r3,"time component follows from the unit norm");
  } else {
    double r=x[1],s=sin(x[2]),c=cos(x[2]),rd=x[5]/td,td_=x[6]/td,pd=x[7]/td;
    double rdd=(d[5]*td-tdd*x[5])/(td*td*td), thdd=(d[6]*td-tdd*x[6])/(td*td*td), phdd=(d[7]*td-tdd*x[7])/(td*td*td);
    v_eq(rdd-r*td_*td_-r*s*s*pd*pd,-1./(r*r),"Newtonian radial acceleration");
    v_eq(r*thdd+2*rd*td_-r*s*c*pd*pd,0.,"Newtonian polar acceleration");
    v_eq(r*s*phdd+2*rd*s*pd+2*r*c*td_*pd,0.,"Newtonian azimuthal acceleration");
  }
  v_reach("end");
}
H(kepler_cart) { kepler(false); } H(kepler_sph) { kepler(true); }
// classical fourth order Runge-Kutta with an opaque right-hand side
struct OpaqueRHS : public ConnMetric {
  int diff(const state_t &x, state_t &dx, double) const { double a[8]; for (int i=0;i<8;++i) a[i]=x[i]; for (int i=0;i<8;++i) { char n[3]={'f',(char)('0'+i),0}; dx[i]=v_opaque(n,a,8);} return 0; }
};
H(rk4_generic) { OpaqueRHS m; state_t x(8), y(8), k1(8),k2(8),k3(8),k4(8),w(8); double h=v_real("h");
  struct WL : public Worldline { double getMass() const {return 1.;} void xAllocateXYZ(){} std::string className() const {return "W";} std::string className_l() const {return "w";} } line;
  for (int i=0;i<8;++i) x[i]=v_real_i("x",i);
  v_assert(m.Metric::Generic::myrk4(&line,x,h,y)==0,"step succeeds");
  m.diff(x,k1,1); for(int i=0;i<8;++i) w[i]=x[i]+0.5*(h*k1[i]); m.diff(w,k2,1); for(int i=0;i<8;++i) w[i]=x[i]+0.5*(h*k2[i]); m.diff(w,k3,1); for(int i=0;i<8;++i) w[i]=x[i]+h*k3[i]; m.diff(w,k4,1);
  for (int i=0;i<8;++i) v_eq(y[i], x[i]+h*(k1[i]+2*k2[i]+2*k3[i]+k4[i])/6., "classical RK4 step"); v_reach("end"); }
// ---- Kerr in Boyer-Lindquist coordinates: Hamiltonian form
static Metric::KerrBL *kerr(double *pos) { return MK<KERRBL>::mk(pos); }
static void mom(double*pos,double*p,double*cst) { for(int i=0;i<4;++i) p[i]=pos[i]; double E=v_real("E"),L=v_real("L"); p[4]=-E; p[5]=v_real("pr"); p[6]=v_real("pth"); p[7]=L; cst[0]=0;cst[1]=E;cst[2]=L;cst[3]=1;cst[4]=1; }
H(ham_position) { double pos[4]; auto*m=kerr(pos); double p[8],cst[5],res[8]; mom(pos,p,cst); v_assume(m->diff(p,cst,res)==0);
  double gu[4][4]; m->gmunu_up(gu,pos);
  for (int i=0;i<4;++i) { double s=0; for (int j=0;j<4;++j) s+=gu[i][j]*p[4+j]; v_eq(res[i],s,"velocity is the raised momentum"); }
  v_eq(res[4],0.,"energy is conserved"); v_eq(res[7],0.,"axial angular momentum is conserved"); v_reach("end"); }
static void hamforce(int a) { double pos[4]; auto*m=kerr(pos); double p[8],cst[5],res[8]; mom(pos,p,cst); v_assume(m->diff(p,cst,res)==0);
  double d[1]; v_grad([&](double*x,double*o){ double gu[4][4]; m->gmunu_up(gu,x); double s=0; for(int i=0;i<4;++i)for(int j=0;j<4;++j)s+=gu[i][j]*p[4+i]*p[4+j]; o[0]=s; },pos,a,d,1);
  v_eq(res[4+a],-0.5*d[0],"momentum obeys Hamilton's equation"); v_reach("end"); }
H(ham_r) { hamforce(1); }  H(ham_theta) { hamforce(2); }
H(mom_roundtrip) { double pos[4]; auto*m=kerr(pos); double c[8],cst[5],p[8],b[8]; for(int i=0;i<4;++i) {c[i]=pos[i]; c[4+i]=v_real_i("u",i);} 
  m->computeCst(c,cst); double g[4][4]; m->gmunu(g,pos);
  m->MakeMomentum(c,cst,p);
  for (int i=0;i<4;++i) { v_eq(p[i],c[i],"position kept"); double s=0; for(int j=0;j<4;++j) s+=g[i][j]*c[4+j]; v_eq(p[4+i],s,"momentum is the lowered velocity"); }
  m->MakeCoord(p,cst,b);
  for (int i=0;i<8;++i) v_eq(b[i],c[i],"momentum form converts back to the same state"); v_reach("end"); }
H(constants) { double pos[4]; auto*m=kerr(pos); double c[8],cst[5]; for(int i=0;i<4;++i) {c[i]=pos[i]; c[4+i]=v_real_i("u",i);} int mass=v_choose("mass",0,1);
  v_assume(mass ? dot(*m,pos,c+4,c+4)==-1. : dot(*m,pos,c+4,c+4)==0.);
  m->computeCst(c,cst); double g[4][4]; m->gmunu(g,pos); double a=m->spin(),s=sin(pos[2]),co=cos(pos[2]);
  double E=0,L=0,pt=0; for(int j=0;j<4;++j){E-=g[0][j]*c[4+j];L+=g[3][j]*c[4+j];pt+=g[2][j]*c[4+j];}
  v_eq(cst[0],mass,"mass"); v_eq(cst[1],E,"energy at infinity"); v_eq(cst[2],L,"axial angular momentum");
  v_eq(cst[3],pt*pt+co*co*(a*a*(mass-E*E)+L*L/(s*s)),"Carter constant"); v_eq(cst[3]==0.?1.:cst[3]*cst[4],1.,"cached inverse of the Carter constant"); v_reach("end"); }
H(carter_conserved) { double pos[4]; auto*m=kerr(pos); double p[8],cst[5],res[8]; mom(pos,p,cst); int mass=v_choose("mass",0,1);
  double gu[4][4]; m->gmunu_up(gu,pos); double N=0; for(int i=0;i<4;++i)for(int j=0;j<4;++j) N+=gu[i][j]*p[4+i]*p[4+j];
  // on the mass shell: eliminate p_theta^2 by the shell condition
  v_assume(m->diff(p,cst,res)==0);
  double a=m->spin(),s=sin(pos[2]),c=cos(pos[2]),E=cst[1],L=cst[2],mu2=-N;   // mu^2 = -g(p,p), a constant of the motion
  double dU=-2*s*c*(a*a*(mu2-E*E)+L*L/(s*s))+c*c*(-2*L*L*c/(s*s*s));
  v_eq(2*p[6]*res[6]+dU*res[2],0.,"Carter constant is conserved along the flow"); v_reach("end"); }
static void normalize(int mass) { double pos[4]; auto*m=kerr(pos); double c[8],o[8]; for(int i=0;i<4;++i) {c[i]=pos[i]; c[4+i]=v_real_i("u",i);} 
  double g[4][4]; m->gmunu(g,pos); double s=0; for(int i=0;i<4;++i)for(int j=0;j<4;++j) if(i!=1&&j!=1) s+=g[i][j]*c[4+i]*c[4+j];
  v_assume(s+mass<0); for(int i=0;i<8;++i) o[i]=c[i];
  m->Normalize4v(c,mass);
  v_eq(dot(*m,pos,c+4,c+4),mass?-1.:0.,"renormalised velocity has the right norm");
  v_assert(o[5]>0?c[5]>0:c[5]<0,"direction of radial motion kept");
  for(int i=0;i<8;++i) if(i!=5) v_eq(c[i],o[i],"other components untouched"); v_reach("end"); }
H(norm_photon) { normalize(0); } H(norm_massive) { normalize(1); }
// mode 0: the Carter constant has drifted; mode 1: it is exact and only the norm is adjusted
static void checkcons(int mode, int mass) { double pos[4]; auto*m=kerr(pos); double p[8],cst[5],q[8]; mom(pos,p,cst); cst[0]=mass;
  double gu[4][4]; m->gmunu_up(gu,pos); double a=m->spin(),s=sin(pos[2]),c=cos(pos[2]),E=cst[1],L=cst[2],U=c*c*(a*a*(mass-E*E)+L*L/(s*s));
  double W=-(gu[0][0]*E*E-2*gu[0][3]*E*L+gu[3][3]*L*L+mass), Q;
  double pr2=v_real("pr2"); v_assume(pr2>0);               // p_r^2 on the mass shell
  double V; if (mode==0) V=(W-gu[1][1]*pr2)/gu[2][2]; else { V=p[6]*p[6]; v_assume(W-gu[2][2]*V>0); }
  v_assume(V>0); Q=V+U; v_assume(Q>0.1);
  cst[3]=Q; cst[4]=1./Q;
  if (mode==0) { double q0=p[6]*p[6]+U; v_assume(q0>Q*1.01 || q0<Q*0.99); }
  v_assert(m->CheckCons(p,cst,q)==0,"constants can be enforced");
  v_eq(q[6]*q[6]+U,Q,"Carter constant is restored");
  double n=0; for(int i=0;i<4;++i)for(int j=0;j<4;++j) n+=gu[i][j]*q[4+i]*q[4+j];
  v_eq(n,-mass,"mass shell restored"); v_eq(q[4],-E,"energy kept"); v_eq(q[7],L,"angular momentum kept"); for(int i=0;i<4;++i) v_eq(q[i],p[i],"position kept"); 
  v_assert(p[6]<0?q[6]<=0:q[6]>=0,"direction of polar motion kept"); v_assert(p[5]>0?q[5]>=0:q[5]<=0,"direction of radial motion kept"); v_reach("end"); }
H(checkcons_drift0) { checkcons(0,0); } H(checkcons_exact0) { checkcons(1,0); } HT(checkcons_drift1) { checkcons(0,1); } H(checkcons_exact1) { checkcons(1,1); }
// 3+1 form agrees with the four-dimensional one
H(threeplusone) { double pos[4]; auto*m=kerr(pos); double N,b[3],E=v_real("E"),V[3]={v_real("V1"),v_real("V2"),v_real("V3")}; m->computeNBeta(pos,N,b);
  double g[4][4],gu[4][4]; m->gmunu(g,pos); m->gmunu_up(gu,pos);
  v_eq(N*N*gu[0][0],-1.,"lapse"); v_assert(N>0,"lapse positive"); for(int i=0;i<3;++i) v_eq(b[i]*gu[0][0],-gu[0][1+i],"shift"); v_reach("end"); }
H(rhs31) { double pos[4]; auto*m=kerr(pos); double E=v_real("E"),V[3]={v_real("V1"),v_real("V2"),v_real("V3")}; v_assume(E>0);
  double N,b[3]; m->computeNBeta(pos,N,b);
  state_t x(7),d(7); x[0]=E; for(int i=0;i<3;++i){x[1+i]=pos[1+i];x[4+i]=V[i];}
  m->diff31(x,d,0.);
  double u[4]={E/N,0,0,0}; for(int i=0;i<3;++i) u[1+i]=E/N*(N*V[i]-b[i]);
  double G[4][4][4]; m->christoffel(G,pos); double A[4]; for(int a=0;a<4;++a){A[a]=0;for(int i=0;i<4;++i)for(int j=0;j<4;++j)A[a]-=G[a][i][j]*u[i]*u[j];}
  double dr[4],dth[4]; auto f=[&](double*p,double*o){double n,bb[3]; m->computeNBeta(p,n,bb); o[0]=n;o[1]=bb[0];o[2]=bb[1];o[3]=bb[2];}; v_grad(f,pos,1,dr,4); v_grad(f,pos,2,dth,4);
  double Nd=(dr[0]*u[1]+dth[0]*u[2])/u[0];
  v_eq(d[0],Nd*u[0]+N*A[0]/u[0],"energy measured by the Eulerian observer");
  for(int i=0;i<3;++i){ double w=u[1+i]/u[0]; v_eq(d[1+i],w,"coordinate velocity");
    double wd=(A[1+i]-w*A[0])/(u[0]*u[0]); double bd=(dr[1+i]*u[1]+dth[1+i]*u[2])/u[0];
    v_eq(d[4+i],(wd+bd)/N-(w+b[i])*Nd/(N*N),"velocity relative to the Eulerian observer"); }
  v_reach("end"); }
