// integrators: conversions, options, exactness on systems with known solutions
#include "line.h"
typedef Worldline::IntegState::Boost B;
static const char*KN[4]={"runge_kutta_cash_karp54","runge_kutta_fehlberg78","runge_kutta_dopri5","runge_kutta_cash_karp54_classic"};
// flat space whose equation of motion is a chain y_i' = y_{i+1} (exact solution: a polynomial)
struct Chain : public Metric::Minkowski { int n; int calls; Chain(int k):n(k),calls(0){}
  using Metric::Generic::diff;
  int diff(state_t const&x, state_t&d, double) const { for(size_t i=0;i<x.size();++i) d[i]=((int)i<n)?x[i+1]:0.; return 0; } };
static void chain(int kind, int deg) {
  Line l(0.); l.small(4); Chain*c=new Chain(deg); SmartPointer<Metric::Generic> g=c; l.metric(g); l.adaptive(false);
  if (kind<4) l.integrator(KN[kind]); else l.integrator("Legacy");
  double p[8]; mkcoord("p",p); if(kind==1){p[4]=1.;p[5]=-2.;p[6]=0.5;p[7]=3.;} l.setInitCoord(p,1); double h=kind==1?0.5:v_real("h"); v_assume(h>0.001&&h<10.); for(int i=0;i<8;++i) v_assume(p[i]>-10.&&p[i]<10.);
  state_t in(p,p+8), out(8); l.state_->init(&l,in,h); l.state_->doStep(in,h,out);
  double f[9]; f[0]=1; for(int k=1;k<9;++k) f[k]=f[k-1]*h/k;
  double ex[8]; for(int i=0;i<8;++i){ ex[i]=0; for(int j=i;j<=deg;++j) ex[i]+=p[j]*f[j-i]; if(i>deg) ex[i]=p[i]; }
  for(int i=0;i<8;++i) v_eq(out[i],ex[i],"one step solves a polynomial motion exactly");
  for(int i=0;i<8;++i) v_eq(in[i],p[i],"the input of a step is not modified");
  if (kind<4) { double tau=v_real("tau"),t0=tau; state_t s(in); l.state_->nextStep(s,tau,1e300); for(int i=0;i<8;++i) v_eq(s[i],ex[i],"one fixed step solves a polynomial motion exactly"); v_eq(tau,t0+h,"proper time advances with the step");
    l.state_->init(&l,in,-h); state_t b(s); tau=t0+h; l.state_->nextStep(b,tau,1e300); for(int i=0;i<8;++i) v_eq(b[i],p[i],"stepping back returns to the start"); v_eq(tau,t0,"proper time goes back"); }
  v_reach("end"); }
H(chain_ck) { chain(0,5); } H(chain_f78) { chain(1,7); } H(chain_dp) { chain(2,5); } H(chain_ckc) { chain(3,5); } H(chain_legacy) { chain(4,4); }
// names of the integrators
H(kinds) { Line l(0.); int k=v_choose("k",0,3); l.integrator(KN[k]); v_assert(l.integrator()==KN[k],"an integrator is known by the name that selects it"); Line m(0.); bool ok=true; try { m.integrator(l.integrator()); } catch (Gyoto::Error const&) { ok=false; } v_assert(ok,"the reported name is accepted"); v_assert(ok&&((B*)m.state_())->kind_==((B*)l.state_())->kind_,"the reported name selects the same integrator"); v_reach("end"); }
H(kinds_bad) { Line l(0.); bool ok=true; try { l.integrator("runge_kutta_unknown"); } catch (Gyoto::Error const&) { ok=false; } v_assert(!ok,"unknown integrators are refused"); v_reach("end"); }
H(clones) { Line l(0.); int k=v_choose("k",0,3); l.integrator(KN[k]); bool i=v_bool("i31"); SmartPointer<Metric::Generic> g=new Metric::KerrBL(); l.metric(g); l.integ31(i); Line m(l); v_assert(m.integ31()==i,"copies keep the formulation"); v_assert(m.integrator()==l.integrator(),"copies keep the integrator"); v_assert(m.state_->line_==&m,"the copied integrator works for the copy"); v_reach("end"); }
H(clones_legacy) { Line l(0.); l.integrator("Legacy"); Line m(l); v_assert(m.integrator()=="Legacy","copies keep the integrator"); v_assert(m.state_->line_==&m,"the copied integrator works for the copy"); v_reach("end"); }
// 3+1: conversion to and from the 3+1 variables
struct ADM : public Metric::Minkowski { int sph; double dth; const double*drift; ADM():sph(0),dth(0),drift(0){}
  void computeNBeta(const double c[4],double&N,double b[3]) const { double a[4]={c[1],c[2],c[3],0.}; N=v_opaque("N",a,3); v_assume(N>0.01&&N<100.); b[0]=v_opaque("b0",a,3); b[1]=v_opaque("b1",a,3); b[2]=v_opaque("b2",a,3); }
  using Metric::Generic::diff;
  int diff31(state_t const&x, state_t&d, double) const { for(int i=0;i<7;++i) d[i]=0.; d[2]=dth; if(drift) for(int i=0;i<3;++i) d[i+1]=drift[i]; return 0; } };
static void adm(int nxt,int sph) {
  Line l(0.); l.small(4); ADM*c=new ADM(); if(sph) c->spherical(true); SmartPointer<Metric::Generic> g=c; l.metric(g); l.adaptive(false); l.integrator(KN[sph?0:v_choose("k",0,3)]); l.integ31(true);
  double p[8]; mkcoord("p",p); v_assume(p[4]>0.01); if(sph) v_assume(p[2]>0.1&&p[2]<3.&&p[3]>0.1&&p[3]<6.); l.setInitCoord(p,1); double h=v_real("h"); v_assume(h>0.001&&h<100.);
  state_t in(p,p+8),out(8); l.state_->init(&l,in,h); double tau=v_real("tau"),t0=tau;
  if (nxt) { out=in; l.state_->nextStep(out,tau,1e300); v_eq(tau,t0+h/p[4],"affine parameter advances by dt over the time component"); } else l.state_->doStep(in,h,out);
  v_assert(out.size()==8,"size"); v_eq(out[0],p[0]+h,"coordinate time advances by the step"); for(int i=1;i<8;++i) v_eq(out[i],p[i],"3+1 variables convert back to the state they came from"); v_reach("end"); }
// ... also when the position moves: the lapse and shift at the end are the ones that apply
static void adm_move(int nxt) { Line l(0.); l.small(4); ADM*c=new ADM(); double D[3]={v_real("D0"),v_real("D1"),v_real("D2")}; for(int i=0;i<3;++i) v_assume(D[i]>-10.&&D[i]<10.); c->drift=D; SmartPointer<Metric::Generic> g=c; l.metric(g); l.adaptive(false); l.integrator(KN[v_choose("k",0,3)]); l.integ31(true); l.normTol(1e300);
  double p[8]; mkcoord("p",p); v_assume(p[4]>0.01); l.setInitCoord(p,1); double h=v_real("h"); v_assume(h>0.001&&h<100.); state_t in(p,p+8),out(8); l.state_->init(&l,in,h); double tau=0.,N,b[3],M,e[3];
  if (nxt) { out=in; l.state_->nextStep(out,tau,1e300); } else l.state_->doStep(in,h,out);
  double q[4]={p[0]+h,p[1]+h*D[0],p[2]+h*D[1],p[3]+h*D[2]}; for(int i=0;i<4;++i) v_eq(out[i],q[i],"position after a 3+1 step"); c->computeNBeta(p,N,b); c->computeNBeta(&out[0],M,e); v_eq(out[4]*M,p[4]*N,"energy kept in a 3+1 step"); for(int i=0;i<3;++i) v_eq((out[5+i]/out[4]+e[i])*N,(p[5+i]/p[4]+b[i])*M,"velocity kept in a 3+1 step"); if(nxt) v_eq(tau*out[4],h,"affine parameter"); v_reach("end"); }
H(adm_move_next) { adm_move(1); } H(adm_move_do) { adm_move(0); }
H(adm_next) { adm(1,0); } H(adm_do) { adm(0,0); } H(adm_next_sph) { adm(1,1); } H(adm_do_sph) { adm(0,1); }
// 3+1 step over the pole: same point and velocity as without the change of angles
static void flip(int nxt) { Line l(0.); l.small(4); ADM*c=new ADM(); c->spherical(true); c->dth=1.; struct Flat : public ADM { void computeNBeta(const double*,double&N,double b[3]) const { N=1.; b[0]=b[1]=b[2]=0.; } }; Flat*f=new Flat(); f->spherical(true); f->dth=1.; delete c;
  SmartPointer<Metric::Generic> g=f; l.metric(g); l.adaptive(false); l.integrator(KN[0]); l.integ31(true);
  double p[8]; mkcoord("p",p); v_assume(p[4]>0.01); p[2]=3.; p[3]=1.; v_assume(p[6]>0.01); l.setInitCoord(p,1); double h=0.5; state_t in(p,p+8),out(8); l.state_->init(&l,in,h); double tau=0.;
  if (nxt) { out=in; l.state_->nextStep(out,tau,1e300); } else l.state_->doStep(in,h,out);
  v_eq(out[2]+3.5,2*M_PI,"colatitude is brought back to its range"); v_eq(out[3]-1.,M_PI,"azimuth on the other side of the axis"); v_eq(out[5],p[5],"radial velocity unchanged"); v_eq(out[6],-p[6],"polar velocity reversed across the axis"); v_eq(out[7],p[7],"azimuthal velocity unchanged"); v_reach("end"); }
H(flip_next) { flip(1); } H(flip_do) { flip(0); }
// polarisation basis
struct Sym : public Metric::Minkowski { };
static double dot(const double*a,const double*b){ return -a[0]*b[0]+a[1]*b[1]+a[2]*b[2]+a[3]*b[3]; }
static void basis(int who) { Line l(0.); l.parallelTransport(true); l.small(4); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g); l.integrator(KN[0]); double p[16]; mkcoord("p",p,8); l.normTol(1e-6);
  // a photon along x (slightly off the cone), polarisation vectors near y and z
  p[4]=1.; p[5]=v_real("k1"); p[6]=0; p[7]=0; v_assume(who?(p[5]>1.0001&&p[5]<1.01):(p[5]>0.99&&p[5]<0.9999)); double s=v_real("s"); v_assume(s>0.9&&s<1.1); double e=v_real("e"); v_assume(e>0.01&&e<0.1);
  double Ep[4]={0,0,s,e},Et[4]={0,0,0,s}; for(int i=0;i<4;++i){p[8+i]=Ep[i];p[12+i]=Et[i];}
  state_t c(p,p+16); l.setInitCoord(p,1,p+8,p+12); l.state_->init(&l,c,1.); if(who) ((B*)l.state_())->reorthonormalizeBasis(c); else l.checkBasis(c);
  v_eq(dot(&c[8],&c[8]),1.,"first polarisation vector has unit norm"); v_eq(dot(&c[12],&c[12]),1.,"second polarisation vector has unit norm"); v_eq(dot(&c[8],&c[12]),0.,"polarisation vectors are orthogonal"); v_eq(dot(&c[8],&c[4]),0.,"polarisation vectors are orthogonal to the ray"); v_eq(dot(&c[12],&c[4]),0.,"polarisation vectors are orthogonal to the ray");
  v_assert(dot(&c[8],Ep)>0.5&&dot(&c[12],Et)>0.5,"each polarisation vector stays next to the one it corrects"); v_eq(dot(&c[8],Et),0.,"each polarisation vector stays in its slot"); v_reach("end"); }
H(basis_line) { basis(0); } H(basis_step) { basis(1); }
// a basis that is orthonormal is left alone
H(basis_good) { Line l(0.); l.parallelTransport(true); l.small(4); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g); l.integrator(KN[0]); double p[16]; mkcoord("p",p,8); l.normTol(1e-6); p[4]=1.;p[5]=1.;p[6]=p[7]=0.; double c=v_real("c"),s=v_real("s"); v_assume(c*c+s*s==1.); double q[8]={0,0,c,s,0,0,-s,c}; for(int i=0;i<8;++i) p[8+i]=q[i];
  state_t x(p,p+16); l.setInitCoord(p,1,p+8,p+12); l.state_->init(&l,x,1.); v_assert(((B*)l.state_())->checkBasis(x)<=1e-9,"an orthonormal basis is recognised"); l.checkBasis(x); for(int i=0;i<16;++i) v_eq(x[i],p[i],"an orthonormal basis is left alone"); v_reach("end"); }
// adaptive steps: inside the limits, motion exact for uniform motion
static void adaptive(int kind, int i31, int pt=0) { int sz=pt?16:8; Line l(0.); if(pt){l.parallelTransport(true);} l.small(4); 
  struct Lin : public Metric::Minkowski { using Metric::Generic::diff; int diff(state_t const&x,state_t&d,double) const { for(size_t i=0;i<x.size();++i) d[i]=i<4?x[i+4]:0.; return 0; }
    void computeNBeta(const double*,double&N,double b[3]) const { N=1.; b[0]=b[1]=b[2]=0.; } int diff31(state_t const&x,state_t&d,double) const { for(int i=0;i<7;++i) d[i]=0; for(int i=1;i<4;++i) d[i]=x[3+i]; return 0; } };
  SmartPointer<Metric::Generic> g=new Lin(); l.metric(g); l.adaptive(true); l.integrator(KN[kind]); if(i31) l.integ31(true); l.absTol(1e-6); l.relTol(1e-6); l.normTol(1e-6); l.deltaMin(0.01); l.deltaMax(10.); l.deltaMaxOverR(1e9);
  double p[16]={v_real("t"),5.,-1.,2.,1.,0.6,0.8,0.,0,0.8,-0.6,0,0,0,0,1}; l.setInitCoord(p,1,p+8,p+12);
  int dir=v_choose("dir",0,1)?1:-1; double d=pt?1.:v_real("d"),hm=pt?100.:0.; if(!pt) switch(v_choose("hm",0,2)){case 0:hm=0.005;break;case 1:hm=2.;break;case 2:hm=50.;} v_assume(d>0.001&&d<100); state_t in(p,p+sz),s(in); l.state_->init(&l,in,dir*d); double tau=0; l.state_->nextStep(s,tau,hm);
  double dt=s[0]-p[0]; v_assert(dir>0?dt>0:dt<0,"the step goes in the direction asked for"); double a=dt>0?dt:-dt; v_assert(a<=10.00001,"the step does not exceed the largest step allowed"); v_assert(a<=hm*1.000001||a<=0.01000001,"the step does not exceed the request"); v_assert(a>=0.00999999,"the step is not below the smallest step allowed");
  for(int i=1;i<4;++i) v_eq(s[i],p[i]+dt*p[4+i],"uniform motion is integrated exactly"); for(int i=4;i<sz;++i) v_eq(s[i],p[i],"uniform motion is integrated exactly"); v_eq(tau,dt,"proper time advances with the step"); v_reach("end"); }
H(adaptive_ck) { adaptive(0,0); } H(adaptive_f78) { adaptive(1,0); } H(adaptive_dp) { adaptive(2,0); } H(adaptive_ckc) { adaptive(3,0); } H(adaptive_31) { adaptive(0,1); } H(adaptive_pt) { adaptive(0,0,1); }
