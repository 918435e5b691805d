// worldline storage: the record is the integrator's output, whatever the directions and reallocations
#include "line.h"
static void same(Line&l, size_t idx, const state_t&s, double tau, int sz, const char*lab) {
  state_t c(sz); l.getCoord(idx,c); for(int i=0;i<sz;++i) v_eq(c[i],s[i],lab);
  size_t k=idx-l.getImin(); std::vector<double> t(l.get_nelements()); l.get_tau(&t[0]); v_eq(t[k],tau,"recorded proper time"); l.get_t(&t[0]); v_eq(t[k],s[0],"recorded date");
}
static void fill(int pt, bool proper) {
  int sz=pt?16:8; int x0=v_choose("size",1,3), dir=v_choose("dir",0,1)?1:-1;
  Line l(0.); if(pt) l.parallelTransport(true); l.small(x0);
  SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g);
  Env*e=new Env(&l,sz); l.state_=e;
  state_t c0(16); for(int i=0;i<sz;++i) c0[i]=v_real_i("c",i);
  l.setInitCoord(&c0[0],dir,&c0[8],&c0[12]); c0.resize(sz);
  v_assert(l.get_nelements()==1,"only the initial condition is known at first");
  std::vector<state_t> rec; std::vector<double> tau; rec.push_back(c0); tau.push_back(0.); size_t pos=0;
  for(int op=0;op<2;++op) {
    double lim=v_real_i("lim",op); size_t n0=e->out.size(); 
    // within the bounds: at most 3 new states per request
    double first=rec[0][0], lastd=rec[rec.size()-1][0];
    int fwd=v_choose(op?"fwd1":"fwd0",0,1); if (fwd) v_assume(lim>lastd); else v_assume(lim<first);
    e->stopat=n0+(op?1:2);
    l.xFill(lim,false);
    size_t n=e->out.size()-n0; v_assert(n>=1,"at least one step is made");
    for(size_t k=n0;k<e->out.size();++k) { if (fwd) { rec.push_back(e->out[k]); tau.push_back(e->tau[k]); } else { rec.insert(rec.begin(),e->out[k]); tau.insert(tau.begin(),e->tau[k]); ++pos; } }
    if ((int)n-1 < e->stopat-(int)n0) { double end=fwd?rec[rec.size()-1][0]:rec[0][0]; v_assert(fwd?end>lim:end<lim,"integration goes on until the requested date is passed"); }
    v_assert(l.get_nelements()==rec.size(),"every state is recorded once");
    v_assert(l.getI0()==l.getImin()+pos,"initial condition keeps its place");
    for(size_t k=0;k<rec.size();++k) same(l,l.getImin()+k,rec[k],tau[k],sz,"recorded states are those integrated, in order of time");
  }
  // a date inside the record needs no integration
  size_t n1=e->out.size(); l.xFill(rec[0][0],false); v_assert(e->out.size()==n1,"known dates are not integrated again");
  l.reset(); v_assert(l.get_nelements()==1,"reset forgets the trajectory"); same(l,l.getI0(),c0,0.,sz,"reset keeps the initial condition");
  v_reach("end");
}
H(fill_8) { fill(0,false); }
H(fill_16) { fill(1,false); }
H(fill_proper) { Line l(1.); l.small(2); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g); Env*e=new Env(&l,8); l.state_=e;
  double c[8]; mkcoord("c",c); int dir=v_choose("dir",0,1)?1:-1; l.setInitCoord(c,dir); double lim=v_real("lim"); v_assume(dir>0?lim>0:lim<0); e->stopat=3; l.xFill(lim,true);
  size_t n=e->out.size(); for(size_t k=0;k+1<n;++k) v_assert(dir>0?!(e->tau[k]>lim):!(e->tau[k]<lim),"integration stops once the requested proper time is passed");
  if (n<=3) v_assert(dir>0?e->tau[n-1]>lim:e->tau[n-1]<lim,"integration goes on until the requested proper time is passed");
  v_assert(l.get_nelements()==n+1,"every state is recorded once"); v_reach("end"); }
// a metric's stop condition ends the record before the state that triggered it
struct Stop : public Metric::Minkowski { int *n; int at; int isStopCondition(double const*) const { return (*n)++==at; } };
H(fill_stop) { Line l(0.); l.small(2); int cnt=0; Stop*s=new Stop(); s->n=&cnt; s->at=v_choose("at",0,2); SmartPointer<Metric::Generic> g=s; l.metric(g); Env*e=new Env(&l,8); l.state_=e;
  double c[8]; mkcoord("c",c); int dir=v_choose("dir",0,1)?1:-1; l.setInitCoord(c,dir); double lim=v_real("lim"); v_assume(dir>0?lim>c[0]:lim<c[0]); e->stopat=5;
  l.xFill(lim); size_t n=e->out.size(); size_t good=0; for(size_t k=0;k<n;++k) { good=k+1; if((int)k==s->at) {good=k;break;} }
  v_assert(l.get_nelements()==good+1,"the record stops before the state that met the stop condition"); v_reach("end"); }
// dates: stored states are returned as they are, in any order of request
static void atdates(int mass, int sph) {
  Line l(mass); l.small(8); SmartPointer<Metric::Generic> g; if(sph){ Metric::Minkowski*m=new Metric::Minkowski(); m->spherical(true); g=m; } else g=new Metric::Minkowski();
  l.metric(g); Env*e=new Env(&l,8); l.state_=e; double c[8]; mkcoord("c",c); if (sph) v_assume(c[2]>0.1&&c[2]<3&&c[3]>0&&c[3]<6);
  l.setInitCoord(c,1); std::vector<state_t> rec; state_t s(8);
  for(int k=1;k<=3;++k){ for(int i=0;i<8;++i) s[i]=v_real_i("p",10*k+i); if(sph) v_assume(s[2]>0.1&&s[2]<3&&s[3]>0&&s[3]<6); v_assume(s[0]>(k==1?c[0]:rec[k-2][0])); rec.push_back(s); l.xStore(k,s,v_real_i("u",k)); } l.imax_=3;
  double d[3]; int w[3]; for(int j=0;j<3;++j){ w[j]=v_choose(j==0?"w0":j==1?"w1":"w2",0,2); d[j]=rec[w[j]][0]; }
  double x1[3],x2[3],x3[3],a[3],b[3],cc[3],dd[3],ot[3];
  l.getCoord(d,3,x1,x2,x3,a,b,cc,dd,NULL,NULL,NULL,NULL,NULL,NULL,NULL,NULL,ot);
  for(int j=0;j<3;++j){ state_t&r=rec[w[j]]; v_eq(x1[j],r[1],"position at a computed date"); v_eq(x2[j],r[2],"position at a computed date"); v_eq(x3[j],r[3],"position at a computed date"); v_eq(a[j],r[4],"velocity at a computed date"); v_eq(b[j],r[5],"velocity at a computed date"); v_eq(cc[j],r[6],"velocity at a computed date"); v_eq(dd[j],r[7],"velocity at a computed date"); v_eq(ot[j],l.tau_[1+w[j]],"proper time at a computed date"); }
  v_assert(e->out.size()==0,"computed dates are not integrated again"); v_reach("end"); }
H(dates_cart) { atdates(0,0); } H(dates_sph) { atdates(1,1); }
// interpolation: free motion is reproduced exactly at every date, before, inside and after the computed part
static void freefall(int mass) {
  Line l(mass); l.small(2); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g);
  struct Free : public Env { Free(Worldline*l):Env(l,8){} 
    int nextStep(state_t&c,double&t,double) { int n=tau.size(); double h=delta_>0?1.+n:-1.5; for(int i=0;i<4;++i) c[i]+=h*c[4+i]; t+=h; tau.push_back(t); return n>=1; }
    void doStep(state_t const&in,double s,state_t&o) { o=in; for(int i=0;i<4;++i) o[i]=in[i]+s*in[4+i]; } };
  Free*e=new Free(&l); l.state_=e; double c[8]; mkcoord("c",c); 
  c[0]=0.; c[4]=mass?1.25:2.; c[5]=-0.45; c[6]=0.6; c[7]=mass?0.:1.8;
  l.setInitCoord(c,v_choose("dir",0,1)?1:-1);
  double d[2]={v_real("d0"),v_real("d1")}; double x1[2],x2[2],x3[2],k0[2],k1[2],k2[2],k3[2],ot[2];
  bool ok=true; try { l.getCoord(d,2,x1,x2,x3,k0,k1,k2,k3,NULL,NULL,NULL,NULL,NULL,NULL,NULL,NULL,ot); } catch (Gyoto::Error const&) { ok=false; }
  if (ok) for(int j=0;j<2;++j) { double dt=d[j]-c[0];
    v_eq(x1[j],c[1]+c[5]/c[4]*dt,"interpolated position of a free particle"); v_eq(x2[j],c[2]+c[6]/c[4]*dt,"interpolated position of a free particle"); v_eq(x3[j],c[3]+c[7]/c[4]*dt,"interpolated position of a free particle");
    v_eq(ot[j],dt/c[4],"interpolated proper time of a free particle"); v_eq(k0[j],c[4],"interpolated velocity of a free particle"); v_eq(k1[j],c[5],"interpolated velocity of a free particle"); v_eq(k2[j],c[6],"interpolated velocity of a free particle"); v_eq(k3[j],c[7],"interpolated velocity of a free particle"); }
  else { bool reach=true; for(int j=0;j<2;++j) { double t1=l.x0_[l.getImax()], t0=l.x0_[l.getImin()]; if (d[j]>t1||d[j]<t0) reach=false; } v_assert(!reach,"a date is refused only when the integration cannot reach it"); }
  v_reach("end"); }
H(interp_photon) { freefall(0); } H(interp_massive) { freefall(1); }
// interpolation by proper time
H(interp_proper) { Line l(1); l.small(4); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g);
  struct Free : public Env { Free(Worldline*l):Env(l,8){} void doStep(state_t const&in,double s,state_t&o) { o=in; for(int i=0;i<4;++i) o[i]=in[i]+s*in[4+i]; } };
  Free*e=new Free(&l); l.state_=e; double c[8]; mkcoord("c",c); v_assume(c[4]>0); l.setInitCoord(c,1);
  double u=v_real("u"); v_assume(u>0); state_t s(8); for(int i=0;i<4;++i){ s[i]=c[i]+u*c[4+i]; s[4+i]=c[4+i]; } l.xStore(1,s,u); l.imax_=1;
  double q=v_real("q"); v_assume(q>=0&&q<=u); state_t r(8); l.getCoord(q,r,true); for(int i=0;i<4;++i){ v_eq(r[i],c[i]+q*c[4+i],"position at a proper time"); v_eq(r[4+i],c[4+i],"velocity at a proper time"); } v_reach("end"); }
// transported vectors are interpolated with the photon
H(interp_pt) { Line l(0); l.parallelTransport(true); l.checkBasis(false); l.small(4); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g);
  struct Free : public Env { Free(Worldline*l):Env(l,16){} void doStep(state_t const&in,double s,state_t&o) { o=in; for(int i=0;i<4;++i) o[i]=in[i]+s*in[4+i]; } };
  Free*e=new Free(&l); l.state_=e; double c[16]; mkcoord("c",c,16); v_assume(c[4]>0); l.setInitCoord(c,1,c+8,c+12);
  double u=v_real("u"); v_assume(u>0); state_t s(16); for(int i=0;i<16;++i) s[i]=c[i]+(i<4?u*c[4+i]:0.); l.xStore(1,s,u); l.imax_=1;
  double q=v_real("q"); v_assume(q>=c[0]&&q<=s[0]); state_t r(16); l.getCoord(q,r); for(int i=0;i<16;++i) v_eq(r[i],i<4?c[i]+(q-c[0])*c[4+i]/c[4]:c[i],"transported vectors at a date"); v_reach("end"); }
// Cartesian views of the record
static Line* stored(int sph, double (*p)[8]) {
  Line*l=new Line(1.); l->small(4); Metric::Minkowski*m=new Metric::Minkowski(); if(sph) m->spherical(true); SmartPointer<Metric::Generic> g=m; l->metric(g);
  Env*e=new Env(l,8); l->state_=e; double c[8];
  for(int k=0;k<3;++k){ for(int i=0;i<8;++i) p[k][i]=v_real_i("p",10*k+i); if(k) v_assume(p[k][0]>p[k-1][0]); if(sph) v_assume(p[k][2]>0.1&&p[k][2]<3&&p[k][3]>0&&p[k][3]<6); v_assume(p[k][4]!=0); }
  l->setInitCoord(p[0],1); for(int k=1;k<3;++k){ state_t s(p[k],p[k]+8); l->xStore(k,s,v_real_i("u",k)); } l->imax_=2; return l; }
static void cart(int sph, const double*p, double*x, double*v) { 
  if(!sph){ for(int i=0;i<3;++i){x[i]=p[1+i]; v[i]=p[5+i]/p[4];} return; }
  double r=p[1],s=sin(p[2]),c=cos(p[2]),sp=sin(p[3]),cp=cos(p[3]),rd=p[5]/p[4],td=p[6]/p[4],pd=p[7]/p[4];
  x[0]=r*s*cp;x[1]=r*s*sp;x[2]=r*c; v[0]=rd*s*cp+r*td*c*cp-r*pd*s*sp; v[1]=rd*s*sp+r*td*c*sp+r*pd*s*cp; v[2]=rd*c-r*td*s; }
static void views(int sph) { double p[3][8]; Line*l=stored(sph,p); double x[3],y[3],z[3],X[3],V[3];
  l->get_xyz(x,y,z); for(int k=0;k<3;++k){ cart(sph,p[k],X,V); v_eq(x[k],X[0],"Cartesian positions of the record"); v_eq(y[k],X[1],"Cartesian positions of the record"); v_eq(z[k],X[2],"Cartesian positions of the record");
    double d[4]; l->getCartesianPos(l->getImin()+k,d); v_eq(d[0],p[k][0],"Cartesian position by index"); for(int i=0;i<3;++i) v_eq(d[1+i],X[i],"Cartesian position by index"); }
  double d[2]={p[2][0],p[1][0]},a[2],b[2],c[2],da[2],db[2],dc[2]; l->getCartesian(d,2,a,b,c,da,db,dc);
  for(int j=0;j<2;++j){ cart(sph,p[2-j],X,V); v_eq(a[j],X[0],"Cartesian positions at dates"); v_eq(b[j],X[1],"Cartesian positions at dates"); v_eq(c[j],X[2],"Cartesian positions at dates"); v_eq(da[j],V[0],"Cartesian velocities at dates"); v_eq(db[j],V[1],"Cartesian velocities at dates"); v_eq(dc[j],V[2],"Cartesian velocities at dates"); }
  double e[2]; l->getCartesian(d,2,a,b,c,NULL,e,NULL); cart(sph,p[2],X,V); v_eq(e[0],V[1],"single velocity component");
  double q1[3],q2[3],q3[3]; l->get_prime(q1,q2,q3); for(int k=0;k<3;++k){ v_eq(q1[k]*p[k][4],p[k][5],"coordinate velocities"); v_eq(q2[k]*p[k][4],p[k][6],"coordinate velocities"); v_eq(q3[k]*p[k][4],p[k][7],"coordinate velocities"); }
  double t[3],r1[3],r2[3],r3[3],r0[3]; l->getCoord(r0,r1,r2,r3); for(int k=0;k<3;++k){ v_eq(r0[k],p[k][0],"raw coordinates"); v_eq(r1[k],p[k][1],"raw coordinates"); v_eq(r2[k],p[k][2],"raw coordinates"); v_eq(r3[k],p[k][3],"raw coordinates"); }
  l->get_dot(r0,r1,r2,r3); for(int k=0;k<3;++k){ v_eq(r0[k],p[k][4],"raw velocities"); v_eq(r1[k],p[k][5],"raw velocities"); v_eq(r2[k],p[k][6],"raw velocities"); v_eq(r3[k],p[k][7],"raw velocities"); }
  delete l; v_reach("end"); }
H(views_cart) { views(0); } H(views_sph) { views(1); }
// partial output: pointers may be NULL
H(views_null) { double p[3][8]; int sph=v_choose("sph",0,1); Line*l=stored(sph,p); double d[1]={p[1][0]},V[3],X[3],vx[1],y[1]; cart(sph,p[1],X,V); l->getCartesian(d,1,NULL,y,NULL,vx,NULL,NULL); v_eq(vx[0],V[0],"velocity without position"); v_eq(y[0],X[1],"one coordinate only"); delete l; v_reach("end"); }
// positions only
H(views_pos) { double p[3][8]; Line*l=stored(0,p); state_t c(4); l->getCoord(l->getImin()+1,c); for(int i=0;i<4;++i) v_eq(c[i],p[1][i],"position by index in a 4-element state"); c=state_t(4); l->getCoord(p[1][0],c); for(int i=0;i<4;++i) v_eq(c[i],p[1][i],"position by date in a 4-element state"); delete l; v_reach("end"); }
// angles are brought back to their range without moving the point
H(angles) { double p[8]; mkcoord("p",p); v_assume(p[2]>-9&&p[2]<9&&p[3]>-13&&p[3]<19); Line l(0); Metric::Minkowski*m=new Metric::Minkowski(); m->spherical(true); SmartPointer<Metric::Generic> g=m; l.metric(g);
  double q[8]; for(int i=0;i<8;++i) q[i]=p[i]; l.checkPhiTheta(q);
  v_assert(q[2]>=0&&q[2]<=M_PI,"colatitude is in [0,pi]"); v_assert(q[3]>=0&&q[3]<=2*M_PI,"azimuth is in [0,2pi]");
  double X[3],V[3],Y[3],W[3]; v_assume(p[4]!=0); cart(1,p,X,V); cart(1,q,Y,W); for(int i=0;i<3;++i){ v_eq(X[i],Y[i],"same point"); v_eq(V[i],W[i],"same velocity"); } v_reach("end"); }
// copies are equal and independent
H(copy) { int pt=v_choose("pt",0,1); Line l(1.); l.parallelTransport(pt); l.small(4); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g); l.state_=new Env(&l,pt?16:8);
  double c[16]; mkcoord("c",c,16); l.setInitCoord(c,1,c+8,c+12); state_t s(16); for(int i=0;i<16;++i) s[i]=v_real_i("s",i); double u=v_real("u"); l.xStore(1,s,u); l.imax_=1;
  double k[3]={v_real("k0"),v_real("k1"),v_real("k2")}; l.setCst(k,3);
  double del=v_real("del"),tm=v_real("tm"),dmin=v_real("dmin"),dmax=v_real("dmax"),dr=v_real("dr"),at=v_real("at"),rt=v_real("rt"),nt=v_real("nt"),mc=v_real("mc");
  l.delta(del); l.tMin(tm); l.deltaMin(dmin); l.deltaMax(dmax); l.deltaMaxOverR(dr); l.absTol(at); l.relTol(rt); l.normTol(nt); l.maxCrossEqplane(mc); l.adaptive(v_bool("ad")); l.secondary(v_bool("se")); l.checkBasis(v_bool("cb")); l.maxiter(v_size("mi",0,100000));
  Line m(l);
  v_eq(m.delta(),del,"parameters are copied"); v_eq(m.tMin(),tm,"parameters are copied"); v_eq(m.deltaMin(),dmin,"parameters are copied"); v_eq(m.deltaMax(),dmax,"parameters are copied"); v_eq(m.deltaMaxOverR(),dr,"parameters are copied"); v_eq(m.absTol(),at,"parameters are copied"); v_eq(m.relTol(),rt,"parameters are copied"); v_eq(m.normTol(),nt,"parameters are copied"); v_eq(m.maxCrossEqplane(),mc,"parameters are copied");
  v_assert(m.adaptive()==l.adaptive()&&m.secondary()==l.secondary()&&m.checkBasis()==l.checkBasis()&&m.maxiter()==l.maxiter()&&m.parallelTransport()==l.parallelTransport(),"options are copied");
  v_assert(m.getImin()==l.getImin()&&m.getImax()==l.getImax()&&m.getI0()==l.getI0(),"extent of the record is copied");
  std::vector<double> cm=m.constantsOfMotion(); v_assert(cm.size()==3,"constants of motion are copied"); for(int i=0;i<3;++i) v_eq(cm[i],k[i],"constants of motion are copied");
  int sz=pt?16:8; 
  double other[16]; for(int i=0;i<16;++i) other[i]=7.+i; l.setInitCoord(other,1,other+8,other+12); double z[3]={0,0,0}; l.setCst(z,3);
  state_t r(sz); m.getCoord(m.getImin(),r); for(int i=0;i<sz;++i) v_eq(r[i],c[i],"the copy keeps its own record"); m.getCoord(m.getImax(),r); for(int i=0;i<sz;++i) v_eq(r[i],s[i],"the copy keeps its own record"); v_eq(m.constantsOfMotion()[1],k[1],"the copy keeps its own constants");
  v_assert(m.metric()()!=l.metric()(),"the copy has its own metric"); v_reach("end"); }
// refined copy of one step: same end points, spacing below the maximum
H(refine) { v_opt("f2i","enum"); Line l(0.); l.small(4); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g);
  struct Free : public Env { Free(Worldline*l):Env(l,8){} Free*clone(Worldline*w) const {return new Free(w);} void doStep(state_t const&in,double s,state_t&o) { o=in; for(int i=0;i<4;++i) o[i]=in[i]+s*in[4+i]; } }; l.state_=new Free(&l);
  double c[8]; mkcoord("c",c); v_assume(c[4]>0); l.setInitCoord(c,1); double u[3]={0,v_real("u1"),v_real("u2")}; v_assume(u[1]>0&&u[2]>u[1]); double T[3]; T[0]=c[0];
  for(int k=1;k<3;++k){ state_t s(c,c+8); for(int i=0;i<4;++i) s[i]+=u[k]*c[4+i]; T[k]=s[0]; l.xStore(k,s,u[k]); } l.imax_=2;
  double h=v_real("h"); v_assume(h>0); int dir=v_choose("dir",0,1)?1:-1; double D=dir>0?T[2]-T[1]:T[1]-T[0]; v_assume(D<3*h);
  Line r(&l,1,dir,h); size_t n=r.get_nelements(); double t[6]; v_assert(n>=2&&n<=5,"number of points"); r.get_t(t);
  v_eq(t[0],dir>0?T[1]:T[0],"refined part starts where the step starts"); v_eq(t[n-1],dir>0?T[2]:T[1],"refined part ends where the step ends");
  for(size_t k=0;k+1<n;++k) { v_assert(t[k+1]>t[k],"dates increase"); v_assert(t[k+1]-t[k]<=h,"refined steps do not exceed the maximum"); }
  for(size_t k=0;k<n;++k) { state_t s(8); r.getCoord(r.getImin()+k,s); for(int i=1;i<4;++i) { v_eq(s[i],c[i]+(t[k]-T[0])*c[4+i]/c[4],"refined positions"); v_eq(s[4+i],c[4+i],"refined velocities"); } }
  v_assert(r.getI0()==(dir>0?r.getImin():r.getImax()),"initial point of the refined part"); v_reach("end"); }
// changing the metric (or one of its parameters) or the initial condition forgets the trajectory
H(stale) { Line l(1.); l.small(4); Metric::KerrBL*kb=new Metric::KerrBL(); SmartPointer<Metric::Generic> g=kb; l.metric(g); l.state_=new Env(&l,8);
  double c[8]={0.,10.,1.,1.,1.2,0.,0.,0.03}; l.setInitCoord(c,1); state_t s(8); for(int i=0;i<8;++i) s[i]=c[i]+1; l.xStore(1,s,1.); l.imax_=1; v_assert(l.get_nelements()==2,"setup");
  switch(v_choose("what",0,3)) { case 0: { double a=v_real("a"); v_assume(a>0.1&&a<0.9); kb->spin(a); break; } case 1: l.metric(new Metric::KerrBL()); break; case 2: { c[1]=11.; l.setInitCoord(c,0); break; } case 3: l.integ31(true); break; }
  v_assert(l.get_nelements()==1,"a trajectory computed for other parameters is forgotten"); state_t r(8); l.getCoord(l.getI0(),r); for(int i=0;i<8;++i) v_eq(r[i],c[i],"initial condition kept"); v_reach("end"); }
// default direction of integration: photons backwards, stars forwards; storage room on the right side
H(direction) { int mass=v_choose("mass",0,1); Line l(mass); l.small(4); SmartPointer<Metric::Generic> g=new Metric::Minkowski(); l.metric(g); l.state_=new Env(&l,8); double c[8]; mkcoord("c",c); int d=v_choose("dir",-1,1); l.setInitCoord(c,d); int e=d?d:(mass?1:-1);
  v_assert(l.getI0()==(e>0?0:3),"initial condition leaves room in the direction of integration"); size_t i0=l.getI0(); l.setInitCoord(c,0); v_assert(l.getI0()==i0,"an initialised worldline keeps its direction"); 
  std::vector<double> v=l.initCoord(); for(int i=0;i<8;++i) v_eq(v[i],c[i],"initial coordinates are returned"); for(int i=0;i<8;++i) v[i]+=1.; l.initCoord(v); std::vector<double> w=l.initCoord(); for(int i=0;i<8;++i) v_eq(w[i],c[i]+1.,"initial coordinates round trip"); v_reach("end"); }
H(maxstep) { Line l(0); int sph=v_choose("sph",0,1); Metric::Minkowski*m=new Metric::Minkowski(); if(sph) m->spherical(true); SmartPointer<Metric::Generic> g=m; l.metric(g); double f=v_real("f"),mn=v_real("mn"),mx=v_real("mx"),h=v_real("h"); v_assume(f>0&&mn>0&&mx>mn&&h>0); l.deltaMaxOverR(f); l.deltaMin(mn); l.deltaMax(mx); double p[8]; mkcoord("p",p); if(sph) v_assume(p[1]>0);
  double d=l.deltaMax(p,h); v_assert(d>=mn&&d<=mx,"step limit respects the bounds"); v_assert(d<=h||d<=mn,"step limit respects the request"); double R=fabs(p[1]); if(!sph){ if(fabs(p[2])>R) R=fabs(p[2]); if(fabs(p[3])>R) R=fabs(p[3]); } v_assert(d<=f*R||d<=mn,"step limit respects the distance criterion"); v_assert(d==mn||d==mx||d==h||d==f*R,"step limit is the tightest of the bounds"); v_reach("end"); }
// export of the record reads the record and nothing else
H(save) { double p[3][8]; Line*l=stored(v_choose("sph",0,1),p); char f[]="/dev/null"; if(v_choose("which",0,1)) l->save_txyz(f,p[1][0],1.,1.,"geometrical",NULL); else l->save_txyz(f); v_assert(l->get_nelements()==3,"the record is unchanged"); delete l; v_reach("end"); }
