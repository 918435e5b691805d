// camera: geometry of the sky, rays and polarisation basis, pixel sets
#include "symmetric.h"
#include "GyotoScreen.h"
#include "GyotoSpectrometer.h"
static Metric::Generic* flat(int sph) { Metric::Minkowski*m=new Metric::Minkowski(); if(sph) m->spherical(true); double u=v_real("ul"); v_assume(u>0.01&&u<100); m->mass(u/GYOTO_G_OVER_C_SQUARE); return m; }
static void euler(Screen&s) { s.setProjection(v_real("paln"),v_real("incl"),v_real("arg")); }
static void xyz(int sph,const double*p,double*x) { if(!sph){x[0]=p[1];x[1]=p[2];x[2]=p[3];return;} x[0]=p[1]*sin(p[2])*cos(p[3]); x[1]=p[1]*sin(p[2])*sin(p[3]); x[2]=p[1]*cos(p[2]); }
static void vxyz(int sph,const double*p,const double*u,double*v) { if(!sph){v[0]=u[1];v[1]=u[2];v[2]=u[3];return;}
  double r=p[1],s=sin(p[2]),c=cos(p[2]),sp=sin(p[3]),cp=cos(p[3]);
  v[0]=u[1]*s*cp+r*u[2]*c*cp-r*u[3]*s*sp; v[1]=u[1]*s*sp+r*u[2]*c*sp+r*u[3]*s*cp; v[2]=u[1]*c-r*u[2]*s; }
static void mkpos(double*p,int sph) { if(sph) sphpos(p,0.1); else { cartpos(p); v_assume(p[1]*p[1]+p[2]*p[2]>0.01); } }
// sky <-> coordinates
static void sky(int sph) { Screen s; SmartPointer<Metric::Generic> g=flat(sph); s.metric(g); euler(s); double p[4]; mkpos(p,sph); bool geom=v_choose("geom",0,1);
  double k[3],q[4]; s.coordToSky(p,k,geom); s.skyToCoord(k,q,geom); double x[3],y[3]; xyz(sph,p,x); xyz(sph,q,y); for(int i=0;i<3;++i) v_eq(x[i],y[i],"position recovered from the sky");
  double ul=geom?1.:g->unitLength(); v_eq(k[0]*k[0]+k[1]*k[1]+k[2]*k[2],(x[0]*x[0]+x[1]*x[1]+x[2]*x[2])*ul*ul,"sky coordinates keep lengths"); v_reach("end"); }
H(sky_cart) { sky(0); }
H(sky_sph) { Screen s; SmartPointer<Metric::Generic> g=flat(1); s.metric(g); double k[3]={v_real("k0"),v_real("k1"),v_real("k2")}, q[4], x[3]; v_assume(k[0]*k[0]+k[1]*k[1]>0.01); bool geom=v_choose("geom",0,1); s.skyToCoord(k,q,geom); xyz(1,q,x); double ul=geom?1.:g->unitLength();
  for(int i=0;i<3;++i) v_eq(x[i]*ul,k[i],"position recovered from the sky"); v_assert(q[1]>0,"radius is positive"); v_reach("end"); }
// sky axes: the rotation is the one given by node, inclination and argument
static void axes(int sph) { Screen s; SmartPointer<Metric::Generic> g=flat(sph); s.metric(g); double P=v_real("paln"),I=v_real("incl"),A=v_real("arg"); int ord=v_choose("order",0,2);
  if (ord==0) s.setProjection(P,I,A); else if (ord==1) { s.PALN(P); s.inclination(I); s.argument(A); } else { s.setProjection(5.,P,I,A); v_eq(s.distance(),5.,"distance set with the projection"); }
  double p[4]; mkpos(p,sph); double k[3],x[3]; s.coordToSky(p,k,true); xyz(sph,p,x);
  // rotate by argument about z, by inclination about the node, then by the position angle of the node
  double x1=cos(A)*x[0]-sin(A)*x[1], y1=sin(A)*x[0]+cos(A)*x[1], z1=x[2];
  double y2=cos(I)*y1-sin(I)*z1, z2=sin(I)*y1+cos(I)*z1; 
  v_eq(k[0],cos(P)*x1-sin(P)*y2,"sky coordinates follow the Euler angles"); v_eq(k[1],sin(P)*x1+cos(P)*y2,"sky coordinates follow the Euler angles"); v_eq(k[2],z2,"sky coordinates follow the Euler angles"); 
  v_eq(s.PALN(),P,"angles are kept"); v_eq(s.inclination(),I,"angles are kept"); v_eq(s.argument(),A,"angles are kept"); v_reach("end"); }
H(axes_cart) { axes(0); } H(axes_sph) { axes(1); }
// observer position
static void obs(int sph) { Screen s; SmartPointer<Metric::Generic> g=flat(sph); s.metric(g); double p[4],q[4]; mkpos(p,sph); s.setObserverPos(p); s.getObserverPos(q);
  double x[3],y[3]; xyz(sph,p,x); xyz(sph,q,y); v_eq(p[0],q[0],"observing date round trip"); for(int i=0;i<3;++i) v_eq(x[i],y[i],"observer position round trip"); if (sph) for(int i=1;i<4;++i) v_eq(p[i],q[i],"observer coordinates round trip");
  v_eq(s.time()*GYOTO_C,p[0]*g->unitLength(),"observing date in seconds"); v_eq(s.distance()*s.distance(),(x[0]*x[0]+x[1]*x[1]+x[2]*x[2])*g->unitLength()*g->unitLength(),"distance in metres");
  double k[3]; s.coordToSky(q,k,false); v_eq(k[0],0.,"the observer is on the line of sight"); v_eq(k[1],0.,"the observer is on the line of sight"); v_eq(k[2],-s.distance(),"the observer is on the near side"); v_reach("end"); }
H(obs_cart) { obs(0); } H(obs_sph) { obs(1); }
H(obs_line) { Screen s; int sph=v_choose("sph",0,1); SmartPointer<Metric::Generic> g=flat(sph); s.metric(g); euler(s); double d=v_real("d"); v_assume(d>0); s.distance(d); double q[4],k[3]; s.getObserverPos(q); s.coordToSky(q,k,false); v_eq(k[0],0.,"the observer is on the line of sight"); v_eq(k[1],0.,"the observer is on the line of sight"); v_eq(k[2],-d,"the observer is on the near side"); v_reach("end"); }
// rays of the observer at infinity in flat space: the direction on the sky
static void rot(double d1,double d2,double*n) { double a=cos(d1)*n[0]+sin(d1)*n[2], c=-sin(d1)*n[0]+cos(d1)*n[2], b=n[1]; n[0]=a; n[1]=cos(d2)*b-sin(d2)*c; n[2]=sin(d2)*b+cos(d2)*c; }
static void setup(Screen&s,int sph,int kind,SmartPointer<Metric::Generic>&g) { g=flat(sph); s.metric(g); euler(s); if(sph) { double I=s.inclination(); if (v_choose("neg",0,1)) v_assume(sin(I)<0&&I>-3.1&&I<-0.05); else v_assume(sin(I)>0&&I>0.05&&I<3.1); } double d=v_real("d"); v_assume(d>25&&d<1e6); s.distance(d*g->unitLength()); s.anglekind(kind); s.time(v_real("tobs")); }
static void ray(int sph,int kind,int dang,int pol) { Screen s; SmartPointer<Metric::Generic> g; setup(s,sph,kind,g);
  double d1=0,d2=0; if(dang){ d1=v_real("da1"); d2=v_real("da2"); v_assume(d1>-1&&d1<1&&d2>-1&&d2<1); s.dangle1(d1); s.dangle2(d2); }
  double a=v_real("a1"),b=v_real("a2"); v_assume(a>-1.5&&a<1.5&&b>-1.5&&b<1.5); v_assume(cos(a)>0&&cos(b)>0); if(kind==Screen::rectilinear) v_assume(a*a+b*b>0.01);
  double c[8],E[4],F[4]; s.getRayTriad(a,b,c,pol,E,F);
  double n[3]; // direction looked at
  if (kind==Screen::equatorial_angles) { n[0]=sin(a)*cos(b); n[1]=sin(b); n[2]=cos(a)*cos(b); }
  else if (kind==Screen::spherical_angles) { n[0]=sin(a+d1)*cos(b+d2); n[1]=sin(a+d1)*sin(b+d2); n[2]=cos(a+d1); }
  else { double w=1/sqrt(1+a*a+b*b); n[0]=a*w; n[1]=b*w; n[2]=w; }
  if (kind!=Screen::spherical_angles) rot(d1,d2,n);
  double v[3],k[3]; vxyz(sph,c,c+4,v); double q[4]; s.getObserverPos(q); for(int i=0;i<4;++i) v_eq(c[i],q[i],"rays reach the observer");
  k[0]=v[0]*s.ex_[0]+v[1]*s.ey_[0]+v[2]*s.ez_[0]; k[1]=v[0]*s.ex_[1]+v[1]*s.ey_[1]+v[2]*s.ez_[1]; k[2]=v[0]*s.ex_[2]+v[1]*s.ey_[2]+v[2]*s.ez_[2];
  if (!pol) { for(int i=0;i<3;++i) v_eq(k[i],-n[i],"the ray comes from the direction of the angles"); v_eq(c[4]*c[4],v[0]*v[0]+v[1]*v[1]+v[2]*v[2],"rays are null"); v_assert(c[4]>=0,"rays are future-directed"); v_eq(c[4]*c[4],1.,"photon energy is one"); }
  else { double e[3],f[3]; vxyz(sph,c,E,e); vxyz(sph,c,F,f); double ee=0,ff=0,ef=0,ev=0,fv=0; for(int i=0;i<3;++i){ ee+=e[i]*e[i]; ff+=f[i]*f[i]; ef+=e[i]*f[i]; ev+=e[i]*v[i]; fv+=f[i]*v[i]; }
    v_eq(E[0],0.,"polarisation basis is in the rest frame"); v_eq(F[0],0.,"polarisation basis is in the rest frame"); v_eq(ee,1.,"polarisation vectors are unit"); v_eq(ff,1.,"polarisation vectors are unit"); v_eq(ef,0.,"polarisation vectors are orthogonal"); v_eq(ev,0.,"polarisation vectors are orthogonal to the ray"); v_eq(fv,0.,"polarisation vectors are orthogonal to the ray"); }
  v_reach("end"); }
#define RAY(n,s,k) H(ray_##n) { ray(s,Screen::k,0,0); } D(dray_##n) { ray(s,Screen::k,1,0); } H(pol_##n) { ray(s,Screen::k,0,1); } D(dpol_##n) { ray(s,Screen::k,1,1); }
#define D H
RAY(cart_equ,0,equatorial_angles) RAY(cart_rec,0,rectilinear)
#undef D
#define D H
RAY(sph_equ,1,equatorial_angles)  RAY(sph_rec,1,rectilinear) RAY(cart_sph,0,spherical_angles) RAY(sph_sph,1,spherical_angles)

// pixels: angles of pixel (i,j), and what a distant screen does
static void pixel(int kind) { Screen s; SmartPointer<Metric::Generic> g; setup(s,0,kind,g); size_t n=v_choose("n",2,3), i=v_choose("i",1,3), j=v_choose("j",1,3); v_assume(i<=n&&j<=n); s.resolution(n); double f=v_real("fov"),h=v_real("az"); v_assume(f>0.1&&f<1.5&&h>0.1&&h<6.2); s.fieldOfView(f); s.azimuthalFieldOfView(h);
  double c[8],d[8],a,b; s.getRayTriad(i,j,c,false); double N=n,I=i,J=j;
  if (kind==Screen::spherical_angles) { a=(I-1)*f/(2*(N-1)); b=M_PI-(J-1)*h/(N-1); }
  else { double w=kind==Screen::rectilinear?2*tan(f*0.5):f; a=-w/N*(I-(N+1)/2); b=w/N*(J-(N+1)/2); }
  if (kind!=Screen::spherical_angles) v_assume(cos(a)>0&&cos(b)>0); s.getRayTriad(a,b,d,false); for(int k=0;k<8;++k) v_eq(c[k],d[k],"the ray of a pixel is that of its angles"); v_reach("end"); }
H(pixel_equ) { pixel(Screen::equatorial_angles); } H(pixel_rec) { pixel(Screen::rectilinear); } H(pixel_sph) { pixel(Screen::spherical_angles); }
// a screen beyond dMax: rays start at dMax, earlier by the light travel time, with proportionally larger angles
static void far(int sph,int kind,int dang) { Screen s; SmartPointer<Metric::Generic> g=flat(sph); s.metric(g); euler(s); if(sph) { double I=s.inclination(); v_assume(sin(I)>0&&I>0.05&&I<3.1); } double d=v_real("d"),m=v_real("dmax"),a=v_real("a1"),b=v_real("a2"),ul=g->unitLength(),d1=0.,d2=0.; v_assume(m>30&&d>m&&d<1e6); s.anglekind(kind); if(dang) { d1=v_real("da1"); d2=v_real("da2"); }
  double k=d/m, kb=kind==Screen::spherical_angles?1.:k; // the azimuth of spherical angles does not depend on the distance
  if(dang) v_assume(d1*k<1&&d1*k>-1&&d2*kb<1&&d2*kb>-1); v_assume(a*k<1&&a*k>-1&&b*kb<1&&b*kb>-1); if (kind!=Screen::spherical_angles) v_assume(cos(a*k)>0&&cos(b*kb)>0); if(kind==Screen::rectilinear) v_assume(a*a*k*k+b*b*k*k>0.01);
  s.distance(d*ul); s.dMax(m); s.time(v_real("tobs")); s.dangle1(d1); s.dangle2(d2); double c[8],e[8]; s.getRayTriad(a,b,c,false);
  double q[4]; s.getObserverPos(q); v_eq(c[0],q[0]-(d-m),"light travel time is taken off the date"); double x[3],y[3]; xyz(sph,q,x); xyz(sph,c,y); for(int i=0;i<3;++i) v_eq(y[i]*d,x[i]*m,"rays start at dMax on the line of sight");
  s.distance(m*ul); s.dangle1(d1*k); s.dangle2(d2*kb); s.getRayTriad(a*k,b*kb,e,false); for(int i=1;i<8;++i) v_eq(c[i],e[i],"angles are scaled with the distance"); v_eq(s.dMax(),m,"dMax is kept"); v_reach("end"); }
#define FAR(n,s,k) H(far_##n) { far(s,Screen::k,0); } H(dfar_##n) { far(s,Screen::k,1); }
FAR(cart_equ,0,equatorial_angles) FAR(sph_equ,1,equatorial_angles) FAR(cart_rec,0,rectilinear) FAR(sph_rec,1,rectilinear) FAR(cart_sph,0,spherical_angles) FAR(sph_sph,1,spherical_angles)
// observer with a local frame: unit energy, right direction in that frame
static void local(int ok,int kind) { double pos[4]; SymMetric*m=new SymMetric(GYOTO_COORDKIND_SPHERICAL,true); m->lorentz(); v_assume(m->c[0][0]<0); SmartPointer<Metric::Generic> g=m; m->mass(1./GYOTO_G_OVER_C_SQUARE); Screen s; s.metric(g); s.anglekind(kind);
  double P=v_real("paln"),I=v_real("incl"); s.setProjection(P,I,v_real("arg")); v_assume(I>0.05&&I<3.1&&sin(I)>0); double d=v_real("d"); v_assume(d>2&&d<1e6); s.distance(d*g->unitLength()); s.observerKind(ok==0?"ZAMO":ok==1?"VelocitySpecified":"FullySpecified"); s.getObserverPos(pos);
  double u[4]={1,0,0,0},e1[4],e2[4],e3[4]; 
  if(ok==1) { u[3]=v_real("u3"); v_assume(dot(*m,pos,u,u)<0); double w[4]={0.,0.,0.,u[3]}; s.setFourVel(u); }
  if(ok==2) { // any orthonormal frame in the t-phi / r-theta planes
    double gt=m->c[0][0]; u[0]=1/sqrt(-gt); for(int i=0;i<4;++i) e1[i]=e2[i]=e3[i]=0.; e3[1]=-1/sqrt(m->c[1][1]); e2[2]=-1/sqrt(m->c[2][2]); double k=m->c[3][3]-m->c[0][3]*m->c[0][3]/gt; v_assume(k>0); e1[3]=-1/sqrt(k); e1[0]=-m->c[0][3]/gt*e1[3]; s.setFourVel(u); s.setScreen1(e1); s.setScreen2(e2); s.setScreen3(e3); }
  double a=v_real("a1"),b=v_real("a2"); v_assume(a>-1.5&&a<1.5&&b>-1.5&&b<1.5&&cos(a)>0&&cos(b)>0); if(kind==Screen::rectilinear) v_assume(a*a+b*b>0.01);
  double c[8]; s.getRayTriad(a,b,c,false); double U[4],v1[4],v2[4],v3[4]; s.getFourVel(U); s.getScreen1(v1); s.getScreen2(v2); s.getScreen3(v3); m->observerTetrad(s.observerkind_,pos,U,v1,v2,v3);
  double n[3]; if (kind==Screen::equatorial_angles) { n[0]=sin(a)*cos(b); n[1]=sin(b); n[2]=cos(a)*cos(b); } else if (kind==Screen::spherical_angles) { n[0]=sin(a)*cos(b); n[1]=sin(a)*sin(b); n[2]=cos(a); } else { double w=1/sqrt(1+a*a+b*b); n[0]=a*w; n[1]=b*w; n[2]=w; }
  if (kind!=Screen::spherical_angles) { double o=M_PI-P, x=cos(o)*n[0]-sin(o)*n[1]; n[1]=sin(o)*n[0]+cos(o)*n[1]; n[0]=x; }
  for(int i=0;i<4;++i) { v_eq(c[i],pos[i],"rays reach the observer"); v_eq(c[4+i],U[i]-n[0]*v1[i]-n[1]*v2[i]-n[2]*v3[i],"the ray comes from the direction of the angles in the local frame"); }
  v_reach("end"); }
H(local_zamo) { local(0,Screen::equatorial_angles); } H(local_vel) { local(1,Screen::rectilinear); } H(local_full) { local(2,Screen::spherical_angles); } H(local_full_equ) { local(2,Screen::equatorial_angles); }
