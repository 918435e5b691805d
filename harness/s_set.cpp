// camera: pixel sets, mask, names and copies
#include "symmetric.h"
#include "GyotoScreen.h"
#include "GyotoSpectrometer.h"
#include "GyotoUniformSpectrometer.h"
typedef Screen S;
// every pixel of a grid exactly once, in order
H(set_grid) { size_t a=1,b=v_choose("ni",0,2),d=v_choose("di",1,2),e=2,f=v_choose("nj",0,2),h=v_choose("dj",1,2);
  S::Range I(a,a+b,d),J(e,e+f,h); S::Grid G(I,J); size_t ni=b/d+1,nj=f/h+1; v_assert(I.size()==ni&&J.size()==nj,"length of a range"); v_assert(G.size()==ni*nj,"size of a grid");
  for(int rep=0;rep<2;++rep) { size_t n=0; for(G.begin();G.valid();++G) { v_assert(n<ni*nj,"a grid ends"); GYOTO_ARRAY<size_t,2> ij=*G; v_assert(ij[0]==a+d*(n%ni),"pixels are visited row by row"); v_assert(ij[1]==e+h*(n/ni),"pixels are visited row by row"); v_assert(I.index()==n%ni&&J.index()==n/ni,"index in a range"); ++n; } v_assert(n==ni*nj,"every pixel is visited once"); ++G; v_assert(!G.valid(),"a finished grid stays finished"); }
  v_reach("end"); }
// ranges with symbolic bounds
H(set_range) { size_t a=v_size("a",1,1000),b=v_size("b",1,1000),d=v_size("d",1,1000); v_assume(a<=b); v_assume(b<=a+3*d); S::Range R(a,b,d); size_t n=0; for(R.begin();R.valid();++R) { v_assert(*R==a+n*d,"pixels of a range"); v_assert(*R<=b,"range stays inside"); v_assert(R.index()==n,"index in a range"); ++n; } v_assert(n==R.size(),"size of a range"); v_assert(a+n*d>b,"range is complete"); v_reach("end"); }
H(set_indices) { size_t b[3]; for(int i=0;i<3;++i) b[i]=v_size(i==0?"b0":i==1?"b1":"b2",1,100000); size_t n=v_choose("n",1,3); S::Indices I(b,n); size_t keep[3]={b[0],b[1],b[2]}; b[0]=b[1]=b[2]=0; v_assert(I.size()==n,"size of an index list"); for(int rep=0;rep<2;++rep){ size_t k=0; for(I.begin();I.valid();++I) { v_assert(k<n,"ends"); v_assert(*I==keep[k]&&I.index()==k,"indices are copied in order"); ++k; } v_assert(k==n,"every index is visited once"); } v_reach("end"); }
H(set_angles) { double b[3]={v_real("a0"),v_real("a1"),v_real("a2")},keep[3]={b[0],b[1],b[2]}; size_t n=v_choose("n",1,3); double r=v_real("r"); S::Angles A(b,n); b[0]=b[1]=b[2]=0.; S::RepeatAngle R(r,n); S::Bucket B(A,R); v_assert(B.size()==n&&B.kind==S::angle,"size of an angle list"); size_t k=0; for(B.begin();B.valid();++B) { v_assert(k<n,"ends"); GYOTO_ARRAY<double,2> q=B.angles(); v_eq(q[0],keep[k],"angles are copied in order"); v_eq(q[1],r,"repeated angle"); v_assert(A.index()==k&&R.index()==k,"index"); ++k; } v_assert(k==n,"every angle is visited once");
  bool t=false; try { *B; } catch(Gyoto::Error const&) { t=true; } v_assert(t,"angles are not pixels"); v_reach("end"); }
H(set_bucket) { size_t b[3]={v_size("b0",1,99),v_size("b1",1,99),v_size("b2",1,99)}, c[3]={v_size("c0",1,99),v_size("c1",1,99),v_size("c2",1,99)}; size_t n=v_choose("n",1,3),m=v_choose("m",1,3); S::Indices I(b,n),J(c,m); bool t=false; try { S::Bucket B(I,J); size_t k=0; for(B.begin();B.valid();++B){ GYOTO_ARRAY<size_t,2> q=*B; v_assert(q[0]==b[k]&&q[1]==c[k],"pairs in order"); ++k; } v_assert(k==n&&B.size()==n,"every pair once"); } catch(Gyoto::Error const&) { t=true; } v_assert(t==(n!=m),"lists of different lengths are refused"); v_reach("end"); }
H(set_kinds) { size_t b[1]={1}; double x[1]={v_real("x")}; S::Indices I(b,1); S::Angles A(x,1); bool t=false; try { S::Bucket B(I,A); } catch(Gyoto::Error const&) { t=true; } v_assert(t,"pixels and angles do not mix"); t=false; try { I.angle(); } catch(Gyoto::Error const&) { t=true; } v_assert(t,"pixels are not angles"); t=false; try { *A; } catch(Gyoto::Error const&) { t=true; } v_assert(t,"angles are not pixels"); S::Empty E; E.begin(); ++E; v_assert(!E.valid()&&E.size()==0,"the empty set is empty"); v_reach("end"); }
// mask
H(mask) { S s; size_t n=v_choose("n",1,3); double m[9]; for(size_t i=0;i<n*n;++i) m[i]=v_real_i("m",i); s.mask(m,n); v_assert(s.resolution()==n,"a mask sets the resolution"); double k[9]; for(size_t i=0;i<n*n;++i) {k[i]=m[i]; m[i]=1.;}
  for(size_t i=1;i<=n;++i) for(size_t j=1;j<=n;++j) v_assert(s(i,j)==(k[i-1+n*(j-1)]!=0.),"a pixel is on when its mask value is not zero");
  size_t i=v_size("i",0,5),j=v_size("j",0,5); bool t=false; try { s(i,j); } catch(Gyoto::Error const&) { t=true; } v_assert(t==(i==0||j==0||i>n||j>n),"pixels outside the screen are refused"); 
  S c(s); for(size_t q=0;q<n*n;++q) { v_eq(c.mask()[q],k[q],"copies keep the mask"); } v_assert(c.mask()!=s.mask(),"copies own their mask");
  s.resolution(n); v_assert(s.mask()!=NULL,"same resolution keeps the mask"); s.resolution(n+1); v_assert(s.mask()==NULL&&s(n+1,n+1),"a new resolution drops the mask"); v_assert(s.resolution()==n+1,"resolution"); c.mask(NULL); v_assert(c.mask()==NULL&&c.resolution()==n,"mask removed"); v_reach("end"); }
H(mask_name) { S s; s.resolution(2); double m[4]={1.,1.,0.,1.}; s.mask(m); s.mask_filename_="m.fits"; s.resolution(3); v_assert(s.maskFile()=="","a dropped mask is not written out"); v_reach("end"); }
// names
H(names) { S s; const char*k[5]={"ObserverAtInfinity","KeplerianObserver","ZAMO","VelocitySpecified","FullySpecified"}; for(int i=0;i<5;++i){ s.observerKind(k[i]); v_assert(s.observerKind()==k[i],"observer kind round trip"); } const char*a[3]={"EquatorialAngles","SphericalAngles","Rectilinear"}; int id[3]={S::equatorial_angles,S::spherical_angles,S::rectilinear}; for(int i=0;i<3;++i){ s.anglekind(a[i]); v_assert(s.anglekind()==a[i],"angle kind round trip"); s.anglekind(id[(i+1)%3]); s.anglekind(id[i]); v_assert(s.anglekind()==a[i],"angle kind by number"); }
  bool t=false; try { s.observerKind("Nobody"); } catch(Gyoto::Error const&) { t=true; } v_assert(t&&s.observerKind()==k[4],"unknown observers are refused"); t=false; try { s.anglekind("None"); } catch(Gyoto::Error const&) { t=true; } v_assert(t&&s.anglekind()==a[2],"unknown angles are refused"); v_reach("end"); }
// copies
H(copy) { S s; Metric::Minkowski*m=new Metric::Minkowski(); double u=v_real("u"); v_assume(u>0.01); m->mass(u/GYOTO_G_OVER_C_SQUARE); SmartPointer<Metric::Generic> g=m; s.metric(g); double v[16]; for(int i=0;i<16;++i) v[i]=v_real_i("v",i);
  s.time(v_real("t")); s.fieldOfView(v_real("f")); s.azimuthalFieldOfView(v_real("z")); s.resolution(v_size("n",1,1000)); s.distance(v_real("d")); s.dMax(v_real("dm")); s.setProjection(v_real("p"),v_real("i"),v_real("a")); s.dangle1(v_real("d1")); s.dangle2(v_real("d2")); s.freqObs(v_real("fr")); s.anglekind(v_choose("ak",0,1)?"Rectilinear":"SphericalAngles"); s.observerKind(v_choose("ok",0,1)?"ZAMO":"FullySpecified");
  s.setFourVel(v); s.setScreen1(v+4); s.setScreen2(v+8); s.setScreen3(v+12); SmartPointer<Spectrometer::Uniform> sp=new Spectrometer::Uniform(); s.spectrometer(sp); 
  S*c=s.clone(); v_eq(c->time(),s.time(),"copy"); v_eq(c->fieldOfView(),s.fieldOfView(),"copy"); v_eq(c->azimuthalFieldOfView(),s.azimuthalFieldOfView(),"copy"); v_assert(c->resolution()==s.resolution(),"copy"); v_eq(c->distance(),s.distance(),"copy"); v_eq(c->dMax(),s.dMax(),"copy"); v_eq(c->PALN(),s.PALN(),"copy"); v_eq(c->inclination(),s.inclination(),"copy"); v_eq(c->argument(),s.argument(),"copy"); v_eq(c->dangle1(),s.dangle1(),"copy"); v_eq(c->dangle2(),s.dangle2(),"copy"); v_eq(c->freqObs(),s.freqObs(),"copy"); v_assert(c->anglekind()==s.anglekind()&&c->observerKind()==s.observerKind(),"copy of kinds");
  double w[4]; void (S::*get[4])(double*) const={&S::getFourVel,&S::getScreen1,&S::getScreen2,&S::getScreen3}; for(int k=0;k<4;++k){ (c->*get[k])(w); for(int i=0;i<4;++i) v_eq(w[i],v[4*k+i],"copy of frame"); }
  for(int i=0;i<3;++i){ v_eq(c->ex_[i],s.ex_[i],"copy of axes"); v_eq(c->ey_[i],s.ey_[i],"copy of axes"); v_eq(c->ez_[i],s.ez_[i],"copy of axes"); }
  v_assert(c->metric()!=s.metric()&&c->spectrometer()!=s.spectrometer(),"copies own their metric and spectrometer"); v_eq(c->metric()->mass(),s.metric()->mass(),"copy of metric"); delete c; v_reach("end"); }
// frame setters refuse wrong sizes
H(frame_sizes) { S s; int n=v_choose("n",3,5); std::vector<double> v(n); for(int i=0;i<n;++i) v[i]=v_real_i("v",i); int w=v_choose("w",0,3); bool t=false; try { if(w==0) s.fourVel(v); else if(w==1) s.screenVector1(v); else if(w==2) s.screenVector2(v); else s.screenVector3(v); } catch(Gyoto::Error const&) {t=true;} v_assert(t==(n!=4),"frame vectors have four components"); if(!t){ std::vector<double> r[4]={s.fourVel(),s.screenVector1(),s.screenVector2(),s.screenVector3()}; for(int k=0;k<4;++k) for(int i=0;i<4;++i) v_eq(r[k][i],k==w?v[i]:0.,"frame vector round trip"); } v_reach("end"); }
