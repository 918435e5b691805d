// requested quantities and the buffers that receive them
#include "symmetric.h"
#include "GyotoScreen.h"
#include "GyotoAstrobj.h"
#include "GyotoScenery.h"
#include "GyotoPhoton.h"
using Astrobj::Properties;
static const int NQ=17; static const char*nm[NQ]={"Intensity","EmissionTime","MinDistance","FirstDistMin","Redshift","NbCrossEqPlane","ImpactCoords","Spectrum","SpectrumStokesQ","SpectrumStokesU","SpectrumStokesV","BinSpectrum","User1","User2","User3","User4","User5"};
static const unsigned bit[NQ]={GYOTO_QUANTITY_INTENSITY,GYOTO_QUANTITY_EMISSIONTIME,GYOTO_QUANTITY_MIN_DISTANCE,GYOTO_QUANTITY_FIRST_DMIN,GYOTO_QUANTITY_REDSHIFT,GYOTO_QUANTITY_NBCROSSEQPLANE,GYOTO_QUANTITY_IMPACTCOORDS,GYOTO_QUANTITY_SPECTRUM,GYOTO_QUANTITY_SPECTRUM_STOKES_Q,GYOTO_QUANTITY_SPECTRUM_STOKES_U,GYOTO_QUANTITY_SPECTRUM_STOKES_V,GYOTO_QUANTITY_BINSPECTRUM,(unsigned)GYOTO_QUANTITY_USER1,GYOTO_QUANTITY_USER2,GYOTO_QUANTITY_USER3,GYOTO_QUANTITY_USER4,GYOTO_QUANTITY_USER5};
static double** slot(Properties&p,int k){ double** a[NQ]={&p.intensity,&p.time,&p.distance,&p.first_dmin,&p.redshift,&p.nbcrosseqplane,&p.impactcoords,&p.spectrum,&p.stokesQ,&p.stokesU,&p.stokesV,&p.binspectrum,&p.user1,&p.user2,&p.user3,&p.user4,&p.user5}; return a[k]; }
// every quantity has a bit of its own
H(bits) { for(int i=0;i<NQ;++i) { v_assert(bit[i]!=0&&(bit[i]&(bit[i]-1))==0,"one bit per quantity"); for(int j=0;j<i;++j) v_assert(bit[i]!=bit[j],"quantities are distinct"); } v_reach("end"); }
// a set of buffers reports exactly the quantities it can hold; moving it moves each buffer by its own stride
H(buffers) { Properties p; v_assert(Quantity_t(p)==0,"no buffer, no quantity"); double buf[NQ][80]; int q=v_choose("q",0,NQ-1), r=(q+(v_choose("r",0,1)?7:1))%NQ; *slot(p,q)=buf[q]+16; *slot(p,r)=buf[r]+16; v_assert(unsigned(Quantity_t(p))==(bit[q]|bit[r]),"buffers tell the quantities they hold");
  ++p; for(int k=0;k<NQ;++k) { double*e=(k==q||k==r)?buf[k]+16+(k==6?16:1):NULL; v_assert(*slot(p,k)==e,"next pixel"); } p+=-2; for(int k=0;k<NQ;++k) { double*e=(k==q||k==r)?buf[k]+16-(k==6?16:1):NULL; v_assert(*slot(p,k)==e,"moving by several pixels"); } v_reach("end"); }
// initial values, spectral channels are offset apart, nothing else is touched
H(initial) { Properties p; int q=v_choose("q",0,NQ-1); int c=v_choose("c",0,2); size_t n=c==0?0:c==1?3:2, off=c==1?1:3;  p.offset=off; double b[20]; for(int i=0;i<20;++i) b[i]=v_real_i("b",i); double o[20]; for(int i=0;i<20;++i) o[i]=b[i]; *slot(p,q)=b+1; p.first_dmin_found=1; p.init(n);
  for(int i=0;i<20;++i) { bool hit; double val; if (q==6) { hit=i>=1&&i<17; val=DBL_MAX; } else if (q>=7&&q<=11) { hit=i>=1&&(i-1)%off==0&&(i-1)/off<n; val=0.; } else { hit=i==1; val=(q>=1&&q<=3)?DBL_MAX:0.; }
    v_eq(b[i],hit?val:o[i],"initial values of the buffers"); } if(q==3) v_assert(p.first_dmin_found==0,"no minimum found yet"); v_reach("end"); }
// names and bits
H(quantity_names) { Scenery s; int i=v_choose("i",0,NQ-1), dj=v_choose("j",0,2), j=(i+(dj==0?0:dj==1?1:6))%NQ; std::string q(nm[i]); if(j!=i) { q+=v_choose("sep",0,1)?" ":"\n"; q+=nm[j]; } std::string keep(q); s.requestedQuantitiesString(q); v_assert(unsigned(s.getRequestedQuantities())==(bit[i]|bit[j]),"requested quantities by name"); v_assert(q==keep,"the request is left as it was");
  std::string r=s.requestedQuantitiesString(); Scenery t; t.requestedQuantitiesString(r); v_assert(t.getRequestedQuantities()==s.getRequestedQuantities(),"quantities round trip through their names");
  size_t sc=0,sp=0; for(int k=0;k<NQ;++k) if (k==i||k==j) { if(k>=7&&k<=11) ++sp; else if(k!=6) ++sc; } v_assert(s.getScalarQuantitiesCount()==sc&&s.getSpectralQuantitiesCount()==sp,"count of quantities"); Quantity_t all=s.getRequestedQuantities(); Scenery e; v_assert(e.getScalarQuantitiesCount(&all)==sc&&e.getSpectralQuantitiesCount(&all)==sp,"count of given quantities");
  bool pol=(i>=8&&i<=10)||(j>=8&&j<=10); v_assert(s.parallelTransport()==pol,"polarised quantities need parallel transport"); v_reach("end"); }
H(stokes) { Scenery s; s.requestedQuantitiesString("SpectrumStokes"); v_assert(s.getRequestedQuantities()==(GYOTO_QUANTITY_SPECTRUM_STOKES),"all Stokes parameters"); v_assert(s.parallelTransport(),"polarised quantities need parallel transport"); bool t=false; try { s.requestedQuantitiesString("Nothing"); } catch(Gyoto::Error const&) { t=true; } v_assert(t,"unknown quantities are refused"); v_reach("end"); }
// any subset: names round trip
H(subset) { Scenery s; unsigned m=0; int st=v_choose("start",0,16), len=v_choose("len",1,4); for(int k=0;k<len;++k) m|=bit[(st+3*k)%NQ]; s.quantities_=m; std::string r=s.requestedQuantitiesString(); Scenery t; t.requestedQuantitiesString(r); v_assert(unsigned(t.getRequestedQuantities())==m,"quantities round trip through their names"); v_reach("end"); }
