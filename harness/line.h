// A worldline whose integrator is replaced by an environment that returns arbitrary states.
#ifndef V_LINE_H
#define V_LINE_H
#include "metrics.h"
#include "GyotoWorldline.h"
#include "GyotoScreen.h"
struct Line : public Worldline {
  double m;
  Line(double mass) : m(mass) {}
  Line(const Line&o) : Worldline(o), m(o.m) {}
  Line(Line*o,size_t i,int d,double s) : Worldline(o,i,d,s), m(o->m) {}
  double getMass() const { return m; }
  // small arrays so that every reallocation case is within the bounds
  void small(size_t n) { delete[] tau_; delete[] x0_; delete[] x1_; delete[] x2_; delete[] x3_; delete[] x0dot_; delete[] x1dot_; delete[] x2dot_; delete[] x3dot_; eDeallocate(); xAllocate(n); }
};
// integrator returning fresh states, remembering them; time moves in the direction asked for
struct Env : public Worldline::IntegState::Generic {
  std::vector<state_t> out; std::vector<double> tau; int sz; int stopat; double last; 
  Env(Worldline*l,int s) : Worldline::IntegState::Generic(l), sz(s), stopat(-1), last(0) {}
  Env*clone(Worldline*l) const { Env*e=new Env(l,sz); return e; }
  using Worldline::IntegState::Generic::init;
  void init() { Worldline::IntegState::Generic::init(); }
  void init(Worldline*l,const state_t&c,const double d) { line_=l; init(); delta_=d; last=c[0]; }
  std::string kind() { return "Env"; }
  int nextStep(state_t&c,double&t,double) {
    int n=out.size(); state_t s(sz);
    for(int i=0;i<sz;++i) s[i]=v_real_i("s",100*n+i);
    if (delta_>0) v_assume(s[0]>last); else v_assume(s[0]<last);
    last=s[0]; double tt=v_real_i("tau",n); out.push_back(s); tau.push_back(tt); c=s; t=tt;
    return n==stopat; }
  // refinement step: an arbitrary (but functional) result
  void doStep(state_t const&in,double step,state_t&o) { o=in; double a[18]; for(int i=0;i<sz;++i) a[i]=in[i]; a[sz]=step; const char*nm[16]={"D0","D1","D2","D3","D4","D5","D6","D7","D8","D9","Da","Db","Dc","Dd","De","Df"}; for(int i=0;i<sz;++i) o[i]=v_opaque(nm[i],a,sz+1); }
};
static inline void mkcoord(const char*n,double*c,int k=8){ for(int i=0;i<k;++i) c[i]=v_real_i(n,i); }
#endif
