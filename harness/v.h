// Harness intrinsics. In symbolic runs the executor gives them meaning; in native
// (replay) builds vnative.cpp reads the counterexample's values.
#ifndef V_H
#define V_H
#include <cstddef>
extern "C" {
double v_real(const char *name);
double v_real_i(const char *name, int i);
int v_int(const char *name, int lo, int hi);          // symbolic
size_t v_size(const char *name, size_t lo, size_t hi);  // symbolic
int v_choose(const char *name, int lo, int hi);       // enumerated (stated bound)
bool v_bool(const char *name);
void v_assume(bool);
void v_assert(bool, const char *label);
void v_eq(double a, double b, const char *label);     // exact real equality
void v_reach(const char *label);                      // vacuity witness
double v_deriv(double expr, double var);              // symbolic only
bool v_symbolic();
void v_opt(const char *k, const char *v);
int v_live();
double v_opaque(const char *name, const double *args, int n); // uninterpreted function
double v_fresh(const char *name);
void v_print(const char*, double);
}
// derivative of n outputs of f(pos,out) w.r.t. pos[a]
template <class F> void v_grad(F f, double *pos, int a, double *out, int n) {
  if (v_symbolic()) {
    f(pos, out);
    for (int i = 0; i < n; ++i) out[i] = v_deriv(out[i], pos[a]);
  } else {
    double x = pos[a], h = 1e-3 * (x > 1 || x < -1 ? (x > 0 ? x : -x) : 1.);
    if (h > 1e-2) h = 1e-2;
    double *w = new double[4 * n];
    const double s[4] = {-2, -1, 1, 2}, c[4] = {1. / 12, -8. / 12, 8. / 12, -1. / 12};
    for (int k = 0; k < 4; ++k) { pos[a] = x + s[k] * h; f(pos, w + k * n); }
    pos[a] = x;
    for (int i = 0; i < n; ++i) {
      out[i] = 0;
      for (int k = 0; k < 4; ++k) out[i] += c[k] * w[k * n + i] / h;
    }
    delete[] w;
  }
}
#define H(name) extern "C" { __attribute__((used)) char vx_entry_##name = 1; } extern "C" void name()
// thorough tier only
#define HT(name) extern "C" { __attribute__((used)) char vx_tentry_##name = 1; } extern "C" void name()
#endif
