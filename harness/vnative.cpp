// Native meaning of the harness intrinsics: values come from a counterexample file.
#include "v.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
static std::map<std::string, double> *vals;
static long live = 0;
static unsigned long rng = 88172645463325252UL;
static int nfail = 0;
void *operator new(size_t n) { ++live; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { ++live; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { if (p) --live; free(p); }
void operator delete[](void *p) noexcept { if (p) --live; free(p); }
void operator delete(void *p, size_t) noexcept { if (p) --live; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) --live; free(p); }
static double get(const std::string &n, double lo, double hi, bool isreal) {
  auto it = vals->find(n);
  if (it != vals->end()) return it->second;
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  double u = (rng >> 11) / 9007199254740992.0;
  return isreal ? 0.1 + 2.9 * u : lo + floor(u * (hi - lo + 1));
}
struct AssumeFail {};
extern "C" {
double v_real(const char *n) { return get(n, 0, 0, true); }
double v_real_i(const char *n, int i) { return get(std::string(n) + "_" + std::to_string(i), 0, 0, true); }
int v_int(const char *n, int lo, int hi) { return (int)get(n, lo, hi, false); }
size_t v_size(const char *n, size_t lo, size_t hi) { return (size_t)get(n, lo, hi, false); }
int v_choose(const char *n, int lo, int hi) { return (int)get(n, lo, hi, false); }
bool v_bool(const char *n) { return get(n, 0, 1, false) != 0; }
void v_assume(bool c) { if (!c) { printf("VASSUME\n"); fflush(stdout); _exit(nfail ? 1 : 77); } }
void v_assert(bool c, const char *l) { if (!c) { printf("VFAIL %s\n", l); ++nfail; fflush(stdout); } }
void v_eq(double a, double b, const char *l) {
  double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
  if (a == b || (a != a && b != b)) return;
  if (!(fabs(a - b) <= 1e-6 * m + 1e-8)) { printf("VFAIL %s\n  %.17g vs %.17g\n", l, a, b); ++nfail; fflush(stdout); }
}
void v_reach(const char *) {}
double v_deriv(double, double) { return NAN; }
bool v_symbolic() { return false; }
void v_opt(const char *, const char *) {}
int v_live() { return (int)live; }
double v_opaque(const char *n, const double *a, int k) {
  unsigned h = 2166136261u; for (const char *c = n; *c; ++c) h = (h ^ *c) * 16777619u;
  double s = 2.5 + (h % 1000) / 1000.;
  for (int i = 0; i < k; ++i) s += 0.7 * sin((1.3 + 0.37 * i + (h % 17) * 0.05) * a[i] + 0.2 * i) / (1 + i);
  return s;
}
double v_fresh(const char *n) { static std::map<std::string, int> c; return get(std::string(n) + "#" + std::to_string(c[n]++), 0, 0, true); }
void v_print(const char *n, double x) { printf("  %s = %.17g\n", n, x); }
}
int main(int argc, char **argv) {
  vals = new std::map<std::string, double>();
  if (argc > 2) {
    FILE *f = fopen(argv[2], "r"); char nm[256]; char v[256];
    while (f && fscanf(f, "%255s %255s", nm, v) == 2) (*vals)[nm] = strtod(v, nullptr);
    if (f) fclose(f);
  }
  if (argc > 3) { rng += 0x9E3779B97F4A7C15UL * strtoul(argv[3], 0, 10); for (int i = 0; i < 20; ++i) get("?", 0, 0, true); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 3; }
  try { fn(); } catch (...) { printf("VTHROW\n"); return nfail ? 1 : 78; }
  printf(nfail ? "VBAD\n" : "VOK\n");
  return nfail ? 1 : 0;
}
