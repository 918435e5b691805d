// Model of the udunits2 library for the symbolic runs (native replays use the library itself): a unit is a positive
// factor (arbitrary, except for coherent SI units) times a product of base dimensions; conversion is linear, or through
// the inverse for reciprocal dimensions.
#include <cstring>
#include <cstdlib>
#include "v.h"
struct ut_unit { double k; int d[4]; };   // m s kg rad
struct cv_converter { double a; int inv; };
struct Entry { const char *n; int d[4]; int one; };
static const Entry tab[] = {
 {"m",{1,0,0,0},1},{"meter",{1,0,0,0},1},{"s",{0,1,0,0},1},{"second",{0,1,0,0},1},{"kg",{0,0,1,0},1},{"kilogram",{0,0,1,0},1},{"rad",{0,0,0,1},1},{"radian",{0,0,0,1},1},{"Hz",{0,-1,0,0},1},{"J",{2,-2,1,0},1},
 {"km",{1,0,0,0},0},{"kpc",{1,0,0,0},0},{"parsec",{1,0,0,0},0},{"light_year",{1,0,0,0},0},{"astronomical_unit",{1,0,0,0},0},{"yr",{0,1,0,0},0},{"min",{0,1,0,0},0},{"g",{0,0,1,0},0},{"GHz",{0,-1,0,0},0},{"eV",{2,-2,1,0},0},{"keV",{2,-2,1,0},0},{"degree",{0,0,0,1},0},{"arcsec",{0,0,0,1},0},
 {"W.m-2.Hz-1",{0,-2,1,0},1},{"J.m-2.s-1.sr-1.Hz-1",{0,-2,1,0},1},{"J.m-2.s-1.sr-1",{0,-3,1,0},1},{0,{0,0,0,0},0} };
struct Map { char n[48]; ut_unit u; Map*next; };
static Map *maps=0;
static ut_unit* mk(double k,const int*d){ ut_unit*u=(ut_unit*)malloc(sizeof(ut_unit)); u->k=k; for(int i=0;i<4;++i) u->d[i]=d[i]; return u; }
static double factor(const char*n){ char b[40]="unit_"; strcpy(b+5,n); double x=v_real(b); v_assume(x>0); return x; }
extern "C" {
int ut_ignore(const char*, void*) { return 0; }
void* ut_set_error_message_handler(void*) { return 0; }
void* ut_read_xml(const char*) { return malloc(1); }
ut_unit* ut_parse(const void*,const char*s,int) { for(Map*m=maps;m;m=m->next) if(!strcmp(m->n,s)) return mk(m->u.k,m->u.d); for(const Entry*e=tab;e->n;++e) if(!strcmp(e->n,s)) return mk(e->one?1.:factor(e->n),e->d); return 0; }
ut_unit* ut_get_unit_by_name(const void*s,const char*n) { return ut_parse(s,n,0); }
ut_unit* ut_get_unit_by_symbol(const void*s,const char*n) { return ut_parse(s,n,0); }
void ut_free(ut_unit*u) { free(u); }
ut_unit* ut_scale(double f,const ut_unit*u) { return mk(f*u->k,u->d); }
int ut_map_symbol_to_unit(const char*n,int,const ut_unit*u) { for(Map*m=maps;m;m=m->next) if(!strcmp(m->n,n)) return 3; Map*m=(Map*)malloc(sizeof(Map)); strcpy(m->n,n); m->u=*u; m->next=maps; maps=m; return 0; }
int ut_map_name_to_unit(const char*n,int e,const ut_unit*u) { return ut_map_symbol_to_unit(n,e,u); }
int ut_unmap_name_to_unit(void*,const char*n,int) { for(Map**m=&maps;*m;m=&(*m)->next) if(!strcmp((*m)->n,n)) { Map*x=*m; *m=x->next; free(x); return 0; } return 0; }
int ut_unmap_symbol_to_unit(void*s,const char*n,int e) { return ut_unmap_name_to_unit(s,n,e); }
int ut_are_convertible(const ut_unit*a,const ut_unit*b) { int eq=1,inv=1; for(int i=0;i<4;++i){ if(a->d[i]!=b->d[i]) eq=0; if(a->d[i]!=-b->d[i]) inv=0; } return eq||inv; }
cv_converter* ut_get_converter(ut_unit*a,ut_unit*b) { int eq=1; for(int i=0;i<4;++i) if(a->d[i]!=b->d[i]) eq=0; cv_converter*c=(cv_converter*)malloc(sizeof(cv_converter)); c->inv=!eq; c->a=eq?a->k/b->k:1./(a->k*b->k); return c; }
cv_converter* cv_get_trivial() { cv_converter*c=(cv_converter*)malloc(sizeof(cv_converter)); c->a=1.; c->inv=0; return c; }
void cv_free(cv_converter*c) { free(c); }
double cv_convert_double(const cv_converter*c,double x) { return c->inv?c->a/x:c->a*x; }
}
