// Records what the code does with transform plans, transform configurations
// and FFTW's memory: every call of FFTW and SHTns that makes, uses or releases
// one goes through here (linker option --wrap).  One JSON object per line.
// A destroyed plan is kept, so that its address never means another plan and
// using it afterwards does nothing worse than being recorded.
// Built with AddressSanitizer, which knows how far an array reaches: FFTW
// itself is not instrumented.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <fftw3.h>
#include <shtns.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif

namespace {
std::recursive_mutex *mu;
FILE *out;
long next_id = 1;
struct Plan { long id; size_t nin, nout; double *in, *o; };
std::map<const void *, Plan> *plans;      // also the destroyed ones
std::map<const void *, long> *cfgs, *bufs;
struct Lock { Lock(); ~Lock() { mu->unlock(); } };
void open_log()
{
   mu = new std::recursive_mutex;
   plans = new std::map<const void *, Plan>;
   cfgs = new std::map<const void *, long>;
   bufs = new std::map<const void *, long>;
   const char *f = std::getenv("LIFE_LOG");
   out = f ? std::fopen(f, "w") : nullptr;
}
Lock::Lock()
{
   static bool once = (open_log(), true);
   (void)once;
   mu->lock();
}
void say(const std::string &s) { if (out) { std::fputs(s.c_str(), out); std::fputc('\n', out); std::fflush(out); } }
std::string num(const char *k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
// how many of n doubles from p on may be touched
long room(const void *p, size_t n)
{
   if (!p) return 0;
#if defined(__SANITIZE_ADDRESS__)
   char *bad = (char *)__asan_region_is_poisoned(const_cast<void *>(p), n * sizeof(double));
   return bad ? (bad - (const char *)p) / long(sizeof(double)) : long(n);
#else
   return n;
#endif
}
long align16(const void *p) { return (uintptr_t)p % 16; }
long fal(const void *p) { return fftw_alignment_of((double *)p); }
fftw_plan made(fftw_plan p, const char *what, size_t nin, size_t nout, double *a, double *b, unsigned flags)
{
   Lock l;
   const long id = next_id++;
   if (p) (*plans)[p] = {id, nin, nout, a, b};
   say("{\"e\":\"plan\"" + num("id", p ? id : 0) + ",\"what\":\"" + what + "\"" + num("nin", nin) + num("nout", nout) + num("ain", fal(a)) + num("aout", fal(b))
       + num("any", (flags & FFTW_UNALIGNED) != 0) + num("inplace", a == b) + num("hin", room(a, nin)) + num("hout", room(b, nout)) + "}");
   return p;
}
bool uses(fftw_plan p, double *a, double *b, bool own = false)
{
   Lock l;
   auto it = plans->find(p);
   if (it == plans->end()) { say("{\"e\":\"run\",\"id\":0,\"ain\":0,\"aout\":0,\"inplace\":0,\"hin\":0,\"hout\":0}"); return false; }
   if (own) { a = it->second.in; b = it->second.o; }
   const long hi = room(a, it->second.nin), ho = room(b, it->second.nout);
   say("{\"e\":\"run\"" + num("id", it->second.id) + num("ain", fal(a)) + num("aout", fal(b)) + num("inplace", a == b) + num("hin", hi) + num("hout", ho) + "}");
   return hi >= long(it->second.nin) && ho >= long(it->second.nout);
}
}
extern "C" {
// from the driver: an event of its own has been recorded
void life_event(const char *kind, const char *brief)
{
   Lock l;
   if (!std::strcmp(kind, "#trace")) say("#trace");
   else say(std::string("{\"e\":\"mark\",\"k\":\"") + kind + "\",\"o\":\"" + brief + "\"}");
}
fftw_plan __real_fftw_plan_r2r_1d(int, double *, double *, fftw_r2r_kind, unsigned);
fftw_plan __wrap_fftw_plan_r2r_1d(int n, double *a, double *b, fftw_r2r_kind k, unsigned f)
{ Lock l; fftw_plan p = __real_fftw_plan_r2r_1d(n, a, b, k, f); return made(p, "r2r", n, n, a, b, f); }
fftw_plan __real_fftw_plan_r2r(int, const int *, double *, double *, const fftw_r2r_kind *, unsigned);
fftw_plan __wrap_fftw_plan_r2r(int rank, const int *n, double *a, double *b, const fftw_r2r_kind *k, unsigned f)
{ Lock l; size_t m = 1; for (int i = 0; i < rank; i++) m *= n[i]; fftw_plan p = __real_fftw_plan_r2r(rank, n, a, b, k, f); return made(p, "r2r", m, m, a, b, f); }
fftw_plan __real_fftw_plan_dft_r2c_1d(int, double *, fftw_complex *, unsigned);
fftw_plan __wrap_fftw_plan_dft_r2c_1d(int n, double *a, fftw_complex *b, unsigned f)
{ Lock l; fftw_plan p = __real_fftw_plan_dft_r2c_1d(n, a, b, f); return made(p, "r2c", n, 2 * (n / 2 + 1), a, (double *)b, f); }
fftw_plan __real_fftw_plan_dft_c2r_1d(int, fftw_complex *, double *, unsigned);
fftw_plan __wrap_fftw_plan_dft_c2r_1d(int n, fftw_complex *a, double *b, unsigned f)
{ Lock l; fftw_plan p = __real_fftw_plan_dft_c2r_1d(n, a, b, f); return made(p, "c2r", 2 * (n / 2 + 1), n, (double *)a, b, f); }
fftw_plan __real_fftw_plan_dft_1d(int, fftw_complex *, fftw_complex *, int, unsigned);
fftw_plan __wrap_fftw_plan_dft_1d(int n, fftw_complex *a, fftw_complex *b, int s, unsigned f)
{ Lock l; fftw_plan p = __real_fftw_plan_dft_1d(n, a, b, s, f); return made(p, "dft", 2 * n, 2 * n, (double *)a, (double *)b, f); }
void __wrap_fftw_destroy_plan(fftw_plan p)
{
   Lock l;
   auto it = plans->find(p);
   say("{\"e\":\"unplan\"" + num("id", it == plans->end() ? 0 : it->second.id) + "}");
}
void __real_fftw_execute_r2r(fftw_plan, double *, double *);
void __wrap_fftw_execute_r2r(fftw_plan p, double *a, double *b) { if (uses(p, a, b)) __real_fftw_execute_r2r(p, a, b); }
void __real_fftw_execute_dft_r2c(fftw_plan, double *, fftw_complex *);
void __wrap_fftw_execute_dft_r2c(fftw_plan p, double *a, fftw_complex *b) { if (uses(p, a, (double *)b)) __real_fftw_execute_dft_r2c(p, a, b); }
void __real_fftw_execute_dft_c2r(fftw_plan, fftw_complex *, double *);
void __wrap_fftw_execute_dft_c2r(fftw_plan p, fftw_complex *a, double *b) { if (uses(p, (double *)a, b)) __real_fftw_execute_dft_c2r(p, a, b); }
void __real_fftw_execute_dft(fftw_plan, fftw_complex *, fftw_complex *);
void __wrap_fftw_execute_dft(fftw_plan p, fftw_complex *a, fftw_complex *b) { if (uses(p, (double *)a, (double *)b)) __real_fftw_execute_dft(p, a, b); }
void __real_fftw_execute(fftw_plan);
void __wrap_fftw_execute(fftw_plan p) { if (uses(p, nullptr, nullptr, true)) __real_fftw_execute(p); }
// undefines every plan there is: recorded, not done
void __wrap_fftw_cleanup(void) { Lock l; say("{\"e\":\"cleanup\"}"); }
void __wrap_fftw_cleanup_threads(void) { Lock l; say("{\"e\":\"cleanup\"}"); }

static void *born(void *p, size_t n)
{
   Lock l;
   const long id = next_id++;
   (*bufs)[p] = id;
   say("{\"e\":\"alloc\"" + num("id", id) + num("n", n / sizeof(double)) + "}");
   return p;
}
void *__real_fftw_malloc(size_t);
void *__wrap_fftw_malloc(size_t n) { return born(__real_fftw_malloc(n), n); }
double *__wrap_fftw_alloc_real(size_t n) { return (double *)__wrap_fftw_malloc(n * sizeof(double)); }
fftw_complex *__wrap_fftw_alloc_complex(size_t n) { return (fftw_complex *)__wrap_fftw_malloc(n * sizeof(fftw_complex)); }
void __real_fftw_free(void *);
void __wrap_fftw_free(void *p)
{
   Lock l;
   if (!p) return;
   auto it = bufs->find(p);
   say("{\"e\":\"free\"" + num("id", it == bufs->end() ? 0 : it->second) + "}");
   if (it == bufs->end()) return;
   bufs->erase(it);
   __real_fftw_free(p);
}
// ---- SHTns
static long cfg_id(const void *c) { auto it = cfgs->find(c); return it == cfgs->end() ? 0 : it->second; }
shtns_cfg __real_shtns_create(int, int, int, enum shtns_norm);
shtns_cfg __wrap_shtns_create(int l, int m, int r, enum shtns_norm n)
{
   Lock k;
   shtns_cfg c = __real_shtns_create(l, m, r, n);
   const long id = next_id++;
   (*cfgs)[c] = id;
   say("{\"e\":\"cfg\"" + num("id", id) + num("nl", l) + num("nm", m) + "}");
   return c;
}
int __real_shtns_set_grid(shtns_cfg, enum shtns_type, double, int, int);
int __wrap_shtns_set_grid(shtns_cfg c, enum shtns_type t, double eps, int a, int b)
{
   Lock k;
   say("{\"e\":\"mesh\"" + num("id", cfg_id(c)) + num("nlat", a) + num("nphi", b) + "}");
   return cfg_id(c) ? __real_shtns_set_grid(c, t, eps, a, b) : 0;
}
void __real_shtns_destroy(shtns_cfg);
void __wrap_shtns_destroy(shtns_cfg c)
{
   Lock k;
   const long id = cfg_id(c);
   say("{\"e\":\"uncfg\"" + num("id", id) + "}");
   if (!id) return;
   cfgs->erase(c);
   __real_shtns_destroy(c);
}
void __wrap_shtns_reset(void) { Lock k; say("{\"e\":\"cleanup\"}"); }
static bool sht(const char *what, shtns_cfg c, const void *spat, const void *spec, size_t nspat, size_t nspec)
{
   Lock k;
   const long id = cfg_id(c);
   long hs = 0, hq = 0;
   if (id) { hs = room(spat, nspat); hq = room(spec, nspec); }
   say("{\"e\":\"sht\"" + num("id", id) + ",\"what\":\"" + what + "\"" + num("nspat", nspat) + num("nspec", nspec) + num("hspat", hs) + num("hspec", hq) + num("aspat", align16(spat)) + num("aspec", align16(spec)) + "}");
   return id && hs >= long(nspat) && hq >= long(nspec);
}
#define NR(c) (cfg_id(c) ? size_t(NSPAT_ALLOC(c)) : 0), (cfg_id(c) ? 2 * size_t((c)->nlm) : 0)
#define NC(c) (cfg_id(c) ? 2 * size_t(NSPAT_ALLOC(c)) : 0), (cfg_id(c) ? 2 * size_t((c)->lmax + 1) * ((c)->lmax + 1) : 0)
void __real_spat_to_SH(shtns_cfg, double *, cplx *);
void __wrap_spat_to_SH(shtns_cfg c, double *v, cplx *q) { if (sht("analysis", c, v, q, NR(c))) __real_spat_to_SH(c, v, q); }
void __real_SH_to_spat(shtns_cfg, cplx *, double *);
void __wrap_SH_to_spat(shtns_cfg c, cplx *q, double *v) { if (sht("synthesis", c, v, q, NR(c))) __real_SH_to_spat(c, q, v); }
void __real_spat_to_SH_l(shtns_cfg, double *, cplx *, int);
void __wrap_spat_to_SH_l(shtns_cfg c, double *v, cplx *q, int k) { if (sht("analysis", c, v, q, NR(c))) __real_spat_to_SH_l(c, v, q, k); }
void __real_SH_to_spat_l(shtns_cfg, cplx *, double *, int);
void __wrap_SH_to_spat_l(shtns_cfg c, cplx *q, double *v, int k) { if (sht("synthesis", c, v, q, NR(c))) __real_SH_to_spat_l(c, q, v, k); }
void __real_spat_cplx_to_SH(shtns_cfg, cplx *, cplx *);
void __wrap_spat_cplx_to_SH(shtns_cfg c, cplx *v, cplx *q) { if (sht("complex analysis", c, v, q, NC(c))) __real_spat_cplx_to_SH(c, v, q); }
void __real_SH_to_spat_cplx(shtns_cfg, cplx *, cplx *);
void __wrap_SH_to_spat_cplx(shtns_cfg c, cplx *q, cplx *v) { if (sht("complex synthesis", c, v, q, NC(c))) __real_SH_to_spat_cplx(c, q, v); }
}
// registered first, so it runs after every object of the program is gone
static void finish() { Lock l; say("{\"e\":\"end\"}"); }
__attribute__((constructor(101))) static void early() { { Lock l; } std::atexit(finish); }
