/* See shtns.h: a slow stand-in for the SHTns calls the repository makes. */
#include "shtns.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <mutex>
#include <string>
#include <vector>
#include <csignal>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

typedef long double ld;
static const ld PI_L = 3.14159265358979323846264338327950288L;

static void die(const char *what)
{
   std::fprintf(stderr, "SHTNS-STANDIN: %s\n", what);
   std::abort();
}

/* Every transform counts as a moment of the run.  With SHTNS_STANDIN_WATCH=dir
   the files in dir (name and size) are recorded in SHTNS_STANDIN_SEEN whenever
   they have changed since the moment before; with SHTNS_STANDIN_KILL=n the
   process is killed at moment n. */
static std::mutex mu;
static long moments = 0;
static std::string files_in(const char *d)
{
   std::vector<std::string> fs;
   if (DIR *h = opendir(d)) {
      while (dirent *e = readdir(h)) {
         struct stat s;
         const std::string p = std::string(d) + "/" + e->d_name;
         if (!stat(p.c_str(), &s) && S_ISREG(s.st_mode)) fs.push_back("[\"" + std::string(e->d_name) + "\"," + std::to_string((long)s.st_size) + "]");
      }
      closedir(h);
   }
   std::sort(fs.begin(), fs.end());
   std::string o;
   for (auto &f : fs) o += (o.empty() ? "" : ",") + f;
   return o;
}
static void seen(const char *d, const char *e)
{
   static std::string last;
   const std::string now = files_in(d);
   if (now == last && e[0] != 'e') return;
   last = now;
   if (const char *f = std::getenv("SHTNS_STANDIN_SEEN")) if (std::FILE *h = std::fopen(f, "a")) {
      std::fprintf(h, "{\"e\":\"%s\",\"at\":%ld,\"files\":[%s]}\n", e, moments, now.c_str());
      std::fclose(h);
   }
}
static void at_end() { std::lock_guard<std::mutex> l(mu); seen(std::getenv("SHTNS_STANDIN_WATCH"), "end"); }
static void moment()
{
   static const char *watch = std::getenv("SHTNS_STANDIN_WATCH"), *kill_at = std::getenv("SHTNS_STANDIN_KILL");
   if (!watch && !kill_at) return;
   std::lock_guard<std::mutex> l(mu);
   moments++;
   if (watch) {
      if (moments == 1) std::atexit(at_end);
      seen(watch, "disk");
   }
   if (kill_at && moments >= std::atol(kill_at)) { ::kill(getpid(), SIGKILL); for (;;) pause(); }
}

extern "C" {
void shtns_verbose(int) {}
int shtns_use_threads(int n) { return n<1 ? 1 : n; }
long nlm_calc(long lmax, long mmax, long mres)
{
   if (mmax*mres>lmax) mmax = lmax/mres;
   return (mmax+1)*(lmax+1) - mres*(mmax*(mmax+1))/2;
}
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm)
{
   if (lmax<1)         die("lmax must be >= 1");
   if (mmax<0)         die("mmax must be >= 0");
   if (mres!=1)        die("only mres=1 is supported");
   if (mmax>lmax)      die("mmax must be <= lmax");
   shtns_cfg s = (shtns_cfg) std::calloc(1, sizeof(struct shtns_info));
   s->lmax = lmax; s->mmax = mmax; s->mres = mres;
   s->norm_ = norm & 3;
   s->nlm = nlm_calc(lmax, mmax, mres);
   s->nlm_cplx = (lmax+1)*(lmax+1);
   s->li = (unsigned short*) std::malloc(sizeof(unsigned short)*s->nlm);
   s->mi = (unsigned short*) std::malloc(sizeof(unsigned short)*s->nlm);
   for (int m=0; m<=mmax; m++)
      for (int l=m; l<=lmax; l++) {
         s->li[LM(s,l,m)] = l;
         s->mi[LM(s,l,m)] = m;
      }
   return s;
}
int shtns_set_grid(shtns_cfg s, enum shtns_type flags, double, int nlat, int nphi)
{
   const int type = int(flags) & 255;
   if (type!=sht_gauss && type!=sht_gauss_fly && type!=sht_quick_init && type!=sht_auto)
      die("only Gauss grids are supported");
   if (nlat<=s->lmax)   die("nlat must be > lmax");
   if (nphi<=2*s->mmax) die("nphi must be > 2*mmax");
   const bool south = int(flags) & SHT_SOUTH_POLE_FIRST;
   s->phi_contig_ = (int(flags) & SHT_PHI_CONTIGUOUS) ? 1 : 0;
   if (const char *f = std::getenv("SHTNS_STANDIN_LOG")) {
      if (std::FILE *h = std::fopen(f, "a")) { std::fprintf(h, "%s\n", s->phi_contig_ ? "phi" : "theta"); std::fclose(h); }
   }
   s->nlat = nlat; s->nphi = nphi; s->nlat_2 = (nlat+1)/2;
   s->nlat_padded = nlat;
   s->nspat = nlat*nphi;
   s->ct = (double*) std::malloc(sizeof(double)*nlat);
   s->st = (double*) std::malloc(sizeof(double)*nlat);
   s->wg_ = (double*) std::malloc(sizeof(double)*nlat);
   s->plm_ = (double*) std::malloc(sizeof(double)*nlat*s->nlm);
   s->cs_ = (double*) std::malloc(sizeof(double)*nphi);
   s->sn_ = (double*) std::malloc(sizeof(double)*nphi);
   for (int k=0; k<nphi; k++) {
      s->cs_[k] = (double) cosl(2*PI_L*k/nphi);
      s->sn_[k] = (double) sinl(2*PI_L*k/nphi);
   }
   for (int j=0; j<nlat; j++) {
      ld x = cosl(PI_L*(j+0.75L)/(nlat+0.5L)), dp = 0;
      for (int it=0; it<100; it++) {
         ld p0 = 1, p1 = x;
         for (int n=2; n<=nlat; n++) { ld p2 = ((2*n-1)*x*p1-(n-1)*p0)/n; p0 = p1; p1 = p2; }
         if (nlat==1) { p0 = 1; p1 = x; }
         dp = nlat*(x*p1-p0)/(x*x-1);
         const ld dx = p1/dp;
         x -= dx;
         if (fabsl(dx)<1e-19L) break;
      }
      {  ld p0 = 1, p1 = x;
         for (int n=2; n<=nlat; n++) { ld p2 = ((2*n-1)*x*p1-(n-1)*p0)/n; p0 = p1; p1 = p2; }
         dp = nlat*(x*p1-p0)/(x*x-1); }
      const ld w = 2/((1-x*x)*dp*dp), st = sqrtl(1-x*x);
      const int jj = south ? nlat-1-j : j;
      s->ct[jj] = (double) x; s->st[jj] = (double) st; s->wg_[jj] = (double) w;
      ld pmm = sqrtl(1/(4*PI_L));
      for (int m=0; m<=s->mmax; m++) {
         if (m>0) pmm *= -st*sqrtl((2*m+1)/(ld)(2*m));
         ld pa = 0, pb = pmm;
         for (int l=m; l<=s->lmax; l++) {
            if (l>m) {
               const ld a = sqrtl((4.0L*l*l-1)/((ld)l*l-(ld)m*m));
               const ld b = sqrtl(((l-1.0L)*(l-1.0L)-(ld)m*m)/(4.0L*(l-1.0L)*(l-1.0L)-1));
               const ld pc = a*(x*pb - (l-1>m ? b*pa : 0.0L));
               pa = pb; pb = pc;
            }
            s->plm_[(size_t)LM(s,l,m)*nlat+jj] = (double) pb;
         }
      }
   }
   return s->nspat;
}
int shtns_set_grid_auto(shtns_cfg s, enum shtns_type f, double e, int, int *nlat, int *nphi)
{
   if (*nlat<=0) *nlat = (s->lmax+2)&~1;
   if (*nphi<=0) *nphi = 2*s->mmax+2;
   return shtns_set_grid(s, f, e, *nlat, *nphi);
}
shtns_cfg shtns_init(enum shtns_type flags, int lmax, int mmax, int mres, int nlat, int nphi)
{
   shtns_cfg s = shtns_create(lmax, mmax, mres, sht_orthonormal);
   shtns_set_grid(s, flags, 0, nlat, nphi);
   return s;
}
void shtns_unset_grid(shtns_cfg s)
{
   std::free(s->ct); std::free(s->st); std::free(s->wg_); std::free(s->plm_); std::free(s->cs_); std::free(s->sn_);
   s->ct = s->st = s->wg_ = s->plm_ = s->cs_ = s->sn_ = nullptr;
}
void shtns_destroy(shtns_cfg s)
{
   shtns_unset_grid(s);
   std::free(s->li); std::free(s->mi);
   std::free(s);
}
void shtns_reset(void) {}
void *shtns_malloc(size_t n) { return std::malloc(n); }
void shtns_free(void *p) { std::free(p); }
double sh00_1(shtns_cfg)  { return (double) sqrtl(4*PI_L); }
double sh10_ct(shtns_cfg) { return (double) sqrtl(4*PI_L/3); }
double sh11_st(shtns_cfg) { return (double) -sqrtl(2*PI_L/3); }

static inline size_t at(shtns_cfg s, int j, int k)
{
   return s->phi_contig_ ? (size_t)s->nphi*j+k : (size_t)s->nlat*k+j;
}
/* f_m(theta_j) -> coefficients */
void spat_to_SH_l(shtns_cfg s, double *v, cplx *q, int ltr)
{
   moment();
   const int nlat = s->nlat, nphi = s->nphi;
   std::vector<cplx> fm(nlat);
   const double dphi = (double)(2*PI_L/nphi);
   for (int m=0; m<=s->mmax; m++) {
      for (int j=0; j<nlat; j++) {
         double re = 0, im = 0;
         for (int k=0; k<nphi; k++) {
            const int a = (int)(((long)m*k)%nphi);
            re += v[at(s,j,k)]*s->cs_[a];
            im -= v[at(s,j,k)]*s->sn_[a];
         }
         fm[j] = cplx(re*dphi*s->wg_[j], im*dphi*s->wg_[j]);
      }
      for (int l=m; l<=s->lmax; l++) {
         cplx acc = 0;
         if (l<=ltr) for (int j=0; j<nlat; j++) acc += fm[j]*s->plm_[(size_t)LM(s,l,m)*nlat+j];
         q[LM(s,l,m)] = acc;
      }
   }
}
void spat_to_SH(shtns_cfg s, double *v, cplx *q) { spat_to_SH_l(s, v, q, s->lmax); }
void SH_to_spat_l(shtns_cfg s, cplx *q, double *v, int ltr)
{
   moment();
   const int nlat = s->nlat, nphi = s->nphi;
   std::vector<cplx> fm((size_t)nlat*(s->mmax+1));
   for (int m=0; m<=s->mmax; m++)
      for (int j=0; j<nlat; j++) {
         cplx acc = 0;
         for (int l=m; l<=s->lmax && l<=ltr; l++) acc += q[LM(s,l,m)]*s->plm_[(size_t)LM(s,l,m)*nlat+j];
         fm[(size_t)m*nlat+j] = acc;
      }
   for (int j=0; j<nlat; j++)
      for (int k=0; k<nphi; k++) {
         double acc = fm[j].real();
         for (int m=1; m<=s->mmax; m++) {
            const int a = (int)(((long)m*k)%nphi);
            acc += 2*(fm[(size_t)m*nlat+j].real()*s->cs_[a] - fm[(size_t)m*nlat+j].imag()*s->sn_[a]);
         }
         v[at(s,j,k)] = acc;
      }
}
void SH_to_spat(shtns_cfg s, cplx *q, double *v) { SH_to_spat_l(s, q, v, s->lmax); }
void spat_cplx_to_SH(shtns_cfg s, cplx *z, cplx *alm)
{
   moment();
   const int nlat = s->nlat, nphi = s->nphi;
   std::vector<cplx> fm(nlat);
   const double dphi = (double)(2*PI_L/nphi);
   for (int l=0; l<=s->lmax; l++)
      for (int m=-l; m<=l; m++) alm[l*(l+1)+m] = 0;
   for (int m=-(int)s->mmax; m<=(int)s->mmax; m++) {
      const int am = m<0 ? -m : m;
      const double sg = (m<0 && (am&1)) ? -1 : 1;
      for (int j=0; j<nlat; j++) {
         cplx acc = 0;
         for (int k=0; k<nphi; k++) {
            const int a = (int)(((long)am*k)%nphi);
            acc += z[at(s,j,k)]*cplx(s->cs_[a], m<0 ? s->sn_[a] : -s->sn_[a]);
         }
         fm[j] = acc*(dphi*s->wg_[j]*sg);
      }
      for (int l=am; l<=s->lmax; l++) {
         cplx acc = 0;
         for (int j=0; j<nlat; j++) acc += fm[j]*s->plm_[(size_t)LM(s,l,am)*nlat+j];
         alm[l*(l+1)+m] = acc;
      }
   }
}
void SH_to_spat_cplx(shtns_cfg s, cplx *alm, cplx *z)
{
   moment();
   const int nlat = s->nlat, nphi = s->nphi;
   for (int j=0; j<nlat; j++)
      for (int k=0; k<nphi; k++) z[at(s,j,k)] = 0;
   for (int m=-(int)s->mmax; m<=(int)s->mmax; m++) {
      const int am = m<0 ? -m : m;
      const double sg = (m<0 && (am&1)) ? -1 : 1;
      for (int j=0; j<nlat; j++) {
         cplx acc = 0;
         for (int l=am; l<=s->lmax; l++) acc += alm[l*(l+1)+m]*(sg*s->plm_[(size_t)LM(s,l,am)*nlat+j]);
         for (int k=0; k<nphi; k++) {
            const int a = (int)(((long)am*k)%nphi);
            z[at(s,j,k)] += acc*cplx(s->cs_[a], m<0 ? -s->sn_[a] : s->sn_[a]);
         }
      }
   }
}
} /* extern "C" */
