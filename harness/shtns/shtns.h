/*
 * Stand-in for the SHTns C API (the subset a scalar-field code can use),
 * written for /verif from the public description of SHTns.  It is a slow,
 * direct implementation: Gauss-Legendre quadrature in theta, a direct Fourier
 * sum in phi.  It exists because SHTns itself cannot be installed here.
 *
 * Conventions (those of SHTns):
 *  - orthonormal, Condon-Shortley phase;
 *  - real fields: coefficients for m>=0 only, index LM(shtns,l,m);
 *  - complex fields: (lmax+1)^2 coefficients, index l*(l+1)+m;
 *  - coefficients with |m|>mmax are zero on analysis, ignored on synthesis;
 *  - native layout: theta is the fastest index; SHT_PHI_CONTIGUOUS: phi is.
 */
#ifndef SHTNS_STANDIN_H
#define SHTNS_STANDIN_H
#include <stddef.h>

#ifdef __cplusplus
#include <complex>
typedef std::complex<double> cplx;
extern "C" {
#else
#include <complex.h>
typedef complex double cplx;
#endif

enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt };
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM   (256*8)

enum shtns_type { sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct,
                  sht_quick_init, sht_reg_poles, sht_gauss_fly };
#define SHT_NATIVE_LAYOUT     0
#define SHT_THETA_CONTIGUOUS  256
#define SHT_PHI_CONTIGUOUS    (256*2)
#define SHT_SCALAR_ONLY       (256*16)
#define SHT_SOUTH_POLE_FIRST  (256*32)

struct shtns_info {
   unsigned int nlm;
   unsigned short lmax;
   unsigned short mmax;
   unsigned short mres;
   unsigned short nlat_2;
   unsigned int nlat;
   unsigned int nphi;
   unsigned int nspat;
   unsigned short *li;
   unsigned short *mi;
   double *ct;
   double *st;
   unsigned int nlat_padded;
   unsigned int nlm_cplx;
   /* private to the stand-in */
   double *plm_;       /* [nlm][nlat] */
   double *wg_;        /* [nlat] */
   double *cs_, *sn_;  /* [nphi] */
   int phi_contig_;
   int norm_;
};
typedef struct shtns_info *shtns_cfg;

#define NSPAT_ALLOC(shtns) (shtns->nspat)
#define LiM(shtns, l,im) ( (((im)*(2*(shtns)->lmax + 2 - ((im)+1)*(shtns)->mres))>>1) + (l) )
#define LM(shtns, l,m) ( (((((unsigned int)(m))/((shtns)->mres))*(2*(shtns)->lmax + 2 - ((m)+(shtns)->mres)))>>1) + (l) )
#define LM_LOOP( shtns, action ) { int lm=0; do { action } while(++lm < (int)(shtns)->nlm); }

void shtns_verbose(int);
int  shtns_use_threads(int);
long nlm_calc(long lmax, long mmax, long mres);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm);
int  shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
int  shtns_set_grid_auto(shtns_cfg, enum shtns_type flags, double eps, int nl_order, int *nlat, int *nphi);
shtns_cfg shtns_init(enum shtns_type flags, int lmax, int mmax, int mres, int nlat, int nphi);
void shtns_destroy(shtns_cfg);
void shtns_unset_grid(shtns_cfg);
void shtns_reset(void);
void shtns_free(void *);
void *shtns_malloc(size_t);
double sh00_1(shtns_cfg);
double sh10_ct(shtns_cfg);
double sh11_st(shtns_cfg);

void spat_to_SH(shtns_cfg, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg, cplx *Qlm, double *Vr);
void spat_cplx_to_SH(shtns_cfg, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg, cplx *alm, cplx *z);
void spat_to_SH_l(shtns_cfg, double *Vr, cplx *Qlm, int ltr);
void SH_to_spat_l(shtns_cfg, cplx *Qlm, double *Vr, int ltr);

#ifdef __cplusplus
}
#endif
#endif
