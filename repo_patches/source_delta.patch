From be1984db37058aabdefe4bb827d3d4ebca07996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 01/11] fix: apply spectral operators to the l=lmax and m=mmax
 modes on the sphere

The transforms hold modes 0<=l<=lmax and 0<=m<=mmax, but the Laplacian, the
phi derivative, the ladder operators and the low pass filter left l=lmax and
m=mmax untouched (the Laplacian of Y_{lmax,m} was +Y_{lmax,m}), and the power
spectrum left out m=mmax.
---
 Source/sphere.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 8d1ebfa..f595c1e 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -13,8 +13,8 @@ Sphere::Sphere(
    _mmax{nm},
    _nlat{nlat}, 
    _nphi{nphi}, 
-   _lap(_lmax,0),
-   _low_pass(_lmax,0)
+   _lap(_lmax+1,0),
+   _low_pass(_lmax+1,0)
 {
    std::cout<<"Initializing Sphere"<<std::endl;
    shtns_verbose(0);     /* displays informations during initialization. */
@@ -45,13 +45,13 @@ Sphere::Sphere(
    /* 
     * Set Laplacian in spherical harmonic space: \Delta Y_{lm} = -l(l+1) Y_{lm}
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _lap[i] = - double(i)*double(i+1.0);
    }
    /* 
     * Low pass filter in spherical harmonic space 
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _low_pass[i] = exp(-40.0*pow(double(i)/_lmax,16));
    }
    _nSph = NSPAT_ALLOC(_shtns);
@@ -202,8 +202,8 @@ void Sphere::laplace_beltrami(
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];
    }
    }
@@ -233,8 +233,8 @@ void Sphere::partial_phi(const std::vector<double> &v, std::vector<double> &dv)
 
    const cplx img(0,1);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= img*cplx(m);
    }
    }
@@ -265,7 +265,7 @@ void Sphere::raise(const std::vector<double> &v, std::vector<cplx> &rv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=int(l); m>-int(l); m--) {
          Ylm_tmp[l*(l+1)+m] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[l*(l+1)+(m-1)];
       }
@@ -299,7 +299,7 @@ void Sphere::lower(const std::vector<double> &v, std::vector<cplx> &lv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=-int(l); m<int(l); m++) {
          Ylm_tmp[l*(l+1)+m] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[l*(l+1)+(m+1)];
       }
@@ -354,8 +354,8 @@ void Sphere::filter(std::vector<double> &v) const
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;             l++) {
+   for (size_t m=0; m<=std::min(l,_mmax); m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];
    }
    }
@@ -387,7 +387,7 @@ void Sphere::power_spectrum(const std::vector<double> &v, std::vector<double> &p
       const double i_Ylm = Ylm_tmp[LM(_shtns,l,0)].imag();
       p[l] = (pow(r_Ylm,2) + pow(i_Ylm,2));
 
-      for (size_t m=1; m<std::min(l+1,_mmax); m++) {
+      for (size_t m=1; m<=std::min(l,_mmax); m++) {
          /*
           * We double count positive m as we do not
           * count negative m.
-- 
2.43.0


From 6f51350ae10029e42b4ff27da249558703327d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 02/11] fix: apply the radial filter in Grid::filter

The radial line was copied out and back without being filtered, so the
documented radial low pass filter (Chebyshev) or Kreiss-Oliger dissipation
(finite differences) never ran; the end points stay fixed as before.
---
 Source/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/grid.cpp b/Source/grid.cpp
index 7819e4c..9c60d66 100644
--- a/Source/grid.cpp
+++ b/Source/grid.cpp
@@ -295,9 +295,10 @@ void Grid::filter(std::vector<double> &v) const
       get_row_R(it, ip, v, inter_radial); 
       const double lwr = inter_radial[0    ];
       const double upr = inter_radial[_nx-1];
-      set_row_R(it, ip, inter_radial, v); 
+      _radial.filter(inter_radial);
       inter_radial[0    ] = lwr;
       inter_radial[_nx-1] = upr;
+      set_row_R(it, ip, inter_radial, v); 
    }
    }
 }
-- 
2.43.0


From 495fc0393ebef1c00471bc45ed16ae08f99f61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 03/11] fix: phi-row accessors of Grid use the number of phi
 points

set_row_ph wrote nlat values of a row of nphi, and get_row_R_ph asserted that
its output held nx*nlat values.
---
 Source/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 8d710c5..ef35227 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -111,7 +111,7 @@ public:
    {
       assert(in.size() ==_nphi);
       assert(out.size()==_nx*_nphi*_nlat);
-      for (size_t ip=0; ip<_nlat; ip++) {
+      for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_R_th_ph(ix,it,ip)] = in[ip];
       }
    } 
@@ -167,7 +167,7 @@ public:
          std::vector<double> &out) const
    {
       assert(in.size() ==_nx*_nphi*_nlat);
-      assert(out.size()==_nx*_nlat);
+      assert(out.size()==_nx*_nphi);
       for (size_t ix=0; ix<_nx;   ix++) {
       for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_r_ph(ix,ip)] = in[indx_R_th_ph(ix,it,ip)];
-- 
2.43.0


From 149823688c14bbc0504ebf34c5dbad56c4cfb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 04/11] fix: set the initial data on every radial point

The last radial point was skipped as r=infty, but Chebyshev points run from
r=infty inwards, so there it was the horizon that was left at zero: a pulse
that overlaps the horizon started with a jump there.
---
 Source/initial_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/initial_data.cpp b/Source/initial_data.cpp
index 5d18d71..38c5e64 100644
--- a/Source/initial_data.cpp
+++ b/Source/initial_data.cpp
@@ -36,7 +36,7 @@ void compact_pulse(
 
    std::vector<double> ylm = grid.compute_ylm(l_ang, m_ang);
 
-   for (size_t ix=0; ix<nx-1; ix++) { /* do not include ix=nx-1 as r=infty there */
+   for (size_t ix=0; ix<nx; ix++) { /* where r=infty, r>ru so the bump is zero */
    for (size_t ip=0; ip<nphi; ip++) {
    for (size_t it=0; it<nlat; it++) {
       const std::vector<double> R_th_ph = grid.R_th_ph(ix,it,ip);
-- 
2.43.0


From f3ec1a9b29b0f14bee8140d4423f5cc96b197216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 05/11] fix: count the factor 1/2 of the energy density's
 kinetic terms once

The coefficients _rho_vv,... already hold the 1/2 of
rho = (k/2) [...] + V; set_rho multiplied by another 1/2, so the kinetic part
was half of what the documentation defines while the potential was not.
---
 Source/scalar_eom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 13124fa..67d0a26 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -343,7 +343,7 @@ void Scalar_eom::set_rho(
          );
          
       rho[i] = 
-      +  k*(1./2.)*(
+      +  k*(
             _rho_vv[i]*pow(p[i],2) 
          +  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
-- 
2.43.0


From efc128faa78c07c2e604ebcfa2cce1a10713748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 06/11] fix: sign of the p*d_r f term of the energy density

rho = n^mu n^nu T_{mu nu} with n_mu = |g^{vv}|^{-1/2} dv has
2 n^v n^r = -2 g^{vr} = -4Mr/Sigma as the coefficient of (d_v psi)(d_r psi)
in its bracket; the code and the documentation had +4Mr/Sigma.
---
 Documentation/main.tex | 2 +-
 Source/scalar_eom.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Documentation/main.tex b/Documentation/main.tex
index 4ae33b5..92e67d6 100644
--- a/Documentation/main.tex
+++ b/Documentation/main.tex
@@ -306,7 +306,7 @@ In ingoing Eddington-Finkelstein coordinates we have
    \frac{1}{2}\Bigg[
       \left(1+\frac{2Mr}{\Sigma}\right)
       \left(\partial_v\psi\right)^2
-      +
+      -
       \frac{4Mr}{\Sigma}
       \left(\partial_v\psi\right)\left(\partial_r\psi\right)
       \nonumber\\&
diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 67d0a26..9d0dbbd 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -345,7 +345,7 @@ void Scalar_eom::set_rho(
       rho[i] = 
       +  k*(
             _rho_vv[i]*pow(p[i],2) 
-         +  _rho_vr[i]*p[i]*_dr_f[i]
+         -  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
          +  _rho_rphi[i]*_dr_f[i]*_dphi_f[i]
          +  _rho_sphereX[i]*_sphereX_f[i]
-- 
2.43.0


From e95450551281402d735bebf65c1632a0c1ffcb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 07/11] fix: do not call fftw_cleanup when one Cheb is
 destroyed

fftw_cleanup makes every existing plan undefined, also the plans of the other
Cheb (and SHTns) objects that are still alive and go on executing and later
destroying theirs.
---
 Source/cheb.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index d53b232..dfcdd2a 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -42,7 +42,6 @@ Cheb::~Cheb()
    assert(_plan_dct!=nullptr);
 
    fftw_destroy_plan(_plan_dct);
-   fftw_cleanup();
 }
 /*==========================================================================*/
 /* position space to Chebyshev space */
-- 
2.43.0


From 90bfdb48aa4f55ece17dafbf0c10e855efb3a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:15 +0000
Subject: [PATCH 08/11] fix: recompile the executable that was asked for

'make clean_obj'+name matched the %.run rule and built a second executable
named clean_obj..., and the make that followed did not pass use_cheb, so the
'Chebyshev' executable used finite differences.
---
 sim_class.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sim_class.py b/sim_class.py
index 19b5c61..738976c 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -145,5 +145,10 @@ class Sim:
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-      subprocess.call('make clean_obj'+self.bin_name,shell=True)
-      subprocess.call('make '+self.bin_name,shell=True)
+      subprocess.call('make clean_Source',shell=True)
+      subprocess.call(
+         'make {} use_cheb={} use_contiguous_longitudes=true'.format(
+            self.bin_name, str(self.use_cheb==True).lower()
+         ),
+         shell=True
+      )
-- 
2.43.0


From b6311a1fed83e03db376f362ffe870e37435f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 09/11] fix: config.py does not link objects left from a build
 with other flags

---
 config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config.py b/config.py
index 6ad5508..76447e4 100755
--- a/config.py
+++ b/config.py
@@ -20,6 +20,7 @@ args = parser.parse_args()
 print("=====================================================")
 print("Compiling radial Chebyshev executable")
 print("=====================================================")
+subprocess.call('make clean_Source', shell=True) ## objects may be left from a build with other flags
 subprocess.call(
       'make debug={} profile={} use_cheb=true use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
@@ -27,6 +28,7 @@ subprocess.call(
 print("=====================================================")
 print("Compiling radial finite difference executable")
 print("=====================================================")
+subprocess.call('make clean_Source', shell=True)
 subprocess.call(
       'make debug={} profile={} use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
-- 
2.43.0


From 1824475df451d1cf034166c31037b2e57eee791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 10/11] fix: read numbers of steps that do not fit in an int

---
 Source/params.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/params.cpp b/Source/params.cpp
index fa13c17..eae94cc 100644
--- a/Source/params.cpp
+++ b/Source/params.cpp
@@ -11,14 +11,14 @@
 Params::Params(const std::string param_file)
 {
    std::cout<<"Initializing Params"<<std::endl;
-   _nt   = std::stoi(_read(param_file,"nt"));
+   _nt   = std::stoul(_read(param_file,"nt"));
    _nx   = std::stoi(_read(param_file,"nx"));
    _nl   = std::stoi(_read(param_file,"nl"));
    _nm   = std::stoi(_read(param_file,"nm"));
    _nlat = std::stoi(_read(param_file,"nlat"));
    _nphi = std::stoi(_read(param_file,"nphi"));
 
-   _t_step_save = std::stoi(_read(param_file,"t_step_save"));
+   _t_step_save = std::stoul(_read(param_file,"t_step_save"));
 
    _dt = std::stod(_read(param_file,"dt"));
 
-- 
2.43.0


From 51b3f0104d876841dd2c831d0f755ea106ce40fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:21 +0000
Subject: [PATCH 11/11] fix: no 1/(1+f) term in K when km1 is zero (f=-1 gave
 NaN)

---
 Source/scalar_eom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 9d0dbbd..10c4c35 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -173,12 +173,12 @@ void Scalar_eom::set_k(
    for (size_t i=0; i<_n; i++) {
       const double inverse_k = 1.0/( 
             _k0 
-         +  _km1/(f[i]+1)
+         +  ((_km1==0) ? 0 : (_km1/(f[i]+1)))
          +  _k1*f[i]
          +  (_k2/2.0)*pow(f[i],2)
          );
       const double kprime = 
-      -  _km1/pow(f[i]+1,2)
+      -  ((_km1==0) ? 0 : (_km1/pow(f[i]+1,2)))
       +  _k1
       +  _k2*f[i]
       ;
@@ -332,7 +332,7 @@ void Scalar_eom::set_rho(
    for (size_t i=0; i<_n; i++) {
       const double k = ( 
             _k0 
-         +  _km1/(f[i]+1)
+         +  ((_km1==0) ? 0 : (_km1/(f[i]+1)))
          +  _k1*f[i]
          +  (_k2/2.)*pow(f[i],2)
          );
-- 
2.43.0

