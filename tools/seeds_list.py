# read by seeds.py; patterns are of the pinned tree plus the fix commits
S = 'Source/'
seed('fd-der-pairs', 'C01', [(S+'finite_diff.cpp', '''   for (size_t i=3; i<_n-3; i++) {
      dv[i] = (
         (1./60.)*v[i+3]
      -  (3./20.)*v[i+2]
      +  (3./4. )*v[i+1]
      -  (3./4. )*v[i-1]
      +  (3./20.)*v[i-2]
      -  (1./60.)*v[i-3] 
      )/_dx;       
   }''', '''   /* two points at a time, sharing the loads, after the first one */
   for (size_t i=2; i+1<_n-3; i+=2) {
   for (size_t j=(i==2) ? 3 : i; j<i+2; j++) {
      dv[j] = (
         (1./60.)*v[j+3]
      -  (3./20.)*v[j+2]
      +  (3./4. )*v[j+1]
      -  (3./4. )*v[j-1]
      +  (3./20.)*v[j-2]
      -  (1./60.)*v[j-3] 
      )/_dx;       
   }
   }''')], 'an even number of radial points', 'the last centred point of the first derivative is not set when n is even', cpp=r'''
#include "finite_diff.hpp"
int main() {
   for (size_t n=9; n<40; n++) { FD fd(n,1.0,3.0); V v(n), d(n,7.0), e(n);
      for (size_t i=0; i<n; i++) { double x = fd.pt(i); v[i]=x*x*x-x; e[i]=3*x*x-1; }
      fd.der(v,d); if (dist(d,e)>1e-6) return fail("derivative of a cubic"); }
}''')
seed('fd-filter-threshold', 'C02', [(S+'finite_diff.cpp', '''   for (size_t i=4; i<_n-4; i++) { 
      v[i] = tmp[i];
   } ''', '''   for (size_t i=4; i<_n-4; i++) { 
      /* nothing to dissipate: keep the value */
      if (fabs(tmp[i]-v[i])<1e-12) continue;
      v[i] = tmp[i];
   } ''')], 'noise of small amplitude', 'values whose correction is below 1e-12 are not filtered', cpp=r'''
#include "finite_diff.hpp"
int main() { const size_t n=40; FD fd(n,0.0,1.0); V v(n); for (size_t i=0; i<n; i++) v[i] = 1e-13*(i%2 ? -1 : 1);
   fd.filter(v); for (size_t i=4; i<n-4; i++) if (std::fabs(v[i])>1e-20) return fail("alternating mode not removed"); }''')
seed('cheb-to-po-pairs', 'C03', [(S+'cheb.cpp', '''   for (size_t i=1; i<_n-1; i++) {
      ch[i] /= 2.0;
   }''', '''   for (size_t i=1; i+1<_n-1; i+=2) {
      ch[i  ] *= 0.5;
      ch[i+1] *= 0.5;
   }''')], 'an odd number of points', 'the coefficient of degree n-2 is doubled by the backward transform when n is odd', cpp=r'''
#include "cheb.hpp"
int main() { for (size_t n=5; n<30; n++) { Cheb c(n,-1.0,2.0); V v=rnds(n), w(v), ch(n), u(n); c.to_ch(w,ch); c.to_po(ch,u);
   if (dist(u,v)>1e-10) return fail("forward then backward"); } }''')
seed('cheb-der-chop', 'C04', [(S+'cheb.cpp', '''   for (size_t i=0; i<_n; i++) {
      dv[i] = ch_tmp[i];
   }
''', '''   for (size_t i=0; i<_n; i++) {
      if (fabs(ch_tmp[i])<1e-15) ch_tmp[i] = 0; /* rounding noise */
      dv[i] = ch_tmp[i];
   }
''')], 'a field of small magnitude', 'coefficients below 1e-15 are dropped, so the derivative of a small field is wrong', cpp=r'''
#include "cheb.hpp"
int main() { const size_t n=20; Cheb c(n,0.0,2.0); V v(n), d(n), e(n,1e-16); for (size_t i=0; i<n; i++) v[i]=1e-16*c.pt(i);
   c.der(v,d); return dist(d,e)>1e-20 ? fail("derivative of a small field") : 0; }''')
seed('cheb-low-pass-shared', 'C27', [(S+'cheb.cpp', '''   for (size_t i=0; i<_n; i++) {
      _low_pass[i] = exp(-40.0*pow(double(i)/_n,16));
   }   ''', '''   /* the table is the same for every operator: compute it once */
   static std::vector<double> table;
   if (table.size()<_n) {
      table.resize(_n);
      for (size_t i=0; i<_n; i++) {
         table[i] = exp(-40.0*pow(double(i)/_n,16));
      }
   }
   for (size_t i=0; i<_n; i++) {
      _low_pass[i] = table[i];
   }   ''')], 'a smaller Chebyshev operator made after a larger one', 'the smaller operator filters with the table of the larger one', cpp=r'''
#include "cheb.hpp"
int main() { V v=rnds(12), a(v), b(v); { Cheb c(12,0.0,1.0); c.filter(a); } Cheb big_(48,0.0,1.0); Cheb c(12,0.0,1.0); c.filter(b);
   return dist(a,b)>1e-13 ? fail("filter depends on other operators") : 0; }''')
seed('cheb-pts-mirror', 'C06', [(S+'cheb.cpp', '''   for (size_t i=0; i<_n; i++) {
      _pts[i] = _jacobian*cos(M_PI*double(i)/(_n-1.0)) + ((_upper+_lower)/2.0);
   }''', '''   /* the points are symmetric about the middle of the interval */
   for (size_t i=0; i<_n/2; i++) {
      const double d = _jacobian*cos(M_PI*double(i)/(_n-1.0));
      _pts[i     ] = ((_upper+_lower)/2.0) + d;
      _pts[_n-1-i] = ((_upper+_lower)/2.0) - d;
   }''')], 'an odd number of points and an interval whose middle is not 0', 'the middle point stays 0', cpp=r'''
#include "cheb.hpp"
int main() { for (size_t n=9; n<20; n++) { Cheb c(n,1.0,4.0); for (size_t i=1; i<n; i++) if (!(c.pt(i)<c.pt(i-1))) return fail("points not decreasing");
   if (!(c.pt(n-1)>0.99)) return fail("end"); } }''')
seed('sphere-filter-skip', 'C09', [(S+'sphere.cpp', '''   double *Sph_tmp = allocate_real(_nSph);
   cplx   *Ylm_tmp = allocate_cplx(_nYlm);

   for (size_t i=0; i<_nSph; i++) {
      Sph_tmp[i] = v[i];
   }
   spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);

   for (size_t l=0; l<=_lmax;             l++) {
   for (size_t m=0; m<=std::min(l,_mmax); m++) {
      Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];''', '''   /* most shells are empty: the pulse is compact */
   double max_val = 0;
   for (size_t i=0; i<_nSph; i++) {
      if (v[i]>max_val) max_val = v[i];
   }
   if (max_val==0) return;

   double *Sph_tmp = allocate_real(_nSph);
   cplx   *Ylm_tmp = allocate_cplx(_nYlm);

   for (size_t i=0; i<_nSph; i++) {
      Sph_tmp[i] = v[i];
   }
   spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);

   for (size_t l=0; l<=_lmax;             l++) {
   for (size_t m=0; m<=std::min(l,_mmax); m++) {
      Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];''')], 'a shell on which no value is positive', 'a shell with only negative values is not filtered', cpp=r'''
#include "sphere.hpp"
int main() { Sphere s(6,6,12,16); V v(s.nSph()); for (auto &x : v) x = -2.0+rnd(); V w(v), n(v); for (auto &x : n) x = -x;
   s.filter(w); s.filter(n); for (size_t i=0; i<w.size(); i++) n[i] = -n[i]; return dist(w,n)>1e-12 ? fail("filter is not odd") : 0; }''')
seed('grid-row-cache', 'C12', [(S+'grid.cpp', '''      _sphere.partial_phi(inter, inter_dv);

      set_row_th_ph(ix, inter_dv, dv); ''', '''      /* an axisymmetric basis has no phi dependence */
      if (_nm==0) continue;
      _sphere.partial_phi(inter, inter_dv);

      set_row_th_ph(ix, inter_dv, dv); ''')], 'nm = 0 and an output array that holds something else than zeros', 'the azimuthal derivative leaves the old contents of the output in place', cpp=r'''
int main() { Params p(P("nm 0\nm_ang 0\n")); Grid g = grid_of(p); V v(p.nx()*p.nlat()*p.nphi(),1.0), d(v.size(),5.0); g.set_partial_phi(v,d);
   return big(d)>1e-12 ? fail("phi derivative of an axisymmetric field") : 0; }''')
seed('grid-partial2-shared', 'C26', [(S+'grid.cpp', '''#pragma omp parallel for
   for (size_t it=0; it<_nlat; it++) {
   for (size_t ip=0; ip<_nphi; ip++) {
      std::vector<double> inter(    _nx);
      std::vector<double> inter_dv( _nx);
      std::vector<double> inter_ddv(_nx);
''', '''   std::vector<double> inter_dv( _nx);
#pragma omp parallel for
   for (size_t it=0; it<_nlat; it++) {
   for (size_t ip=0; ip<_nphi; ip++) {
      std::vector<double> inter(    _nx);
      std::vector<double> inter_ddv(_nx);
''')], 'several threads working at the same time', 'all threads share the array of the first derivative in the second r-derivative', cpp=r'''
int main() { Params p(P("nx 400\nnlat 32\nnphi 32\n")); Grid g = grid_of(p); V v=rnds(p.nx()*p.nlat()*p.nphi()), a(v.size()), b(v.size());
   omp_set_num_threads(1); g.set_partial2_r(v,a); omp_set_num_threads(8);
   for (int k=0; k<40; k++) { g.set_partial2_r(v,b); if (dist(a,b)>1e-9) return fail("depends on threads"); } }''')
seed('cheb-der-static', 'C26', [(S+'cheb.cpp', '''   std::vector<double> ch_tmp(_n,0);
   assert(v.size( )==_n);
   assert(dv.size()==_n);
''', '''   static std::vector<double> ch_tmp; /* do not allocate on every call */
   ch_tmp.assign(_n,0);
   assert(v.size( )==_n);
   assert(dv.size()==_n);
''')], 'two radial lines differentiated at the same time by different threads', 'concurrent derivatives use one work array', cpp=r'''
#include "cheb.hpp"
int main() { const size_t n=129; Cheb c(n,0.0,1.0); std::vector<V> v(64,V(n)), a(64,V(n)), b(64,V(n)); for (auto &x : v) x=rnds(n);
   for (int i=0; i<64; i++) c.der(v[i],a[i]);
   for (int k=0; k<100; k++) { 
#pragma omp parallel for num_threads(8)
      for (int i=0; i<64; i++) c.der(v[i],b[i]);
      for (int i=0; i<64; i++) if (dist(a[i],b[i])>1e-9) return fail("depends on threads"); } }''')
seed('grid-filter-nowait', 'C26', [(S+'grid.cpp', '''#pragma omp parallel for
   for (size_t ix=0; ix<_nx; ix++) {
      std::vector<double> inter_sphere(_nlat*_nphi);
      get_row_th_ph(ix, v, inter_sphere); 
      _sphere.filter(inter_sphere);
      set_row_th_ph(ix, inter_sphere, v); 
   }
#pragma omp parallel for
   for (size_t it=0; it<_nlat; it++) {''', '''#pragma omp parallel
   {
#pragma omp for nowait
   for (size_t ix=0; ix<_nx; ix++) {
      std::vector<double> inter_sphere(_nlat*_nphi);
      get_row_th_ph(ix, v, inter_sphere); 
      _sphere.filter(inter_sphere);
      set_row_th_ph(ix, inter_sphere, v); 
   }
#pragma omp for
   for (size_t it=0; it<_nlat; it++) {'''), (S+'grid.cpp', '''      set_row_R(it, ip, inter_radial, v); 
   }
   }
}
/*==========================================================================*/
double Grid::norm_indep_res''', '''      set_row_R(it, ip, inter_radial, v); 
   }
   }
   }
}
/*==========================================================================*/
double Grid::norm_indep_res''')], 'several threads, one of which finishes its shells before another', 'radial lines are filtered while other shells are still to be filtered', cpp=r'''
int main() { Params p(P("nx 65\nnlat 24\nnphi 24\n")); Grid g = grid_of(p); V v=rnds(p.nx()*p.nlat()*p.nphi()), a(v), b;
   omp_set_num_threads(1); g.filter(a); omp_set_num_threads(8);
   for (int k=0; k<200; k++) { b=v; g.filter(b); if (dist(a,b)>1e-9) return fail("depends on threads"); } }''')
seed('tv-no-reduction', 'C14', [(S+'grid.cpp', '''#pragma omp parallel for reduction(+ : tv)
   for (size_t ix=0; ix<_nx-1;   ix++) {
''', '''#pragma omp parallel for
   for (size_t ix=0; ix<_nx-1;   ix++) {
''')], 'several threads adding at the same time', 'the total variation loses contributions', cpp=r'''
int main() { Params p(P("nx 101\nnlat 24\nnphi 24\n")); Grid g = grid_of(p); V v=rnds(p.nx()*p.nlat()*p.nphi());
   omp_set_num_threads(1); double a = g.total_variation(v); omp_set_num_threads(8);
   for (int k=0; k<50; k++) if (std::fabs(g.total_variation(v)-a)>1e-9*a) return fail("depends on threads"); }''')
seed('id-max-sign', 'C15', [(S+'initial_data.cpp', '''      if (fabs(f[grid.indx_R_th_ph(ix,it,ip)]) > max_val) {
         max_val = fabs(f[grid.indx_R_th_ph(ix,it,ip)]);''', '''      if (f[grid.indx_R_th_ph(ix,it,ip)] > max_val) {
         max_val = f[grid.indx_R_th_ph(ix,it,ip)];''')], 'a harmonic whose most negative value on the grid exceeds the largest one', 'the amplitude of the pulse is larger than requested', cpp=r'''
int main() { Params p(P("l_ang 2\nm_ang 0\nnl 2\nnm 2\nnlat 3\nnphi 8\n")); Grid g = grid_of(p); V f(p.nx()*p.nlat()*p.nphi()), q(f);
   ID::compact_pulse(p,g,f,q); return std::fabs(big(f)-0.5)>1e-9 ? fail("amplitude") : 0; }''')
seed('eom-negative-spin', 'C16', [(S+'scalar_eom.cpp', '''         (fabs(a)        <1e-16) ? (2*m) : (m + pow((m-a)*(m+a),0.5))''', '''         (a              <1e-16) ? (2*m) : (m + pow((m-a)*(m+a),0.5))''')],
 'a negative spin', 'the horizon of a black hole with negative spin is taken to be 2m', cpp=r'''
int main() { V k[2]; for (int s=0; s<2; s++) { Params p(P(s ? "black_hole_spin -0.8\n" : "black_hole_spin 0.8\n")); Grid g = grid_of(p); Scalar_eom e(g,p); size_t n=p.nx()*p.nlat()*p.nphi(); V f(n), q(n,0.0), fk(n), pk(n);
   for (size_t i=0; i<n; i++) f[i] = std::sin(g.R_th_ph(i)[0]); e.set_k(g,f,q,fk,pk); k[s]=pk; }
   return dist(k[0],k[1])>1e-10*big(k[0]) ? fail("an axisymmetric field depends on the sign of the spin") : 0; }''')
seed('rk-level2-p', 'C17', [(S+'scalar_eom.cpp', '''         p.np1[i] = p.n[i] + (_dt/6.0)*(p.k[i]);''', '''         p.np1[i] += (_dt/6.0)*(p.k[i]); /* np1 was copied to n by shift */''')],
 'a field the filter changes, or new-level storage that does not hold the old level', 'the new level of p starts from the unfiltered old level', cpp=r'''
int main() { Params p(P()); Grid g = grid_of(p); size_t n=p.nx()*p.nlat()*p.nphi(); V a[2]; V f0=rnds(n), p0=rnds(n);
   for (int s=0; s<2; s++) { Field f("f",n,0.0), q("p",n,0.0); Scalar_eom e(g,p); f.n=f0; q.n=p0; f.np1=f0; q.np1=p0; if (s) { f.np1=rnds(n); q.np1=rnds(n); }
      e.time_step(g,f,q); a[s]=q.np1; }
   return dist(a[0],a[1])>1e-12*big(a[0]) ? fail("the step depends on the contents of the new level") : 0; }''')
seed('rho-stale-dphi', 'C18', [(S+'scalar_eom.cpp', '''      #pragma omp section
      {
         grid.set_partial_phi(f, _dphi_f);
      }
      #pragma omp section
      {
         grid.set_sphereX(f, _sphereX_f);
      }
   }
   for (size_t i=0; i<_n; i++) {
      const double k = (''', '''      #pragma omp section
      {
         grid.set_sphereX(f, _sphereX_f);
      }
   }
   /* _dphi_f was set by the last call of set_k */
   for (size_t i=0; i<_n; i++) {
      const double k = (''')], 'a non-axisymmetric field and a spin, after a step (the difference is that of the last stage)', 'the energy density uses the azimuthal derivative of the last Runge-Kutta stage', cpp=r'''
int main() { Params p(P()); Grid g = grid_of(p); size_t n=p.nx()*p.nlat()*p.nphi(); V f(n,0.0), q(n,0.0), a(n), b(n); ID::compact_pulse(p,g,f,q);
   { Scalar_eom e(g,p); V fk(n), pk(n); e.set_k(g,f,q,fk,pk); e.set_rho(g,f,q,a); } { Scalar_eom e(g,p); V fk(n), pk(n), z(n); for (size_t i=0; i<n; i++) z[i]=2*f[i]; e.set_k(g,z,q,fk,pk); e.set_rho(g,f,q,b); }
   return dist(a,b)>1e-13*big(a) ? fail("the energy density depends on earlier calls") : 0; }''')
seed('shift-chunks', 'C19', [(S+'field.cpp', '''#pragma omp parallel for
   for (size_t i=0; i<size; i++) {
      n[i] = np1[i];
   }''', '''#pragma omp parallel
   {
      const size_t threads = omp_get_num_threads();
      const size_t chunk = (size<threads) ? size : (size/threads);
      const size_t start = chunk*omp_get_thread_num();
      for (size_t i=start; (i<start+chunk) && (i<size); i++) {
         n[i] = np1[i];
      }
   }'''), (S+'field.cpp', '#include <iostream>\n', '#include <iostream>\n#include <omp.h>\n')], 'a size that the number of threads does not divide', 'the last entries are not copied', cpp=r'''
#include "field.hpp"
int main() { for (int t=1; t<8; t++) { omp_set_num_threads(t); for (size_t n=1; n<60; n++) { Field f("f",n,0.0); f.np1=rnds(n); f.shift(); if (dist(f.n,f.np1)>0) return fail("shift"); } } }''')
RUN = r'''
g++ -std=c++11 -O1 -w -DNDEBUG -fopenmp -DSHTNS_CONTIGUOUS_LONGITUDES -I Source -I "$H" Source/main.cpp Source/cheb.cpp Source/finite_diff.cpp Source/sphere.cpp Source/grid.cpp Source/params.cpp Source/field.cpp Source/initial_data.cpp Source/scalar_eom.cpp Source/io.cpp "$H/shtns_standin.cpp" -o "$D/run" -lfftw3 -lm || exit 2
cd "$D"
par() { printf '%s\n' "$@" 'nx 13' 'nl 4' 'nm 3' 'nlat 8' 'nphi 8' 'dt 0.01' 'compactification_length 20' 'Rmax 20' 'Rmin 1.5' 'black_hole_mass 1' 'black_hole_spin 0.7' 'km1 0' 'k0 1' 'k1 0' 'k2 0' 'V2 1' 'V3 0' 'V4 2' 'initial_data_type compact_pulse' 'initial_data_direction ingoing' 'amp 0.5' 'rl 2' 'ru 12' 'l_ang 1' 'm_ang 1'; }
'''
seed('main-last-state', 'C20', [(S+'main.cpp', '''      if (itm%params.t_step_save()==0) {''', '''      if ((itm%params.t_step_save()==0) || (itm+1==params.nt())) { /* always keep the last state */''')],
 'a save interval that does not divide nt-1', 'an extra output is made whose time is not a multiple of the save interval', sh=RUN + r'''
for c in "5 2 2" "6 2 2" "8 3 2" "3 7 0"; do set -- $c; mkdir "o$1$2"; par "nt $1" "t_step_save $2" > p.txt; ./run p.txt "o$1$2" > /dev/null || exit 3
  [ "$(ls "o$1$2" | grep -c f_RPsl)" = $(($3+1)) ] || { echo "demo: number of outputs for nt=$1 save=$2"; exit 1; }; done
exit 0
''')
seed('main-shift-order', 'C20', [(S+'main.cpp', '''   f.shift();
   p.shift();
   } ''', '''   f.shift();
   if (itm%params.t_step_save()==0) p.np1 = p.n; /* the rest of the step is done */
   p.shift();
   } ''')], 'a saved step followed by another step', 'after a saved step p starts again from its old level', sh=RUN + r'''
for s in 1 2; do mkdir "o$s"; par "nt 5" "t_step_save $s" > p.txt; ./run p.txt "o$s" > /dev/null || exit 3; done
cmp -s o1/f_RPsl_4.csv o2/f_RPsl_2.csv && cmp -s o1/rho_RPsl_4.csv o2/rho_RPsl_2.csv || { echo "demo: the state after 4 steps depends on the save interval"; exit 1; }
''')
seed('csv-precision', 'C21', [(S+'io.cpp', '''         for (size_t j=0; j<indxs-1; ++j) { /* grid point location */
            out<<std::setprecision(16)<<grid.R_l(i)[j]<<",";
         }		
         out<<std::setprecision(16)
            <<((power_spectrum[i]<1e-16)''', '''         if ((i==0) && save_coords) {
            out<<std::setprecision(16); /* stays set */
         }
         for (size_t j=0; j<indxs-1; ++j) { /* grid point location */
            out<<grid.R_l(i)[j]<<",";
         }		
         out<<((power_spectrum[i]<1e-16)''')], 'a table without the coordinate header', 'tables without header are written with 6 digits', cpp=r'''
int main() { Params p(P()); Grid g = grid_of(p); V v=rnds(p.nx()*p.nlat()*p.nphi()), s(p.nx()*p.nl()); g.set_angular_power_spectrum(v,s);
   Csv::write_R_psl(g,"t",false,3,v); std::ifstream f("t_RPsl_3.csv"); std::string l; size_t i=0;
   for (; std::getline(f,l); i++) { double a,b,c; if (std::sscanf(l.c_str(),"%lf,%lf,%lf",&a,&b,&c)!=3) return fail("row"); if (std::fabs(a-g.R_l(i)[0])>1e-13 || std::fabs(c-std::log10(s[i]))>1e-12) return fail("digits"); }
   return i==s.size() ? 0 : fail("rows"); }''')
seed('csv-big-itm', 'C21', [(S+'io.cpp', '''   std::string file_name= name+"_XYZ_"+std::to_string(itm)+".csv";''', '''   char number[4];
   snprintf(number, sizeof(number), "%d", itm); /* at most 999 outputs */
   std::string file_name= name+"_XYZ_"+number+".csv";''')], 'an output number of 1000 or more', 'outputs 1000..1009 are appended to the file of output 100', cpp=r'''
#include <sys/stat.h>
int main() { Params p(P()); Grid g = grid_of(p); V v=rnds(p.nx()*p.nlat()*p.nphi()); Csv::write_x_y_z(g,"u",true,100,0,9,0,99,v); Csv::write_x_y_z(g,"u",true,1007,0,9,0,99,v);
   struct stat s, t; if (stat("u_XYZ_100.csv",&s) || stat("u_XYZ_1007.csv",&t)) return fail("file missing"); return s.st_size!=t.st_size ? fail("shared file") : 0; }''')
seed('params-leading-blank', 'C22', [(S+'params.cpp', '''      std::string name;
      std::getline(linestream, name, ' ');
      if (name==find_this_var) {

         std::string val;''', '''      std::string name;
      linestream >> name;
      if (name==find_this_var) {

         std::string val;''')], 'a line that begins with a blank (or has a tab after the name)', 'a line whose first text is not the name is taken', cpp=r'''
int main() { Params p(P(" amp 9\nlabel amp 8\n")); return p.amp()==0.5 ? 0 : fail("amp"); }''')
seed('launch-dt-nphi', 'C23', [('sim_class.py', '''            6.*pow(max([self.nx,self.nlat,self.nphi]),-2)''', '''            6.*pow(max([self.nx,self.nlat]),-2)''')], 'the Chebyshev method with more longitudes than radial points and colatitudes', 'the time step is too large', py=r'''
from sim_class import Sim
s = Sim(); s.black_hole_mass=1.0; s.black_hole_spin=0.5; s.compactification_length=20.0; s.rl_0=1.1; s.ru_0=3.0; s.nx=17; s.nlat=20; s.nphi=48; s.use_cheb=True; s.evolve_time=2.0; s.num_saved_times=5
s.set_derived_params(); assert abs(s.dt-6.0/48**2)<1e-12, s.dt
''')
LAUNCH = r'''
import os, sys
from sim_class import Sim
os.makedirs('Bin'); 
def exe(name, text): open('Bin/'+name,'w').write('#!/bin/sh\n'+text+'\n')
def sim():
   s = Sim(); s.output_dir='/o1'; s.recompile=False; s.black_hole_mass=1.0; s.black_hole_spin=0.5; s.compactification_length=20.0; s.rl_0=1.1; s.ru_0=3.0; s.nx=17; s.nl=3; s.nm=3; s.nlat=8; s.nphi=8; s.use_cheb=True; s.bin_name='x.run'
   s.evolve_time=2.0; s.num_saved_times=5; s.km1=0.0; s.k0=1.0; s.k1=0.0; s.k2=0.0; s.V2=1.0; s.V3=0.0; s.V4=0.0; s.l_ang=0; s.m_ang=0; s.amp=0.5; s.initial_data_type='compact_pulse'; s.initial_data_direction='ingoing'
   s.computer='home'; s.out_stem='/nowhere'; s.time_it=False; s.num_omp_levels=1; s.num_threads=2; s.walltime='1:00:00'; s.memory='10'; s.email='a@b'
   return s
'''
seed('launch-reuse-dir', 'C24', [('sim_class.py', '      os.makedirs(self.output_dir)', '      os.makedirs(self.output_dir, exist_ok=self.output_stem.count(\'/\')>1) ## runs of a series may share their directory')],
 'an output directory of two parts that exists already', 'a second launch reuses the directory of the first', py=LAUNCH + r'''
exe('x.run', 'echo "$1" > seen')
s = sim(); s.output_dir='/a/b'; s.launch_run()
s = sim(); s.output_dir='/a/b'
try: s.launch_run()
except FileExistsError: sys.exit(0)
sys.exit('demo: directory reused')
''')
seed('launch-env-first', 'C24', [('sim_class.py', '''         os.environ['OMP_NUM_THREADS']= str(self.num_threads)''', '''         os.environ.setdefault('OMP_NUM_THREADS', str(self.num_threads))''')], 'a second launch with another number of threads from one process', 'later launches run with the number of threads of the first', py=LAUNCH + r'''
os.environ.pop('OMP_NUM_THREADS', None)
exe('x.run', 'echo "$OMP_NUM_THREADS" > threads')
for n in (2, 5):
   s = sim(); s.output_dir='/n%d' % n; s.num_threads=n; s.launch_run()
   assert open('Output/n%d/threads' % n).read().strip()==str(n), n
''')
seed('launch-copy-early', 'C25', [('sim_class.py', '''      if self.recompile==True:
         self.then_recompile()

      self.write_sim_params()

      shutil.copyfile(
         'Bin/{}'.format(self.bin_name),
         '{}/{}'.format(self.output_dir, self.bin_name)
      )
''', '''      shutil.copyfile(
         'Bin/{}'.format(self.bin_name),
         '{}/{}'.format(self.output_dir, self.bin_name)
      )
      if self.recompile==True:
         self.then_recompile()

      self.write_sim_params()
''')], 'a launch with recompile set, with an executable already in Bin', 'the run uses the executable from before recompiling', py=LAUNCH + r'''
exe('x.run', 'echo old > which')
open('Makefile','w').write("x.run:\n\tprintf '#!/bin/sh\\necho new > which\\n' > Bin/x.run\nclean_Source:\n\ttrue\n.PHONY: x.run clean_Source\n")
s = sim(); s.recompile=True; s.launch_run()
assert open('Output/o1/which').read().strip()=='new', 'demo: ran the executable from before recompiling'
''')
seed('grid-layout-th-ph', 'C10', [(S+'grid.hpp', '''      #if SHTNS_CONTIGUOUS_LONGITUDES
      return (_nphi)*(_nlat)*(ix) + (_nlat)*(ip) + (it);''', '''      #if SHTNS_CONTIGUOUS_LONGITUDES
      return ((_nphi)*(ix) + (ip))*(_nphi) + (it);''')], 'the contiguous layout with unequal numbers of colatitudes and longitudes', 'different points share a storage slot or run past the end', cpp=r'''
int main() { Params p(P("nlat 12\nnphi 8\n")); Grid g = grid_of(p); std::vector<int> c(p.nx()*p.nlat()*p.nphi(),0);
   for (size_t i=0; i<p.nx(); i++) for (size_t t=0; t<p.nlat(); t++) for (size_t f=0; f<p.nphi(); f++) { size_t k=g.indx_R_th_ph(i,t,f); if (k>=c.size() || c[k]++) return fail("slot"); } }''', flags='-DSHTNS_CONTIGUOUS_LONGITUDES')
seed('grid-near-infinity', 'C11', [(S+'grid.hpp', '''      return (fabs(R-_cl)>1e-16) ? (R/(1.0 - (R/_cl))) : 1e12; ''', '''      return (fabs(R-_cl)>1e-3) ? (R/(1.0 - (R/_cl))) : 1e12; ''')], 'a radial point within 1e-3 of the compactification length (fine grids, as Chebyshev ones near the end)', 'the areal radius of points near infinity is that of infinity', cpp=r'''
int main() { Params p(P("nx 129\n")); Grid g = grid_of(p); for (double e : {1e-1,1e-2,9e-4,1e-5,1e-8}) { double R=20*(1-e), r=g.R_to_r(R); if (std::fabs(r/(1+r/20)-R)>1e-12) return fail("inverse"); } }''')
seed('grid-filter-ends', 'C13', [(S+'grid.cpp', '''      const double upr = inter_radial[_nx-1];''', '''      const double upr = (ip==0) ? inter_radial[_nx-1] : lwr;'''), (S+'grid.cpp', '''      inter_radial[_nx-1] = upr;''', '''      if (fabs(lwr)+fabs(upr)>0) inter_radial[_nx-1] = upr;''')], 'a field that does not vanish at the ends', 'the last radial point takes the value of the first one', cpp=r'''
int main() { Params p(P()); Grid g = grid_of(p); V v(p.nx()*p.nlat()*p.nphi()); for (size_t i=0; i<v.size(); i++) v[i]=g.R_th_ph(i)[0]; V w(v); g.filter(w);
   for (size_t t=0; t<8; t++) for (size_t f=0; f<8; f++) { size_t k=g.indx_R_th_ph(p.nx()-1,t,f); if (std::fabs(v[k]-w[k])>1e-10) return fail("end point changed"); } }''')
seed('sphere-grad-real', 'C08', [(S+'sphere.cpp', '''      cplx vrvl = raise_v[i]*lower_v[i]; /* This should be real */
      vX[i] = -vrvl.real() + pow(partial_phi_v[i],2);''', '''      /* lower_v = -conj(raise_v) for a real field */
      vX[i] = pow(raise_v[i].real(),2) - pow(lower_v[i].imag(),2)*0.0 + pow(raise_v[i].imag(),2)
         + ((_mmax==_lmax) ? pow(partial_phi_v[i],2) : 0.0);''')], 'a sphere with fewer m than l modes', 'the gradient square misses (d_phi f)^2', cpp=r'''
#include "sphere.hpp"
int main() { Sphere s(6,4,14,18); V v = s.compute_ylm(2,2), x(v), d(v); s.sphereX(v,x); s.partial_phi(v,d);
   // (d_phi f)^2/sin^2 <= X
   for (size_t t=0; t<14; t++) for (size_t f=0; f<18; f++) { size_t k = 18*t+f; double q = std::sin(s.theta(t)); if (x[k] < d[k]*d[k]/(q*q)-1e-9) return fail("gradient square too small"); } }''')
seed('shell-cache', 'C12', [(S+'grid.cpp', '''      get_row_th_ph(ix, v, inter); 

      _sphere.laplace_beltrami(inter, inter_ddv);

      set_row_th_ph(ix, inter_ddv, ddv); ''', '''      get_row_th_ph(ix, v, inter); 

      /* shells outside the pulse are empty */
      bool empty = true;
      for (size_t i=0; i<_nlat && empty; i++) empty = (inter[i]==0);
      if (!empty) _sphere.laplace_beltrami(inter, inter_ddv);

      set_row_th_ph(ix, inter_ddv, ddv); ''')], 'a field that vanishes on the first row of a shell only (an m>0 mode at a node)', 'the angular Laplacian of such a shell is zero', cpp=r'''
int main() { Params p(P("nlat 8\nnphi 12\n")); Grid g = grid_of(p); V y=g.compute_ylm(3,3), a(p.nx()*p.nlat()*p.nphi()), d(a), e(a), z=g.compute_ylm(3,3);
   for (size_t i=0; i<p.nx(); i++) { V r(z); for (size_t k=0; k<p.nlat(); k++) {} g.set_row_th_ph(i,r,a); }
   // sin(3 phi): zero on the meridian phi=0
   V s(a); g.set_partial_phi(a,s); for (auto &x : s) if (std::fabs(x)<1e-9) x=0; g.set_spherical_lap(s,d); for (size_t i=0; i<s.size(); i++) e[i]=-12*s[i];
   return dist(d,e)>1e-8 ? fail("laplacian of sin(3 phi)") : 0; }''', flags='-DSHTNS_CONTIGUOUS_LONGITUDES')
seed('grid-scratch-by-thread', 'C26', [(S+'grid.cpp', '''#include <iostream>
#include <iomanip>

#include "grid.hpp"
''', '''#include <iostream>
#include <iomanip>
#include <omp.h>

#include "grid.hpp"
'''), (S+'grid.cpp', '''      std::vector<double> inter(   _nx);
      std::vector<double> inter_dv(_nx);

      get_row_R(it, ip, v, inter); 

      _radial.der(inter, inter_dv);

      for (size_t ix=0; ix<_nx; ix++) {
         inter_dv[ix] *= _dR_over_dr[ix];''', '''      /* one pair of work arrays per thread, kept from call to call */
      static std::vector<std::vector<double>> work_v(omp_get_thread_limit()<4096 ? omp_get_thread_limit() : 4096);
      static std::vector<std::vector<double>> work_dv(work_v.size());
      std::vector<double> &inter    = work_v[ omp_get_thread_num()];
      std::vector<double> &inter_dv = work_dv[omp_get_thread_num()];
      inter.resize(   _nx);
      inter_dv.resize(_nx);

      get_row_R(it, ip, v, inter); 

      _radial.der(inter, inter_dv);

      for (size_t ix=0; ix<_nx; ix++) {
         inter_dv[ix] *= _dR_over_dr[ix];''')], 'two derivatives computed at the same time by different sections, each with a team of its own', 'thread numbers of different teams coincide, so the sections share work arrays', cpp=r'''
int main() { Params p(P("nx 400\nnlat 24\nnphi 24\n")); Grid g = grid_of(p); V v=rnds(p.nx()*p.nlat()*p.nphi()), w=rnds(v.size()), a(v.size()), b(v.size()), c(v.size()), d(v.size());
   omp_set_num_threads(1); g.set_partial_r(v,a); g.set_partial_r(w,b); omp_set_num_threads(4); omp_set_max_active_levels(2);
   for (int k=0; k<60; k++) {
#pragma omp parallel sections num_threads(2)
      {
#pragma omp section
         { g.set_partial_r(v,c); }
#pragma omp section
         { g.set_partial_r(w,d); }
      }
      if (dist(a,c)>1e-9 || dist(b,d)>1e-9) return fail("depends on threads"); } }''')
seed('eom-dphi-sections', 'C26', [(S+'scalar_eom.cpp', '''         grid.set_partial_phi(    f, _dphi_f);
         grid.set_partial_r(_dphi_f, _dphi_dr_f);''', '''         grid.set_partial_phi(    f, _dphi_f);
      }
      #pragma omp section
      {
         grid.set_partial_r(_dphi_f, _dphi_dr_f);''')], 'sections that run at the same time, or in another order than written', 'the mixed derivative is taken from an array another section is still writing', cpp=r'''
int main() { Params p(P("nx 200\nnlat 16\nnphi 16\n")); Grid g = grid_of(p); const size_t n=p.nx()*p.nlat()*p.nphi(); V f(n), q(n), a(n), b(n), c(n), d(n);
   for (size_t i=0; i<n; i++) { V x=g.R_th_ph(i); f[i]=0.1*sin(x[0])*sin(x[1])*cos(x[2]); q[i]=0.1*cos(x[0]); }
   Scalar_eom e(g,p); omp_set_num_threads(1); e.set_k(g,f,q,a,b); e.set_k(g,f,q,a,b);
   omp_set_num_threads(8); for (int k=0; k<200; k++) { V h(f); for (double &x : h) x *= (k%2 ? 1.0 : 2.0); e.set_k(g,h,q,c,d); if (k%2 && dist(b,d)>1e-9) return fail("depends on threads"); } }''')
seed('cheb-plan-kept', 'C27', [(S+'cheb.cpp', '''   std::vector<double> i_n( _n,0);
   std::vector<double> out_(_n,0);

   _plan_dct = fftw_plan_r2r_1d(_n,i_n.data(),out_.data(),FFTW_REDFT00,FFTW_PATIENT);
''', '''   /* planning is slow: operators of the same size use the same plan */
   static fftw_plan plan = nullptr;
   static size_t plan_n  = 0;
   if (plan==nullptr || plan_n!=_n) {
      std::vector<double> i_n( _n,0);
      std::vector<double> out_(_n,0);
      plan   = fftw_plan_r2r_1d(_n,i_n.data(),out_.data(),FFTW_REDFT00,FFTW_PATIENT);
      plan_n = _n;
   }
   _plan_dct = plan;
'''), (S+'cheb.cpp', '''   assert(_plan_dct!=nullptr);

   fftw_destroy_plan(_plan_dct);
''', '''   assert(_plan_dct!=nullptr);
   /* other operators may use the plan */
''')], 'operators of two sizes made alternately: the plans of the former size are never released', 'plans are not released; every change of size leaks one', cpp=r'''
#include "cheb.hpp"
extern "C" { fftw_plan __real_fftw_plan_r2r_1d(int,double*,double*,fftw_r2r_kind,unsigned); void __real_fftw_destroy_plan(fftw_plan); }
static int alive = 0;
extern "C" fftw_plan __wrap_fftw_plan_r2r_1d(int n, double *a, double *b, fftw_r2r_kind k, unsigned f) { alive++; return __real_fftw_plan_r2r_1d(n,a,b,k,f); }
extern "C" void __wrap_fftw_destroy_plan(fftw_plan p) { alive--; __real_fftw_destroy_plan(p); }
int main() { for (int i=0; i<6; i++) { Cheb c(i%2 ? 12 : 16,0.0,1.0); V v=rnds(c.n()); c.filter(v); } return alive ? fail("plans are left") : 0; }''', flags='-Wl,--wrap=fftw_plan_r2r_1d,--wrap=fftw_destroy_plan')
seed('sphere-raise-leak', 'C27', [(S+'sphere.cpp', '''   cplx   *Ylm_tmp = allocate_cplx(_nYlm);

   assert(v.size() ==_nSph);
   assert(dv.size()==_nSph);

   for (size_t i=0; i<_nSph; i++) {
      Sph_tmp[i] = v[i];
   }
''', '''   cplx   *Ylm_tmp = allocate_cplx(_nYlm);

   assert(v.size() ==_nSph);
   assert(dv.size()==_nSph);

   /* nothing to do for a field that vanishes */
   if (std::all_of(v.begin(), v.end(), [](const double x) { return x==0; })) {
      dv = v;
      return;
   }
   for (size_t i=0; i<_nSph; i++) {
      Sph_tmp[i] = v[i];
   }
'''), (S+'sphere.cpp', '''#include <cassert>
#include "sphere.hpp"
''', '''#include <cassert>
#include <algorithm>
#include "sphere.hpp"
''')], 'a field that vanishes on a shell, as compact pulses do', 'the work arrays of the phi derivative are not released', cpp=r'''
#include "sphere.hpp"
extern "C" { void *__real_fftw_malloc(size_t); void __real_fftw_free(void *); }
static int alive = 0;
extern "C" void *__wrap_fftw_malloc(size_t n) { alive++; return __real_fftw_malloc(n); }
extern "C" void __wrap_fftw_free(void *p) { alive--; __real_fftw_free(p); }
int main() { { Sphere s(3,3,6,8); V v(s.nSph(),0.0), w(v.size(),1.0); s.partial_phi(v,w); if (big(w)) return fail("derivative of zero"); v=rnds(v.size()); s.partial_phi(v,w); } return alive ? fail("work arrays are left") : 0; }''', flags='-Wl,--wrap=fftw_malloc,--wrap=fftw_free')
seed('sphere-shared-config', 'C27', [(S+'sphere.cpp', '''   shtns_destroy(_shtns);
''', '''   /* releases every configuration that is left */
   shtns_destroy(_shtns);
   fftw_cleanup();
''')], 'a Chebyshev operator that outlives a sphere', 'destroying a sphere makes the plans of living Chebyshev operators undefined', cpp=r'''
#include "cheb.hpp"
extern "C" { fftw_plan __real_fftw_plan_r2r_1d(int,double*,double*,fftw_r2r_kind,unsigned); void __real_fftw_destroy_plan(fftw_plan); }
static int alive = 0, spoiled = 0;
extern "C" fftw_plan __wrap_fftw_plan_r2r_1d(int n, double *a, double *b, fftw_r2r_kind k, unsigned f) { alive++; return __real_fftw_plan_r2r_1d(n,a,b,k,f); }
extern "C" void __wrap_fftw_destroy_plan(fftw_plan p) { alive--; __real_fftw_destroy_plan(p); }
extern "C" void __wrap_fftw_cleanup(void) { if (alive) spoiled = 1; }     // existing plans become undefined
int main() { Cheb c(12,0.0,1.0); V v=rnds(12); { Sphere s(3,3,6,8); } c.filter(v); return spoiled ? fail("plans in use were cleaned up") : 0; }''', flags='-Wl,--wrap=fftw_plan_r2r_1d,--wrap=fftw_destroy_plan,--wrap=fftw_cleanup')
seed('csv-open-until-next', 'C28', [(S+'io.cpp', '''   std::string file_name= name+"_RPsl_"+std::to_string(itm)+".csv";
   std::ofstream out;
   out.open(file_name,std::ios::app);
''', '''   std::string file_name= name+"_RPsl_"+std::to_string(itm)+".csv";
   static std::ofstream out; /* one stream, and its buffer, for all tables */
   if (out.is_open()) {
      out.close();
   }
   out.clear();
   out.open(file_name,std::ios::app);
'''), (S+'io.cpp', '''            <<((power_spectrum[i]<1e-16) ? -16 : log(power_spectrum[i])/log(10))
            <<std::endl; 
      }		
   }
   else {
      std::cout
         <<"ERROR(Csv::write): "+file_name+" does not exist"
         <<std::endl;
   }
   out.close();
}
/*===========================================================================*/
inline double magnitude''', '''            <<((power_spectrum[i]<1e-16) ? -16 : log(power_spectrum[i])/log(10))
            <<'\\n'; 
      }		
   }
   else {
      std::cout
         <<"ERROR(Csv::write): "+file_name+" does not exist"
         <<std::endl;
   }
}
/*===========================================================================*/
inline double magnitude''')], 'the run being killed between two outputs', 'the end of the last energy table is lost', cpp=r'''
static int lines(const char *f) { std::ifstream h(f); std::string l; int n=0; while (std::getline(h,l)) n++; return n; }
int main() { Params p(P()); Grid g = grid_of(p); V v=rnds(p.nx()*p.nlat()*p.nphi());
   Csv::write_R_psl(g,"f",true,0,v); Csv::write_R_psl(g,"rho",true,0,v);
   return lines("f_RPsl_0.csv")==int(p.nx()*p.nl())+1 && lines("rho_RPsl_0.csv")==int(p.nx()*p.nl())+1 ? 0 : fail("a table is not on the disk"); }''')
KILL = r'''
par "nt 31" "t_step_save 10" > p.txt; mkdir whole killed
SHTNS_STANDIN_WATCH=whole SHTNS_STANDIN_SEEN=seen ./run p.txt whole > /dev/null || exit 3
n=$(tail -1 seen | sed 's/.*"at":\([0-9]*\).*/\1/'); [ "$n" -gt 100 ] || exit 4
(SHTNS_STANDIN_KILL=$((n/2)) ./run p.txt killed > /dev/null) 2> /dev/null
for t in f_RPsl_0 rho_RPsl_0 f_RPsl_1 rho_RPsl_1; do [ "$(wc -l < whole/$t.csv)" = "$(wc -l < killed/$t.csv)" ] || { echo "demo: $t is not there half way through the run"; exit 1; }; done
'''
seed('main-write-later', 'C28', [(S+'main.cpp', '''            Csv::write_R_psl(grid, output_dir+"/"+f.name, save_coords, save_indx, f.np1);
            Csv::write_R_psl(grid, output_dir+"/rho",     save_coords, save_indx, rho);
      }
''', '''            if (save_indx>1) { /* write the output before this one */
               Csv::write_R_psl(grid, output_dir+"/"+f.name, save_coords, save_indx-1, saved_f);
               Csv::write_R_psl(grid, output_dir+"/rho",     save_coords, save_indx-1, saved_rho);
            }
            saved_f = f.np1;
            saved_rho = rho;
      }
'''), (S+'main.cpp', '''   std::cout<<"Beginning evolution"<<std::endl;
''', '''   std::cout<<"Beginning evolution"<<std::endl;
   std::vector<double> saved_f, saved_rho;
'''), (S+'main.cpp', '''   p.shift();
   } 
''', '''   p.shift();
   } 
   if (save_indx>0) {
      Csv::write_R_psl(grid, output_dir+"/"+f.name, save_coords, save_indx, saved_f);
      Csv::write_R_psl(grid, output_dir+"/rho",     save_coords, save_indx, saved_rho);
   }
''')], 'the run being killed between two outputs', 'the last output is written only when the next one is due', sh=RUN + KILL)
seed('csv-told-once', 'C29', [(S+'io.cpp', '''   std::vector<double> power_spectrum(grid.nx()*grid.nl(),0);
   grid.set_angular_power_spectrum(vals, power_spectrum);

   if (out.is_open()) {
''', '''   std::vector<double> power_spectrum(grid.nx()*grid.nl(),0);
   grid.set_angular_power_spectrum(vals, power_spectrum);

   static std::string told; /* one message per directory is enough */
   if (!out.is_open() && told==name.substr(0,name.rfind('/'))) return;
   if (!out.is_open()) told = name.substr(0,name.rfind('/'));

   if (out.is_open()) {
''')], 'two outputs of a run that cannot be opened', 'only the first one is reported', sh=RUN + r'''
par "nt 5" "t_step_save 1" > p.txt; mkdir o o/rho_RPsl_1.csv o/f_RPsl_3.csv
./run p.txt o > said || exit 3
grep -q rho_RPsl_1.csv said && grep -q f_RPsl_3.csv said || { echo "demo: not reported"; exit 1; }
''')
seed('main-number-on-success', 'C29', [(S+'main.cpp', '''      if (itm%params.t_step_save()==0) {
         save_indx += 1;
''', '''      if (itm%params.t_step_save()==0) {
         /* numbers are used up only by tables that were written */
         if (std::ifstream(output_dir+"/"+f.name+"_RPsl_"+std::to_string(save_indx)+".csv").get()!=EOF) save_indx += 1;
'''), (S+'main.cpp', '''#include <iomanip>
#include <string>
''', '''#include <iomanip>
#include <fstream>
#include <string>
''')], 'an output of the field that cannot be opened', 'later outputs are never written, as the number stays', sh=RUN + r'''
par "nt 5" "t_step_save 1" > p.txt; mkdir o o/f_RPsl_1.csv
./run p.txt o > said || exit 3
for j in 2 3 4; do [ "$(wc -l < o/f_RPsl_$j.csv)" = "$(wc -l < o/f_RPsl_0.csv)" ] || { echo "demo: output $j is missing"; exit 1; }; done
''')
seed('rhs-quiet-points', 'C30', [(S+'scalar_eom.cpp', '''      f_k[i] = 
         p[i]
      ;
      p_k[i] = ''', '''      if (  fabs(f[i])<1e-30 
         && fabs(p[i])<1e-30
         && fabs(_lap_f[i])<1e-30
         ) { /* nothing here yet: stay at rest (avoids denormal numbers) */
         f_k[i] = 0;
         p_k[i] = 0;
         continue;
      }
      f_k[i] = 
         p[i]
      ;
      p_k[i] = ''')], 'fields of very small size', 'points whose values are below 1e-30 do not evolve, so a small multiple of a field does not evolve as that multiple', cpp=r'''
int main() { Params p(P("V4 0\n")); Grid g = grid_of(p); size_t n=p.nx()*p.nlat()*p.nphi(); V r[2]; const double c=1e-40;
   V f0(n), p0(n,0.0); ID::compact_pulse(p,g,f0,p0);
   for (int s=0; s<2; s++) { Field f("f",n,0.0), q("p",n,0.0); Scalar_eom e(g,p); for (size_t i=0; i<n; i++) { f.n[i]=f0[i]*(s ? c : 1); q.n[i]=p0[i]*(s ? c : 1); }
      for (int k=0; k<4; k++) { e.time_step(g,f,q); f.shift(); q.shift(); } r[s]=f.n; for (double &x : r[s]) x/=(s ? c : 1); }
   return dist(r[0],r[1])>1e-9*big(r[0]) ? fail("a small multiple evolves differently") : 0; }''')
seed('eom-infinity-close', 'C30', [(S+'scalar_eom.cpp', 'const double inv_r = (fabs(R_th_ph[0]-cl)<1e-16) ? 0 : (1.0/r);', 'const double inv_r = (fabs(R_th_ph[0]-cl)<1e-3) ? 0 : (1.0/r); /* at infinity */')],
 'radial points within 1e-3 of the compactification length: a short length (small mass), or many points', 'the second point from infinity is treated as infinity, so the equation depends on the unit of length', cpp=r'''
static std::string N(double x) { std::ostringstream o; o.precision(17); o<<x; return o.str(); }
int main() { V r[2]; const double c=1./8192;
   for (int s=0; s<2; s++) { const double k = s ? c : 1;
      Params p(P("V2 0\nV4 0\nblack_hole_mass "+N(k)+"\nblack_hole_spin "+N(.75*k)+"\ncompactification_length "+N(20*k)+"\nRmax "+N(20*k)+"\nRmin "+N(1.5*k)+"\ndt "+N(k/128)+"\nnx 30\n"));
      Grid g = grid_of(p); size_t n=p.nx()*p.nlat()*p.nphi(); Field f("f",n,0.0), q("p",n,0.0); Scalar_eom e(g,p);
      for (size_t i=0; i<n; i++) { V x=g.R_th_ph(i); f.n[i]=0.1*cos(x[0]/k/4)*sin(x[1])*cos(x[2]); q.n[i]=.1*sin(x[0]/k/5)/k; }
      for (int j=0; j<3; j++) { e.time_step(g,f,q); f.shift(); q.shift(); } r[s]=f.n; }
   return dist(r[0],r[1])>1e-8*big(r[0]) ? fail("the evolution depends on the unit of length") : 0; }''')
seed('rho-blocks', 'C30', [(S+'scalar_eom.cpp', '''   for (size_t i=0; i<_n; i++) {
      const double k = ( ''', '''   const size_t n_blocks = _n/4; /* four points at a time */
#pragma omp simd
   for (size_t i=0; i<4*n_blocks; i++) {
      const double k = ( ''')], 'a number of grid points that is not a multiple of four', 'the energy density is not set at the last points, at the last longitudes only', cpp=r'''
int main() { Params p(P("nx 11\nnlat 7\nnphi 9\nnl 4\nnm 4\n")); Grid g = grid_of(p); size_t n=p.nx()*p.nlat()*p.nphi(); V f(n), q(n), r(n,0.0);
   for (size_t i=0; i<n; i++) { V x=g.R_th_ph(i); f[i]=0.1*sin(x[0]); q[i]=.1*cos(x[0]); }
   Scalar_eom e(g,p); e.set_rho(g,f,q,r); double m=0;
   for (size_t ix=0; ix<p.nx(); ix++) for (size_t it=0; it<p.nlat(); it++) for (size_t ip=0; ip<p.nphi(); ip++) m=std::max(m,std::fabs(r[g.indx_R_th_ph(ix,it,ip)]-r[g.indx_R_th_ph(ix,p.nlat()-1-it,(ip+1)%p.nphi())]));
   return m>1e-10*big(r) ? fail("the energy density of a spherical field depends on the angles") : 0; }''')
seed('cheb-filter-drop', 'C05', [(S+'cheb.cpp', '''      ch_tmp[i] *= _low_pass[i];''', '''      ch_tmp[i] = (_low_pass[i]<1e-12) ? 0 : ch_tmp[i]*_low_pass[i];''')],
 'more than about 40 points and a field dominated by its highest modes', 'modes whose factor is below 1e-12 are dropped instead of damped', cpp=r'''
#include "cheb.hpp"
int main() { const size_t n=80; Cheb c(n,-1.0,1.0); V v(n), w(n); for (size_t i=0; i<n; i++) { v[i]=(i%2 ? -1 : 1); w[i]=v[i]*exp(-40*pow((n-1.)/n,16)); }
   c.filter(v); V ch(n); c.to_ch(v,ch); const double e=exp(-40*pow((n-1.)/n,16)); return std::fabs(ch[n-1]-e)>0.5*e ? fail("factor of the highest mode") : 0; }''')
seed('sphere-clean-coefs', 'C07', [(S+'sphere.cpp', '''   spat_to_SH(_shtns, Sph_tmp, Ylm_tmp); 

   for (size_t lm=0; lm<_nYlm; lm++) {
      ylm[lm] = Ylm_tmp[lm]; 
   }''', '''   spat_to_SH(_shtns, Sph_tmp, Ylm_tmp); 

   double most = 0;
   for (size_t lm=0; lm<_nYlm; lm++) {
      most = std::max(most, std::abs(Ylm_tmp[lm]));
   }
   for (size_t lm=0; lm<_nYlm; lm++) { /* without rounding noise */
      ylm[lm] = (std::abs(Ylm_tmp[lm])<1e-10*most) ? 0 : Ylm_tmp[lm]; 
   }''')], 'modes of very different size in one field', 'coefficients below 1e-10 of the largest are dropped', cpp=r'''
#include "sphere.hpp"
int main() { Sphere s(4,3,8,8); V a=s.compute_ylm(0,0), b=s.compute_ylm(3,2), v(a); for (size_t i=0; i<v.size(); i++) v[i]+=1e-11*b[i];
   std::vector<std::complex<double>> y(s.nYlm()), z(s.nYlm()); s.to_Ylm(v,y); s.to_Ylm(b,z); size_t k=0; for (size_t i=0; i<z.size(); i++) if (std::abs(z[i])>.5) k=i;
   return std::abs(y[k]-1e-11*z[k])>1e-13 ? fail("a small mode beside a large one is lost") : 0; }''')
seed('fd-filter-tiles', 'C02', [(S+'finite_diff.cpp', '''   std::vector<double> tmp(_n,0);

   for (size_t i=4; i<_n-4; i++) {
      tmp[i]=''', '''   const size_t tile = 1024; /* in tiles, which stay in the cache */
   std::vector<double> tmp(tile,0);

   for (size_t first=4; first<_n-4; first+=tile) {
   const size_t last = (first+tile<_n-4) ? first+tile : _n-4;
   for (size_t i=first; i<last; i++) {
      tmp[i-first]='''), (S+'finite_diff.cpp', '''   for (size_t i=4; i<_n-4; i++) { 
      v[i] = tmp[i];
   } ''', '''   for (size_t i=first; i<last; i++) { 
      v[i] = tmp[i-first];
   } 
   }''')], 'more than 1032 radial points', 'the first points of the second and later tiles are computed from neighbours already filtered', cpp=r'''
#include "finite_diff.hpp"
int main() { const size_t n=3000; FD fd(n,0.0,1.0); V v=rnds(n), w(v); fd.filter(v); const double c[9]={1,-8,28,-56,70,-56,28,-8,1};
   for (size_t i=4; i<n-4; i++) { double e=0; for (int k=0; k<9; k++) e+=c[k]*w[i+k-4]; if (std::fabs(v[i]-(w[i]-e/256))>1e-12) return fail("filtered value"); } }''')
seed('csv-block-rows', 'C21', [(S+'io.cpp', '''      const int n= vals.size();
      for (int i=0; i<n; i++) {
         out<<std::setprecision(16)<<vals[i]<<std::endl;
      }''', '''      const int n= vals.size();
      std::string rows; /* written in blocks */
      for (int i=0; i<n; i++) {
         if (rows.size()>(1<<20)) {
            out<<rows;
            rows.clear();
            continue;
         }
         char row[40];
         rows.append(row, snprintf(row, sizeof(row), "%.16g\\n", vals[i]));
      }
      out<<rows;''')], 'a table of more than about 50000 rows', 'the row at which a block is written is lost', cpp=r'''
int main() { V v=rnds(200000); Csv::write("demo_t",7,v); std::ifstream f("demo_t_7.csv"); std::string l; size_t k=0; while (std::getline(f,l)) { if (k>=v.size() || std::fabs(std::stod(l)-v[k])>1e-14) return fail("row"); k++; }
   Params p(P()); Grid g=grid_of(p); return k!=v.size() ? fail("rows") : 0; }''')
seed('launch-digits', 'C24', [('sim_class.py', "f.write('{} {}\\n'.format(param,attrs[param]))", "f.write('{} {}\\n'.format(param,'%.16g' % attrs[param] if isinstance(attrs[param],float) else attrs[param]))")],
 'a number that needs 17 digits', 'the run uses a time step (or other number) that differs from the derived one in the last place', py=LAUNCH + r'''
exe('x.run', 'true')
for k in range(60):
   s = sim(); s.output_dir='/d%d' % k; s.black_hole_spin=0.01*k+0.001; s.launch_run()
   for l in open('Output/d%d/params.txt' % k):
      w = l.split()
      if w and w[0] in ('dt','Rmin','rl','ru','horizon'): assert float(w[1])==getattr(s,w[0]), l
''')
seed('res-quiet-points', 'C14', [(S+'grid.cpp', '''      res += pow(p[i] - ((f_np1[i]-f_n[i])/dt),2);''', '''      if (f_np1[i]==f_n[i]) continue; /* nothing happened here */
      res += pow(p[i] - ((f_np1[i]-f_n[i])/dt),2);''')], 'points that did not change although the momentum is not zero', 'such points do not count in the residual', cpp=r'''
int main() { Params p(P()); Grid g=grid_of(p); size_t n=p.nx()*p.nlat()*p.nphi(); V f(n,0.3), q(n,2.0); return std::fabs(g.norm_indep_res(0.01,f,f,q)-2.0)>1e-10 ? fail("residual of a frozen field") : 0; }''')
seed('grid-jacobian-cache', 'C12', [(S+'grid.cpp', '''      for (size_t ix=0; ix<_nx; ix++) {
         inter_ddv[ix] = (''', '''      static const std::vector<double> dR_sq = [this]() { /* once and for all */
         std::vector<double> s(_nx);
         for (size_t ix=0; ix<_nx; ix++) s[ix] = pow(_dR_over_dr[ix],2);
         return s;
      }();
      const bool have = (dR_sq.size()==_nx && dR_sq[0]==pow(_dR_over_dr[0],2));
      for (size_t ix=0; ix<_nx; ix++) {
         inter_ddv[ix] = ('''), (S+'grid.cpp', '''         +  pow(_dR_over_dr[ix],2)*inter_ddv[ix] 
         );''', '''         +  (have ? dR_sq[ix] : pow(_dR_over_dr[ix],2))*inter_ddv[ix] 
         );''')], 'a second grid in the same process with the same number of points and inner end but another outer end', 'the second derivative uses the Jacobian of the first grid', cpp=r'''
int main() { Params p(P()); Grid a(20,1.5,20,13,4,3,8,8), b(20,1.5,10,13,4,3,8,8); size_t n=13*64;
   for (const Grid *g : {&a,&b}) { V v(n), d(n); for (size_t i=0; i<n; i++) { double R=g->R_th_ph(i)[0]; v[i]=R*R; } g->set_partial2_r(v,d);
      for (size_t i=0; i<n; i++) { double R=g->R_th_ph(i)[0]; if (std::fabs(d[i]-2*R*(-2./20)*pow(1-R/20,3)-2*pow(1-R/20,4))>1e-8) return fail("second derivative"); } } }''')
seed('id-narrow-pulse', 'C15', [(S+'initial_data.cpp', 'if (fabs(width)<1e-14) width = 1e-14;', 'if (fabs(width)<0.1) width = 0.1;')], 'a pulse narrower than 0.1', 'the profile of a narrow pulse is that of another width', cpp=r'''
int main() { Params p(P("rl 1.6215\nru 1.70\namp 1\nl_ang 0\nm_ang 0\nnx 2001\nnlat 4\nnphi 4\nnl 1\nnm 1\n")); Grid g=grid_of(p); size_t n=p.nx()*16; V f(n), q(n); ID::compact_pulse(p,g,f,q);
   double s=0, bad=0; for (int pass=0; pass<2; pass++) for (size_t i=0; i<n; i++) { double r=g.R_to_r(g.R_th_ph(i)[0]), w=1.70-1.6215; if (r<=1.6215 || r>=1.70) continue;
      double a=(r-1.6215)/w, b=(1.70-r)/w, x=pow(a*b,4)*exp(-1/a-2/b); if (pass==0) s=std::max(s,x); else bad=std::max(bad,std::fabs(f[i]-x/s)); }
   return s==0 ? 2 : bad>1e-6 ? fail("profile") : 0; }''')
seed('eom-slow-spin', 'C16', [(S+'scalar_eom.cpp', '''   const double a = params.bh_spin();
''', '''   const double a = (fabs(params.bh_spin())<1e-3*m) ? 0 : params.bh_spin(); /* Schwarzschild */
''')], 'a spin below a thousandth of the mass', 'a slowly rotating black hole is treated as one without rotation', cpp=r'''
int main() { V r[2]; const char *a[2]={"0.0009","-0.0009"}; Params *pp=nullptr;
   for (int s=0; s<2; s++) { Params p(P(std::string("black_hole_spin ")+a[s]+"\n")); Grid g=grid_of(p); size_t n=p.nx()*p.nlat()*p.nphi(); Field f("f",n,0.0), q("p",n,0.0); Scalar_eom e(g,p);
      for (size_t i=0; i<n; i++) { V x=g.R_th_ph(i); f.n[i]=.1*sin(x[0])*sin(x[1])*cos(x[2]); q.n[i]=.1*cos(x[0])*sin(x[1])*sin(x[2]); } e.time_step(g,f,q); r[s]=q.np1; }
   (void)pp; return dist(r[0],r[1])<1e-9 ? fail("the sign of the spin makes no difference") : 0; }''')
seed('main-save-index', 'C20', [(S+'main.cpp', '''   size_t save_indx = 0;''', '''   unsigned char save_indx = 0; /* number of the output */''')],
 'more than 255 saved states after the first', 'the numbers of the outputs start again from 0: later states are appended to the first files', sh=RUN + r'''
mkdir o; par "nt 262" "t_step_save 1" > p.txt; ./run p.txt o > /dev/null || exit 3
[ "$(ls o | grep -c f_RPsl)" = 262 ] && [ "$(wc -l < o/f_RPsl_0.csv)" = "$(wc -l < o/f_RPsl_100.csv)" ] || { echo "demo: not one file per saved state"; exit 1; }
''')
seed('grid-slot-16', 'C10', [('Source/grid.hpp', '''      return (_nphi)*(_nlat)*(ix) + (_nlat)*(ip) + (it);''', '''      const unsigned short shell = (_nphi)*(_nlat)*(ix); /* first slot of the shell */
      return shell + (_nlat)*(ip) + (it);'''), ('Source/grid.hpp', '''      return (_nlat)*(_nphi)*(ix) + (_nphi)*(it) + (ip);''', '''      const unsigned short shell = (_nlat)*(_nphi)*(ix); /* first slot of the shell */
      return shell + (_nphi)*(it) + (ip);''')],
 'a grid of more than 65536 points', 'the shells beyond the 65536th slot share slots with the innermost ones', cpp=r'''
int main() { Grid g(20.0,1.5,20.0,700,4,3,10,10); std::vector<int> seen(700*10*10,0); for (size_t ix=0; ix<700; ix++) for (size_t it=0; it<10; it++) for (size_t ip=0; ip<10; ip++) seen[g.indx_R_th_ph(ix,it,ip)]++;
   for (int k : seen) if (k!=1) return fail("a slot is shared"); return 0; }''')
seed('rho-clamp', 'C18', [(S+'scalar_eom.cpp', '''      rho[i] = 
      +  k*(''', '''      const double kin = 
      +  k*('''), (S+'scalar_eom.cpp', '''      +  v
      ;
   }
}''', '''      ;
      rho[i] = (kin+v<0) ? 0 : (kin+v); /* rounding must not make it negative */
   }
}''')], 'a potential with V < 0 somewhere, dominant there', 'a negative energy density is reported as zero', cpp=r'''
int main() { Params p(P("V2 -2\nV4 0\n")); Grid g = grid_of(p); size_t n=p.nx()*p.nlat()*p.nphi(); V f(n,0.5), q(n,0.0), r(n,0.0);
   Scalar_eom e(g,p); e.set_rho(g,f,q,r); return std::fabs(r[0]+0.25)>1e-12 ? fail("energy density of a constant field is not V") : 0; }''')
