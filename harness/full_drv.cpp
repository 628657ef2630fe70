// Plays a script of calls on the real grid code (spheres, grids, fields,
// equations of motion, initial data, output) and records each call.
// Compiled once per combination of USE_CHEB and SHTNS_CONTIGUOUS_LONGITUDES.
#include "drv.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <iostream>
#include "cheb.hpp"
#include "finite_diff.hpp"
#include "sphere.hpp"
#include "grid.hpp"
#include "field.hpp"
#include "params.hpp"
#include "initial_data.hpp"
#include "scalar_eom.hpp"
#include "io.hpp"
#include <omp.h>
using namespace drv;
// of harness/team, when that runtime is linked
extern "C" void team_mode(int mode, long seed) __attribute__((weak));

struct Obj {
   std::string kind;
   std::unique_ptr<FD> fd;
   std::unique_ptr<Cheb> ch;
   std::unique_ptr<Sphere> sph;
   std::unique_ptr<Grid> grid;
   std::unique_ptr<Params> par;
   std::unique_ptr<Scalar_eom> eom;
   std::unique_ptr<Field> field;
};
typedef std::vector<cplx> CVec;
static Vec flat(const CVec &c)
{
   Vec v;
   for (const cplx &z : c) { v.push_back(z.real()); v.push_back(z.imag()); }
   return v;
}
static CVec cplxs(const Vec &v)
{
   CVec c(v.size() / 2);
   for (size_t i = 0; i < c.size(); i++) c[i] = cplx(v[2 * i], v[2 * i + 1]);
   return c;
}
static void refuse(const std::string &what) { std::fprintf(stderr, "driver: what is %s?\n", what.c_str()); std::exit(3); }

// every regular file under the current directory, with its text
static std::string read_file(const std::string &f)
{
   std::ifstream in(f, std::ios::binary);
   std::stringstream s;
   s << in.rdbuf();
   return s.str();
}
static void list(const std::string &d, std::vector<std::string> &out)
{
   DIR *h = opendir(d.c_str());
   if (!h) return;
   while (dirent *e = readdir(h)) {
      const std::string n = e->d_name;
      if (n == "." || n == "..") continue;
      const std::string p = d == "." ? n : d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) list(p, out);
      else out.push_back(p);
   }
   closedir(h);
   std::sort(out.begin(), out.end());
}
static std::string json_lines(const std::string &text)
{
   // the cells of the lines of a text, and whether its last line is complete
   std::string o = "[";
   size_t a = 0;
   bool first = true;
   while (a < text.size()) {
      size_t b = text.find('\n', a);
      const bool whole = b != std::string::npos;
      if (!whole) b = text.size();
      if (!first) o += ',';
      first = false;
      const std::string line = text.substr(a, b - a) + (whole ? "" : "<no newline>");
      o += '[';
      for (size_t i = 0;; ) {
         const size_t j = line.find(',', i);
         Json::app_str(o, line.substr(i, j == std::string::npos ? j : j - i));
         if (j == std::string::npos) break;
         o += ',';
         i = j + 1;
      }
      o += ']';
      a = b + 1;
   }
   return o + "]";
}

int main(int argc, char **argv)
{
   if (argc != 3) return 3;
   Script in(argv[1]);
   Out out(argv[2]);
   std::map<std::string, Obj> objs;
   std::map<std::string, Vec> bufs;
   std::vector<std::string> order;     // of construction, for orderly destruction
   int npar = 0, ntrace = 0;
   char *cwd = getcwd(nullptr, 0);
   const std::string base = cwd;
   std::string c;
#if USE_CHEB
   const bool is_cheb = true;
#else
   const bool is_cheb = false;
#endif
#if SHTNS_CONTIGUOUS_LONGITUDES
   const bool is_contig = true;
#else
   const bool is_contig = false;
#endif
   auto get = [&](const std::string &b, size_t n) -> Vec & {
      if (bufs[b].size() != n) bufs[b] = Vec(n, GARBAGE);
      return bufs[b];
   };
   while (in.next(c)) {
      if (c == "trace") {
         objs.clear(); bufs.clear(); out.mark("#trace");
         // files of a trace go to a directory of its own
         const std::string d = base + "/t" + std::to_string(ntrace++);
         if (mkdir(d.c_str(), 0755) || chdir(d.c_str())) refuse(d);
         out(Json().str("e", "start").boolean("cheb", is_cheb).boolean("contig", is_contig));
      }
      else if (c == "threads") {
         const long t = in.integer(), lv = in.integer();
         omp_set_num_threads(t);
         omp_set_max_active_levels(lv);
      }
      else if (c == "mode") {
         const int m = in.integer();
         const long seed = in.integer();
         if (team_mode) team_mode(m, seed);
      }
      else if (c == "new") {
         const std::string o = in.str(), kind = in.str();
         Obj x;
         x.kind = kind;
         Json j;
         j.str("e", "new").str("o", o).str("kind", kind);
         if (kind == "fd" || kind == "cheb") {
            const size_t n = in.integer();
            const double lo = in.num(), up = in.num();
            if (kind == "fd") x.fd.reset(new FD(n, lo, up)); else x.ch.reset(new Cheb(n, lo, up));
            j.integer("n", n).num("lo", lo).num("up", up);
         } else if (kind == "sphere") {
            const size_t nl = in.integer(), nm = in.integer(), nlat = in.integer(), nphi = in.integer();
            x.sph.reset(new Sphere(nl, nm, nlat, nphi));
            j.integer("nl", nl).integer("nm", nm).integer("nlat", nlat).integer("nphi", nphi);
         } else if (kind == "grid") {
            const double cl = in.num(), a = in.num(), b = in.num();
            const size_t nx = in.integer(), nl = in.integer(), nm = in.integer(), nlat = in.integer(), nphi = in.integer();
            x.grid.reset(new Grid(cl, a, b, nx, nl, nm, nlat, nphi));
            j.num("cl", cl).num("lo", a).num("up", b).integer("n", nx).integer("nl", nl).integer("nm", nm).integer("nlat", nlat).integer("nphi", nphi);
         } else if (kind == "field") {
            const size_t n = in.integer();
            const double v = in.num();
            x.field.reset(new Field(o, n, v));
            j.integer("n", n).num("v", v);
         } else if (kind == "eom") {
            // new e eom <grid> dt m a km1 k0 k1 k2 V2 V3 V4
            const std::string g = in.str();
            Vec q(10);
            for (double &d : q) d = in.num();
            const Grid &gr = *objs.at(g).grid;
            const std::string f = "params" + std::to_string(npar++) + ".txt";
            FILE *h = std::fopen(f.c_str(), "w");
            const char *nm[10] = {"dt", "black_hole_mass", "black_hole_spin", "km1", "k0", "k1", "k2", "V2", "V3", "V4"};
            for (int i = 0; i < 10; i++) std::fprintf(h, "%s %.17g\n", nm[i], q[i]);
            std::fprintf(h, "nt 2\nnx %zu\nnl %zu\nnm %zu\nnlat %zu\nnphi %zu\nt_step_save 1\n", gr.nx(), gr.nl(), gr.nm(), gr.nlat(), gr.nphi());
            std::fprintf(h, "compactification_length %.17g\nRmax %.17g\nRmin %.17g\n", gr.cl(), gr.Rmax(), gr.Rmin());
            std::fprintf(h, "initial_data_type compact_pulse\ninitial_data_direction ingoing\namp 1\nrl 1\nru 2\nl_ang 0\nm_ang 0\n");
            std::fclose(h);
            x.par.reset(new Params(f));
            std::remove(f.c_str());
            x.eom.reset(new Scalar_eom(gr, *x.par));
            j.str("g", g).vec("q", q);
         } else refuse(kind);
         objs[o] = std::move(x);
         out(j);
      }
      else if (c == "del") {
         const std::string o = in.str();
         objs.erase(o);
         out(Json().str("e", "del").str("o", o));
      }
      else if (c == "put") {
         const std::string b = in.str();
         bufs[b] = in.vec();
         out(Json().str("e", "put").str("b", b).vec("v", bufs[b]));
      }
      else if (c == "call") {
         const std::string o = in.str(), op = in.str(), a = in.str(), b = in.str();
         Obj &x = objs.at(o);
         Vec &va = bufs.at(a);
         if (x.kind == "fd" || x.kind == "cheb") {
            Vec &vb = get(b, x.fd ? x.fd->n() : x.ch->n());
            Vec &v = bufs.at(a);
            if (x.fd) {
               if (op == "der") x.fd->der(v, vb);
               else if (op == "der2") x.fd->der2(v, vb);
               else if (op == "filter") x.fd->filter(v);
               else refuse(op);
            } else {
               if (op == "der") x.ch->der(v, vb);
               else if (op == "filter") x.ch->filter(v);
               else if (op == "toch") x.ch->to_ch(v, vb);
               else if (op == "topo") x.ch->to_po(v, vb);
               else refuse(op);
            }
         } else if (x.kind == "sphere") {
            Sphere &s = *x.sph;
            const size_t n = s.nSph();
            if (op == "filter") s.filter(va);
            else if (op == "lap") s.laplace_beltrami(va, get(b, n));
            else if (op == "dphi") s.partial_phi(va, get(b, n));
            else if (op == "X") s.sphereX(va, get(b, n));
            else if (op == "power") {
               // as many entries as the object has degrees: given by the script
               const size_t k = in.integer();
               s.power_spectrum(va, get(b, k));
            }
            else if (op == "raise" || op == "lower") {
               CVec r = cplxs(get(b, 2 * n));
               if (op == "raise") s.raise(va, r); else s.lower(va, r);
               bufs[b] = flat(r);
            }
            else if (op == "toylm") {
               CVec r = cplxs(get(b, 2 * s.nYlm()));
               s.to_Ylm(va, r);
               bufs[b] = flat(r);
            }
            else if (op == "tosph") { const CVec i = cplxs(va); s.to_Sph(i, get(b, n)); }
            else if (op == "ctoylm") {
               const size_t k = in.integer();
               const CVec i = cplxs(va);
               CVec r = cplxs(get(b, 2 * k));
               s.to_Ylm(i, r);
               bufs[b] = flat(r);
            }
            else if (op == "ctosph") {
               const CVec i = cplxs(va);
               CVec r = cplxs(get(b, 2 * n));
               s.to_Sph(i, r);
               bufs[b] = flat(r);
            }
            else refuse(op);
         } else if (x.kind == "grid") {
            Grid &g = *x.grid;
            const size_t n = g.nx() * g.nlat() * g.nphi();
            if (op == "filter") g.filter(va);
            else if (op == "dphi") g.set_partial_phi(va, get(b, n));
            else if (op == "lap") g.set_spherical_lap(va, get(b, n));
            else if (op == "X") g.set_sphereX(va, get(b, n));
            else if (op == "dR") g.set_partial_R(va, get(b, n));
            else if (op == "dr") g.set_partial_r(va, get(b, n));
            else if (op == "ddr") g.set_partial2_r(va, get(b, n));
            else if (op == "power") g.set_angular_power_spectrum(va, get(b, g.nx() * g.nl()));
#if USE_CHEB
            else if (op == "nl") g.set_n_l_coef(va, get(b, g.nx() * g.nl()));
#endif
            else refuse(op);
         } else refuse(x.kind);
         out(Json().str("e", "call").str("o", o).str("op", op).str("a", a).str("b", b).vec("res", bufs.at(b)).vec("sa", bufs.at(a)));
      }
      else if (c == "ylm") {
         const std::string o = in.str();
         const size_t l = in.integer(), m = in.integer();
         const std::string b = in.str();
         Obj &x = objs.at(o);
         bufs[b] = x.sph ? x.sph->compute_ylm(l, m) : x.grid->compute_ylm(l, m);
         out(Json().str("e", "ylm").str("o", o).integer("l", l).integer("m", m).str("b", b).vec("res", bufs[b]));
      }
      else if (c == "pts") {
         const std::string o = in.str();
         Obj &x = objs.at(o);
         if (x.kind == "sphere") {
            Sphere &s = *x.sph;
            Vec th, ph;
            std::vector<size_t> ix;
            for (size_t i = 0; i < s.nlat(); i++) th.push_back(s.theta(i));
            for (size_t i = 0; i < s.nphi(); i++) ph.push_back(s.phi(i));
            for (size_t i = 0; i < s.nlat(); i++) for (size_t k = 0; k < s.nphi(); k++) ix.push_back(s.indx(i, k));
            out(Json().str("e", "sphpts").str("o", o).integer("nlat", s.nlat()).integer("nphi", s.nphi())
                .integer("nsph", s.nSph()).integer("nylm", s.nYlm()).vec("th", th).vec("ph", ph).ints("ix", ix));
         } else if (x.kind == "grid") {
            Grid &g = *x.grid;
            std::vector<size_t> i3, i2, irth, irph, irl;
            // by index triple, in the order ix, it, ip
            std::vector<Vec> R3, X3, T2, L2, N2, Rf, Xf, Tf, Lf, Nf;
            for (size_t i = 0; i < g.nx(); i++) for (size_t t = 0; t < g.nlat(); t++) for (size_t p = 0; p < g.nphi(); p++) {
               i3.push_back(g.indx_R_th_ph(i, t, p));
               R3.push_back(g.R_th_ph(i, t, p));
               X3.push_back(g.x_y_z(i, t, p));
            }
            for (size_t t = 0; t < g.nlat(); t++) for (size_t p = 0; p < g.nphi(); p++) { i2.push_back(g.indx_th_ph(t, p)); T2.push_back(g.th_ph(t, p)); }
            for (size_t i = 0; i < g.nx(); i++) for (size_t t = 0; t < g.nlat(); t++) irth.push_back(g.indx_r_th(i, t));
            for (size_t i = 0; i < g.nx(); i++) for (size_t p = 0; p < g.nphi(); p++) irph.push_back(g.indx_r_ph(i, p));
            for (size_t i = 0; i < g.nx(); i++) for (size_t l = 0; l < g.nl(); l++) {
               irl.push_back(g.indx_r_l(i, l));
               L2.push_back(g.R_l(i, l));
#if USE_CHEB
               N2.push_back(g.n_l(i, l));
#endif
            }
            // by flat index
            for (size_t i = 0; i < i3.size(); i++) { Rf.push_back(g.R_th_ph(i)); Xf.push_back(g.x_y_z(i)); }
            for (size_t i = 0; i < i2.size(); i++) Tf.push_back(g.th_ph(i));
            for (size_t i = 0; i < irl.size(); i++) {
               Lf.push_back(g.R_l(i));
#if USE_CHEB
               Nf.push_back(g.n_l(i));
#endif
            }
            Vec rr;
            for (const Vec &v : R3) rr.push_back(g.R_to_r(v[0]));
            out(Json().str("e", "gridpts").str("o", o).integer("n", g.nx()).integer("nl", g.nl()).integer("nm", g.nm())
                .integer("nlat", g.nlat()).integer("nphi", g.nphi()).num("cl", g.cl()).num("lo", g.Rmin()).num("up", g.Rmax())
                .ints("i3", i3).ints("i2", i2).ints("irth", irth).ints("irph", irph).ints("irl", irl)
                .vecs("R3", R3).vecs("X3", X3).vecs("T2", T2).vecs("L2", L2).vecs("N2", N2)
                .vecs("Rf", Rf).vecs("Xf", Xf).vecs("Tf", Tf).vecs("Lf", Lf).vecs("Nf", Nf).vec("r", rr));
         } else {
            const size_t n = x.fd ? x.fd->n() : x.ch->n();
            Vec p(n);
            for (size_t i = 0; i < n; i++) p[i] = x.fd ? x.fd->pt(i) : x.ch->pt(i);
            out(Json().str("e", "pts").str("o", o).integer("n", n)
                .num("lo", x.fd ? x.fd->lower() : x.ch->lower()).num("up", x.fd ? x.fd->upper() : x.ch->upper()).vec("pts", p));
         }
      }
      else if (c == "probe") {
         // probe <grid> ix it ip il: what the grid says about one point
         const std::string o = in.str();
         const size_t ix = in.integer(), it = in.integer(), ip = in.integer(), il = in.integer();
         Grid &g = *objs.at(o).grid;
         const size_t i3 = g.indx_R_th_ph(ix, it, ip), i2 = g.indx_th_ph(it, ip), irl = g.indx_r_l(ix, il);
         std::vector<Vec> at{g.R_th_ph(ix, it, ip), g.x_y_z(ix, it, ip), g.th_ph(it, ip), g.R_l(ix, il)}, flat;
         if (i3 < g.nx() * g.nlat() * g.nphi()) { flat.push_back(g.R_th_ph(i3)); flat.push_back(g.x_y_z(i3)); }
         if (i2 < g.nlat() * g.nphi()) flat.push_back(g.th_ph(i2));
         if (irl < g.nx() * g.nl()) flat.push_back(g.R_l(irl));
         out(Json().str("e", "probe").str("o", o).integer("ix", ix).integer("it", it).integer("ip", ip).integer("il", il)
             .integer("i3", i3).integer("i2", i2).integer("irth", g.indx_r_th(ix, it)).integer("irph", g.indx_r_ph(ix, ip)).integer("irl", irl)
             .vecs("at", at).vecs("flat", flat));
      }
      else if (c == "rowat") {
         // rowat <grid> <which> i k: the row of the vector 0,1,2,... and where a row 1,2,3,... goes
         const std::string o = in.str(), w = in.str();
         const size_t i = in.integer(), k = in.integer();
         Grid &g = *objs.at(o).grid;
         const bool two = w == "n" || w == "l";
         Vec v(two ? g.nx() * g.nl() : g.nx() * g.nlat() * g.nphi()), z(v.size(), 0.0);
         for (size_t j = 0; j < v.size(); j++) v[j] = double(j);
         const size_t n = w == "R" || w == "n" ? g.nx() : w == "th" ? g.nlat() : w == "ph" ? g.nphi() : w == "l" ? g.nl()
            : w == "R_th" ? g.nx() * g.nlat() : w == "R_ph" ? g.nx() * g.nphi() : g.nlat() * g.nphi();
         Vec r(n, -1.0), q(n);
         for (size_t j = 0; j < n; j++) q[j] = double(j + 1);
         if (w == "R") { g.get_row_R(i, k, v, r); g.set_row_R(i, k, q, z); }
         else if (w == "th") { g.get_row_th(i, k, v, r); g.set_row_th(i, k, q, z); }
         else if (w == "ph") { g.get_row_ph(i, k, v, r); g.set_row_ph(i, k, q, z); }
         else if (w == "n") { g.get_row_n(i, v, r); g.set_row_n(i, q, z); }
         else if (w == "R_th") { g.get_row_R_th(i, v, r); g.set_row_R_th(i, q, z); }
         else if (w == "R_ph") { g.get_row_R_ph(i, v, r); g.set_row_R_ph(i, q, z); }
         else if (w == "th_ph") { g.get_row_th_ph(i, v, r); g.set_row_th_ph(i, q, z); }
         else if (w == "l") g.set_row_l(i, q, z);
         else refuse(w);
         std::vector<size_t> got, pos, val;
         if (w != "l") for (double d : r) got.push_back(d < 0 ? 2000000000 : size_t(d));
         for (size_t j = 0; j < z.size(); j++) if (z[j] != 0) { pos.push_back(j); val.push_back(size_t(z[j])); }
         out(Json().str("e", "rowat").str("o", o).str("w", w).integer("i", i).integer("k", k).ints("got", got).ints("pos", pos).ints("val", val));
      }
      else if (c == "rtor") {
         const std::string o = in.str();
         const Vec R = in.vec();
         Vec r;
         for (double d : R) r.push_back(objs.at(o).grid->R_to_r(d));
         out(Json().str("e", "rtor").str("o", o).vec("R", R).vec("r", r));
      }
      else if (c == "row") {
         // row <grid> get|set <which> i j <whole> <row>
         const std::string o = in.str(), dir = in.str(), w = in.str();
         const size_t i = in.integer(), k = in.integer();
         const std::string a = in.str(), b = in.str();
         Grid &g = *objs.at(o).grid;
         size_t n = 0;
         if (w == "R") n = g.nx();
         else if (w == "th") n = g.nlat();
         else if (w == "ph") n = g.nphi();
         else if (w == "n") n = g.nx();
         else if (w == "R_th") n = g.nx() * g.nlat();
         else if (w == "R_ph") n = g.nx() * g.nphi();
         else if (w == "th_ph") n = g.nlat() * g.nphi();
         else if (w == "l") n = g.nl();
         else refuse(w);
         const bool isget = dir == "get";
         Vec &r = get(b, n);
         Vec &v = bufs.at(a);
         if (isget) {
            if (w == "R") g.get_row_R(i, k, v, r);
            else if (w == "th") g.get_row_th(i, k, v, r);
            else if (w == "ph") g.get_row_ph(i, k, v, r);
            else if (w == "n") g.get_row_n(i, v, r);
            else if (w == "R_th") g.get_row_R_th(i, v, r);
            else if (w == "R_ph") g.get_row_R_ph(i, v, r);
            else if (w == "th_ph") g.get_row_th_ph(i, v, r);
            else refuse(w);
         } else {
            if (w == "R") g.set_row_R(i, k, r, v);
            else if (w == "th") g.set_row_th(i, k, r, v);
            else if (w == "ph") g.set_row_ph(i, k, r, v);
            else if (w == "n") g.set_row_n(i, r, v);
            else if (w == "R_th") g.set_row_R_th(i, r, v);
            else if (w == "R_ph") g.set_row_R_ph(i, r, v);
            else if (w == "th_ph") g.set_row_th_ph(i, r, v);
            else if (w == "l") g.set_row_l(i, r, v);
         }
         out(Json().str("e", "row").str("o", o).boolean("get", isget).str("w", w).integer("i", i).integer("k", k).str("a", a).str("b", b).vec("va", v).vec("vb", r));
      }
      else if (c == "res") {
         const std::string o = in.str();
         const double dt = in.num();
         const std::string a = in.str(), b = in.str(), p = in.str();
         const double r = objs.at(o).grid->norm_indep_res(dt, bufs.at(a), bufs.at(b), bufs.at(p));
         out(Json().str("e", "res").str("o", o).num("dt", dt).str("a", a).str("b", b).str("p", p).num("r", r));
      }
      else if (c == "tv") {
         const std::string o = in.str(), a = in.str();
         const double r = objs.at(o).grid->total_variation(bufs.at(a));
         out(Json().str("e", "tv").str("o", o).str("a", a).num("r", r));
      }
      else if (c == "id") {
         // id <grid> <direction> amp rl ru l m <f> <p>
         const std::string o = in.str(), dir = in.str();
         Vec q(3);
         for (double &d : q) d = in.num();
         const int l = in.integer(), m = in.integer();
         const std::string a = in.str(), b = in.str();
         Grid &g = *objs.at(o).grid;
         const std::string f = "params" + std::to_string(npar++) + ".txt";
         FILE *h = std::fopen(f.c_str(), "w");
         std::fprintf(h, "dt 0.1\nblack_hole_mass 1\nblack_hole_spin 0.5\nkm1 0\nk0 1\nk1 0\nk2 0\nV2 0\nV3 0\nV4 0\n");
         std::fprintf(h, "nt 2\nnx %zu\nnl %zu\nnm %zu\nnlat %zu\nnphi %zu\nt_step_save 1\n", g.nx(), g.nl(), g.nm(), g.nlat(), g.nphi());
         std::fprintf(h, "compactification_length %.17g\nRmax %.17g\nRmin %.17g\n", g.cl(), g.Rmax(), g.Rmin());
         std::fprintf(h, "initial_data_type compact_pulse\ninitial_data_direction %s\namp %.17g\nrl %.17g\nru %.17g\nl_ang %d\nm_ang %d\n", dir.c_str(), q[0], q[1], q[2], l, m);
         std::fclose(h);
         Params par(f);
         std::remove(f.c_str());
         const size_t n = g.nx() * g.nlat() * g.nphi();
         Vec &vf = get(a, n);
         Vec &vp = get(b, n);
         ID::compact_pulse(par, g, bufs[a], vp);
         (void)vf;
         out(Json().str("e", "id").str("o", o).str("dir", dir).num("amp", q[0]).num("rl", q[1]).num("ru", q[2]).integer("l", l).integer("m", m)
             .str("a", a).str("b", b).vec("f", bufs[a]).vec("p", bufs[b]));
      }
      else if (c == "setk") {
         const std::string o = in.str(), g = in.str(), f = in.str(), p = in.str(), fk = in.str(), pk = in.str();
         const size_t n = bufs.at(f).size();
         get(fk, n); get(pk, n);
         objs.at(o).eom->set_k(*objs.at(g).grid, bufs[f], bufs[p], bufs[fk], bufs[pk]);
         out(Json().str("e", "setk").str("o", o).str("f", f).str("p", p).str("fk", fk).str("pk", pk)
             .vec("sf", bufs[f]).vec("sp", bufs[p]).vec("rf", bufs[fk]).vec("rp", bufs[pk]));
      }
      else if (c == "rho") {
         const std::string o = in.str(), g = in.str(), f = in.str(), p = in.str(), r = in.str();
         get(r, bufs.at(f).size());
         objs.at(o).eom->set_rho(*objs.at(g).grid, bufs[f], bufs[p], bufs[r]);
         out(Json().str("e", "rho").str("o", o).str("f", f).str("p", p).str("r", r)
             .vec("sf", bufs[f]).vec("sp", bufs[p]).vec("res", bufs[r]));
      }
      else if (c == "flevel") {
         // write one level of a field
         const std::string o = in.str(), lv = in.str();
         const Vec v = in.vec();
         Field &f = *objs.at(o).field;
         Vec &w = lv == "n" ? f.n : lv == "l" ? f.l : lv == "np1" ? f.np1 : f.k;
         w = v;
         out(Json().str("e", "flevel").str("o", o).str("lv", lv).vec("v", v));
      }
      else if (c == "flook") {
         const std::string o = in.str();
         Field &f = *objs.at(o).field;
         out(Json().str("e", "flook").str("o", o).integer("n", f.size).str("name", f.name).vec("vn", f.n).vec("vl", f.l).vec("vnp1", f.np1).vec("vk", f.k));
      }
      else if (c == "fget") {
         const std::string o = in.str(), lv = in.str(), b = in.str();
         const Field &f = *objs.at(o).field;
         bufs[b] = lv == "n" ? f.n : lv == "l" ? f.l : lv == "np1" ? f.np1 : f.k;
         out(Json().str("e", "fget").str("o", o).str("lv", lv).str("b", b).vec("v", bufs[b]));
      }
      else if (c == "flput") {
         // a level of a field from a named vector
         const std::string o = in.str(), lv = in.str(), b = in.str();
         Field &f = *objs.at(o).field;
         (lv == "n" ? f.n : lv == "l" ? f.l : lv == "np1" ? f.np1 : f.k) = bufs.at(b);
         out(Json().str("e", "flevel").str("o", o).str("lv", lv).vec("v", bufs[b]));
      }
      else if (c == "shift") {
         const std::string o = in.str();
         objs.at(o).field->shift();
         out(Json().str("e", "shift").str("o", o));
      }
      else if (c == "step") {
         const std::string o = in.str(), g = in.str(), f = in.str(), p = in.str();
         Field &F = *objs.at(f).field, &P = *objs.at(p).field;
         objs.at(o).eom->time_step(*objs.at(g).grid, F, P);
         out(Json().str("e", "step").str("o", o).str("f", f).str("p", p)
             .vec("fn", F.n).vec("pn", P.n).vec("fnp1", F.np1).vec("pnp1", P.np1)
             .vec("fl", F.l).vec("pl", P.l).vec("fk", F.k).vec("pk", P.k));
      }
      else if (c == "evolve") {
         // evolve <eom> <grid> <f> <p> <steps>
         const std::string o = in.str(), g = in.str(), f = in.str(), p = in.str();
         const long k = in.integer();
         Field &F = *objs.at(f).field, &P = *objs.at(p).field;
         for (long i = 0; i < k; i++) {
            if (i) { F.shift(); P.shift(); }
            objs.at(o).eom->time_step(*objs.at(g).grid, F, P);
         }
         out(Json().str("e", "evolve").str("o", o).str("f", f).str("p", p).integer("k", k)
             .vec("fn", F.n).vec("pn", P.n).vec("fnp1", F.np1).vec("pnp1", P.np1)
             .vec("fl", F.l).vec("pl", P.l).vec("fk", F.k).vec("pk", P.k));
      }
      else if (c == "say") {
         // an event of the script itself, without blanks or its last brace
         Json j;
         j.s = in.str();
         out(j);
      }
      else if (c == "csv") {
         // csv <kind> <grid> <name> <coords> <number> <buf> <spectrum buf> [vmin vmax rmin rmax]
         const std::string w = in.str(), o = in.str(), name = in.str();
         const bool co = in.integer();
         const int itm = in.integer();
         const std::string a = in.str(), ps = in.str();
         Json j;
         j.str("ps", ps).str("e", "csv").str("w", w).str("o", o).str("name", name).boolean("coords", co).integer("itm", itm).str("a", a);
         const Vec v = bufs.at(a);
         if (w == "plain") Csv::write(name, itm, v);
         else if (w == "RPsl") Csv::write_R_psl(*objs.at(o).grid, name, co, itm, v);
#if USE_CHEB
         else if (w == "NPsl") Csv::write_n_psl(*objs.at(o).grid, name, co, itm, v);
#endif
         else if (w == "XYZ") {
            Vec q(4);
            for (double &d : q) d = in.num();
            j.vec("q", q);
            Csv::write_x_y_z(*objs.at(o).grid, name, co, itm, q[0], q[1], q[2], q[3], v);
         }
         else refuse(w);
         out(j);
      }
      else if (c == "files") {
         std::vector<std::string> fs;
         list(".", fs);
         std::string names = "[", texts = "[";
         bool first = true;
         for (const std::string &f : fs) {
            if (!first) { names += ','; texts += ','; }
            first = false;
            Json::app_str(names, f);
            texts += json_lines(read_file(f));
         }
         out(Json().str("e", "files").raw("names", names + "]").raw("texts", texts + "]"));
      }
      else if (c == "mkdir") mkdir(in.str().c_str(), 0755);
      else if (c == "look") out(Json().str("e", "look").map("all", bufs));
      else refuse(c);
   }
   out.done();
   return 0;
}
