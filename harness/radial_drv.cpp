// Plays a script of calls on the real radial operators and records each call.
#include "drv.hpp"
#include "cheb.hpp"
#include "finite_diff.hpp"
using namespace drv;

struct Obj { std::unique_ptr<FD> fd; std::unique_ptr<Cheb> ch; };

int main(int argc, char **argv)
{
   if (argc != 3) return 3;
   Script in(argv[1]);
   Out out(argv[2]);
   std::map<std::string, Obj> objs;
   std::map<std::string, Vec> bufs;
   std::string c;
   while (in.next(c)) {
      if (c == "trace") { objs.clear(); bufs.clear(); out.mark("#trace"); }
      else if (c == "new") {
         const std::string o = in.str(), kind = in.str();
         const size_t n = in.integer();
         const double lo = in.num(), up = in.num();
         Obj x;
         if (kind == "fd") x.fd.reset(new FD(n, lo, up)); else x.ch.reset(new Cheb(n, lo, up));
         objs[o] = std::move(x);
         out(Json().str("e", "new").str("o", o).str("kind", kind).integer("n", n).num("lo", lo).num("up", up));
      }
      else if (c == "del") {
         const std::string o = in.str();
         objs.erase(o);
         out(Json().str("e", "del").str("o", o));
      }
      else if (c == "put") {
         const std::string b = in.str();
         bufs[b] = in.vec();
         out(Json().str("e", "put").str("b", b).vec("v", bufs[b]));
      }
      else if (c == "call") {
         const std::string o = in.str(), op = in.str(), a = in.str(), b = in.str();
         Obj &x = objs.at(o);
         const size_t n = x.fd ? x.fd->n() : x.ch->n();
         if (bufs[b].size() != n) bufs[b] = Vec(n, GARBAGE);
         Vec &va = bufs.at(a), &vb = bufs.at(b);
         if (x.fd) {
            if (op == "der") x.fd->der(va, vb);
            else if (op == "der2") x.fd->der2(va, vb);
            else if (op == "filter") x.fd->filter(va);
            else return 3;
         } else {
            if (op == "der") x.ch->der(va, vb);
            else if (op == "filter") x.ch->filter(va);
            else if (op == "toch") x.ch->to_ch(va, vb);
            else if (op == "topo") x.ch->to_po(va, vb);
            else return 3;
         }
         out(Json().str("e", "call").str("o", o).str("op", op).str("a", a).str("b", b).vec("res", vb).vec("sa", va));
      }
      else if (c == "pts") {
         const std::string o = in.str();
         Obj &x = objs.at(o);
         const size_t n = x.fd ? x.fd->n() : x.ch->n();
         Vec p(n);
         for (size_t i = 0; i < n; i++) p[i] = x.fd ? x.fd->pt(i) : x.ch->pt(i);
         out(Json().str("e", "pts").str("o", o).integer("n", n)
             .num("lo", x.fd ? x.fd->lower() : x.ch->lower()).num("up", x.fd ? x.fd->upper() : x.ch->upper()).vec("pts", p));
      }
      else if (c == "look") out(Json().str("e", "look").map("all", bufs));
      else { std::fprintf(stderr, "driver: what is %s?\n", c.c_str()); return 3; }
   }
   out.done();
   return 0;
}
