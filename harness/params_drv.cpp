// Hands parameter files to the real reader, each in a process of its own,
// and records what it reports (or that and what it says when it stops).
#include "drv.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <cctype>
#include <iostream>
#include "params.hpp"
using namespace drv;
static std::string slurp(const std::string &f)
{
   std::ifstream in(f, std::ios::binary);
   std::stringstream s;
   s << in.rdbuf();
   return s.str();
}
int main(int argc, char **argv)
{
   if (argc != 3) return 3;
   Script in(argv[1]);
   Out out(argv[2]);
   std::string c;
   int k = 0;
   while (in.next(c)) {
      if (c == "trace") { out.mark("#trace"); continue; }
      // after A B: a complete file A was read from a path, whose text is B now
      if (c != "file" && c != "after") return 3;
      const std::string before = c == "after" ? in.str() : "";
      const std::string f = in.str();
      const std::string got = "got" + std::to_string(k), said = "said" + std::to_string(k);
      k++;
      std::fflush(nullptr);
      const pid_t pid = fork();
      if (pid == 0) {
         if (!std::freopen(said.c_str(), "w", stdout) || !std::freopen(said.c_str(), "a", stderr)) _exit(3);
         alarm(20);
         std::string path = f;
         Params *former = nullptr;
         if (!before.empty()) {
            path = "path" + std::to_string(k);
            { std::ofstream o(path, std::ios::binary); o << slurp(before); }
            former = new Params(path);
            if (k % 2) { delete former; former = nullptr; }
            { std::ofstream o(path, std::ios::binary); o << slurp(f); }
            std::cout.flush();
            if (!std::freopen(said.c_str(), "w", stdout) || !std::freopen(said.c_str(), "a", stderr)) _exit(3);
         }
         const Params p(path);
         Json j;
         j.num("nt", p.nt()).num("t_step_save", p.t_step_save()).integer("nx", p.nx()).integer("nl", p.nl()).integer("nm", p.nm()).integer("nlat", p.nlat()).integer("nphi", p.nphi())
          .integer("l_ang", p.l_ang()).integer("m_ang", p.m_ang())
          .num("dt", p.dt()).num("compactification_length", p.cl()).num("Rmax", p.Rmax()).num("Rmin", p.Rmin())
          .num("black_hole_mass", p.bh_mass()).num("black_hole_spin", p.bh_spin())
          .num("km1", p.km1()).num("k0", p.k0()).num("k1", p.k1()).num("k2", p.k2()).num("V2", p.V2()).num("V3", p.V3()).num("V4", p.V4())
          .num("amp", p.amp()).num("rl", p.rl()).num("ru", p.ru())
          .str("initial_data_type", p.id()).str("initial_data_direction", p.initial_data_direction());
         FILE *h = std::fopen(got.c_str(), "w");
         std::fputs((j.s + "}").c_str(), h);
         std::fclose(h);
         std::fflush(nullptr);
         _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      const std::string text = slurp(f), g = slurp(got), s = slurp(said);
      std::string lines = "[";
      for (size_t a = 0; a < text.size(); ) {
         size_t b = text.find('\n', a);
         if (b == std::string::npos) b = text.size();
         if (a) lines += ',';
         lines += '[';
         for (size_t i = a; i < b; i++) { if (i > a) lines += ','; Json::app_str(lines, text.substr(i, 1)); }
         lines += ']';
         a = b + 1;
      }
      // the words of what it said
      std::string told = "[";
      bool first = true;
      for (size_t a = 0; a < s.size(); ) {
         size_t b = a;
         while (b < s.size() && (std::isalnum((unsigned char)s[b]) || s[b] == '_')) b++;
         if (b > a) { if (!first) told += ','; first = false; Json::app_str(told, s.substr(a, b - a)); }
         a = b + 1;
      }
      const bool read = WIFEXITED(st) && WEXITSTATUS(st) == 0 && !g.empty() && g[g.size() - 1] == '}';
      out(Json().str("e", "params").raw("file", lines + "]").raw("told", told + "]").str("outcome", read ? "read" : g.empty() ? "stopped" : "broken").raw("got", read ? g : "{}"));
   }
   out.done();
   return 0;
}
