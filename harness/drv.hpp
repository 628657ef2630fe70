// Shared by the drivers: script parsing and JSON events.
// A script is a sequence of blank-separated tokens; numbers that matter bit
// for bit are written as x<16 hex digits>.  Events go to the file given as
// second argument, one JSON object per line, flushed one by one, so that a
// crash leaves the events before it.
#ifndef VERIF_DRV_HPP
#define VERIF_DRV_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

// of harness/life, when that is linked
extern "C" void life_event(const char *kind, const char *brief) __attribute__((weak));

namespace drv {
typedef std::vector<double> Vec;

inline double parse_num(const std::string &s)
{
   if (s.size() == 17 && s[0] == 'x') {
      uint64_t b = std::strtoull(s.c_str() + 1, nullptr, 16);
      double d;
      std::memcpy(&d, &b, 8);
      return d;
   }
   return std::strtod(s.c_str(), nullptr);
}
struct Script {
   std::ifstream in;
   explicit Script(const char *f) : in(f)
   {
      if (!in.good()) { std::fprintf(stderr, "driver: no script %s\n", f); std::exit(3); }
   }
   bool next(std::string &s) { return bool(in >> s); }
   std::string str()
   {
      std::string s;
      if (!(in >> s)) { std::fprintf(stderr, "driver: script ends early\n"); std::exit(3); }
      return s;
   }
   double num() { return parse_num(str()); }
   long integer() { return std::strtol(str().c_str(), nullptr, 10); }
   Vec vec()
   {
      long n = integer();
      Vec v(n);
      for (long i = 0; i < n; i++) v[i] = num();
      return v;
   }
};
struct Json {
   std::string s, ev, ob;
   bool first = true;
   Json() : s("{") {}
   void key(const char *k)
   {
      if (!first) s += ',';
      first = false;
      s += '"'; s += k; s += "\":";
   }
   static void app_num(std::string &o, double d)
   {
      uint64_t b;
      if (d != d) b = 0x7ff8000000000000ULL;
      else std::memcpy(&b, &d, 8);
      char t[40];
      std::snprintf(t, sizeof t, "[%d,%d]", int32_t(uint32_t(b >> 32)), int32_t(uint32_t(b)));
      o += t;
   }
   static void app_str(std::string &o, const std::string &v)
   {
      o += '"';
      for (unsigned char c : v) {
         if (c == '"' || c == '\\') { o += '\\'; o += c; }
         else if (c < 32 || c > 126) { char t[8]; std::snprintf(t, sizeof t, "\\u%04x", c); o += t; }
         else o += c;
      }
      o += '"';
   }
   static void app_vec(std::string &o, const double *v, size_t n)
   {
      o += '[';
      for (size_t i = 0; i < n; i++) { if (i) o += ','; app_num(o, v[i]); }
      o += ']';
   }
   Json &str(const char *k, const std::string &v) 
   {
      key(k);
      app_str(s, v);
      if (!std::strcmp(k, "e")) ev = v;
      if (!std::strcmp(k, "o")) ob = v;
      return *this;
   }
   Json &integer(const char *k, long v) { key(k); s += std::to_string(v); return *this; }
   Json &boolean(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
   Json &num(const char *k, double v) { key(k); app_num(s, v); return *this; }
   Json &vec(const char *k, const Vec &v) { key(k); app_vec(s, v.data(), v.size()); return *this; }
   template <class I> Json &ints(const char *k, const std::vector<I> &v)
   {
      key(k); s += '[';
      for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += std::to_string(long(v[i])); }
      s += ']';
      return *this;
   }
   Json &vecs(const char *k, const std::vector<Vec> &v)
   {
      key(k); s += '[';
      for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; app_vec(s, v[i].data(), v[i].size()); }
      s += ']';
      return *this;
   }
   Json &map(const char *k, const std::map<std::string, Vec> &m)
   {
      key(k); s += '{';
      bool f = true;
      for (const auto &p : m) {
         if (!f) s += ',';
         f = false;
         app_str(s, p.first); s += ':';
         app_vec(s, p.second.data(), p.second.size());
      }
      s += '}';
      return *this;
   }
   Json &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
};
struct Out {
   FILE *f;
   explicit Out(const char *name) : f(std::fopen(name, "w"))
   {
      if (!f) { std::perror(name); std::exit(3); }
   }
   void operator()(const Json &j)
   {
      std::fputs(j.s.c_str(), f); std::fputs("}\n", f); std::fflush(f);
      if (life_event) life_event(j.ev.c_str(), j.ob.c_str());
   }
   void mark(const char *s)
   {
      std::fputs(s, f); std::fputc('\n', f); std::fflush(f);
      if (life_event) life_event(s, "");
   }
   void done() { std::fputs("#end\n", f); std::fclose(f); }
};
// what output arrays hold before a call
const double GARBAGE = 7.7e77;
}
#endif
