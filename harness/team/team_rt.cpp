// An OpenMP runtime for checking: the members of a team are real threads, but
// only one of them runs at a time, in an order chosen here (TEAM_MODE), and
// what each of them reads and writes inside a parallel region is recorded by
// way of the calls that -fsanitize=thread puts into the code.  At the end of
// every outermost region the record goes to TEAM_LOG as one trace: forks,
// accesses, barriers, joins.  Bytes with the same history are one cell.
#include <dlfcn.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <fftw3.h>

namespace team {
typedef uintptr_t Addr;
const Addr PAGE = 512;
struct Page { uint64_t r[PAGE / 64], w[PAGE / 64]; };
struct Phase { int strand; std::set<std::string> locks; std::unordered_map<Addr, Page> pages; Addr last = 0; Page *lastp = nullptr; };
struct Event { char kind; int strand, region; std::vector<int> members; int phase; };
struct Share { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; bool taken = false; void *copy = nullptr; };
struct Team;
enum State { RUN, BARRIER, JOIN, DONE };
struct Strand {
   int id = 0, member = 0, level = 0;
   Team *team = nullptr;
   State state = RUN;
   pthread_t th;
   pthread_cond_t cond;
   int plain = -1, atomic = -1;      // phases being recorded
   std::vector<std::string> locks;
   size_t share = 0;
   long chunks = 0;
   bool own_thread = false;
};
struct Team {
   int id = 0, n = 1, waiting = 0, done = 0;
   Strand *parent = nullptr;
   std::vector<Strand *> member;
   std::vector<Share> shares;
   void (*fn)(void *) = nullptr;
   void *data = nullptr;
   int active = 0;
};
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t gone = PTHREAD_COND_INITIALIZER;
static __thread Strand *me = nullptr;
static __thread int busy = 0;        // inside this runtime
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };
static Strand root;
static Strand *current = nullptr;
static bool over = true;             // no outermost region is open
static unsigned generation = 0;
static std::vector<Strand *> *all = nullptr;    // strands of the open outermost region
static std::vector<Phase *> *phases = nullptr;
static std::vector<Event> *events = nullptr;
static std::vector<void *> *later = nullptr;    // to be freed at the end
static std::map<Addr, std::pair<size_t, int>> *blocks = nullptr;
static int nblock = 0, nregion = 0, nstrand = 0, nactive = 0;
static int threads = 1, max_levels = 1;
static std::vector<int> *by_level = nullptr;
static int mode = 0;                 // 0 in order, 1 backwards, 2 at random
static uint64_t rnd = 88172645463325252ULL;
static FILE *logf = nullptr;
static bool started = false;
static std::map<const void *, Strand *> *held = nullptr;
static std::map<void *, std::pair<int, std::pair<void *, void *>>> *plans = nullptr;
static char planner;
static char atomic_key, critical_key;
static Share lone;                   // work shared by nobody else

static uint64_t dice(uint64_t n) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return n ? (rnd >> 11) % n : 0; }
static void start()
{
   if (started) return;
   started = true;
   Busy b;
   all = new std::vector<Strand *>; phases = new std::vector<Phase *>; events = new std::vector<Event>;
   later = new std::vector<void *>; blocks = new std::map<Addr, std::pair<size_t, int>>; by_level = new std::vector<int>;
   held = new std::map<const void *, Strand *>; plans = new std::map<void *, std::pair<int, std::pair<void *, void *>>>;
   pthread_cond_init(&root.cond, nullptr);
   me = current = &root;
   if (const char *s = getenv("OMP_NUM_THREADS")) { for (const char *p = s; *p;) { by_level->push_back(std::max(1, atoi(p))); while (*p && *p != ',') p++; if (*p) p++; } if (by_level->size()) threads = (*by_level)[0]; if (by_level->size() < 2) by_level->clear(); }
   if (const char *s = getenv("OMP_NESTED")) if (!strcasecmp(s, "true")) max_levels = 99;
   if (const char *s = getenv("OMP_MAX_ACTIVE_LEVELS")) max_levels = atoi(s);
   if (const char *s = getenv("TEAM_MODE")) mode = atoi(s);
   if (const char *s = getenv("TEAM_SEED")) rnd ^= strtoull(s, nullptr, 10) * 0x9E3779B97F4A7C15ULL;
   if (const char *s = getenv("TEAM_LOG")) logf = fopen(s, "a");
   pthread_mutex_lock(&big);      // the thread that runs holds it
}
static Strand *self() { if (!started) start(); return me ? me : &root; }
static void die(const char *what) { fprintf(stderr, "team: %s\n", what); _exit(98); }

// ---- scheduling: big is held by the running thread
static Strand *pick(Strand *not_me)
{
   std::vector<Strand *> can;
   if (root.state == RUN) can.push_back(&root);
   for (Strand *s : *all) if (s->state == RUN && s != not_me) can.push_back(s);
   if (can.empty()) return nullptr;
   if (mode == 0) return can.front();
   if (mode == 1) return can.back();
   return can[dice(can.size())];
}
static void to(Strand *s)
{
   Strand *m = me;
   if (s == m) return;
   current = s;
   pthread_cond_signal(&s->cond);
   while (current != m) pthread_cond_wait(&m->cond, &big);
}
// let somebody else run; must: this strand cannot go on
static void yield(bool must)
{
   Strand *s = pick(must ? me : nullptr);
   if (!s) { if (must) die("nobody can go on"); return; }
   to(s);
}
static void block_until(State st) { me->state = st; while (me->state != RUN) { Strand *s = pick(me); if (!s) die("deadlock"); to(s); } }

// ---- recording
static Phase *phase_of(bool atom)
{
   int &k = atom ? me->atomic : me->plain;
   if (k < 0) {
      Phase *p = new Phase;
      p->strand = me->id;
      for (auto &l : me->locks) p->locks.insert(l);
      if (atom) p->locks.insert("atomic");
      k = int(phases->size());
      phases->push_back(p);
   }
   return (*phases)[k];
}
static void close_phases()
{
   if (me->plain >= 0) events->push_back({'a', me->id, 0, {}, me->plain});
   if (me->atomic >= 0) events->push_back({'a', me->id, 0, {}, me->atomic});
   me->plain = me->atomic = -1;
}
static void touch(Addr a, size_t n, bool w, bool atom)
{
   Phase *p = phase_of(atom);
   while (n) {
      const Addr pg = a / PAGE, off = a % PAGE;
      size_t m = std::min<size_t>(n, PAGE - off);
      if (!p->lastp || p->last != pg) {
         auto it = p->pages.find(pg);
         if (it == p->pages.end()) { it = p->pages.emplace(pg, Page()).first; memset(&it->second, 0, sizeof(Page)); }
         p->last = pg; p->lastp = &it->second;
      }
      uint64_t *v = w ? p->lastp->w : p->lastp->r;
      for (size_t i = off; i < off + m; i++) v[i / 64] |= 1ULL << (i % 64);
      a += m; n -= m;
   }
}
static void maybe_switch()
{
   if (mode == 2 && dice(97) == 0) yield(false);
}
static inline void access(const volatile void *a, size_t n, bool w, bool atom = false)
{
   if (busy || !started || over || nactive == 0 || !me) return;
   Busy b;
   if (mode == 2) maybe_switch();
   if (n) touch((Addr)a, n, w, atom);
}

// ---- the end of an outermost region: cells
static std::string where(Addr a)
{
   char t[200];
   auto it = blocks->upper_bound(a);
   if (it != blocks->begin()) {
      --it;
      if (a < it->first + it->second.first) { snprintf(t, sizeof t, "allocation of %zu bytes, at byte %zu", it->second.first, size_t(a - it->first)); return t; }
   }
   Dl_info d;
   if (a == (Addr)&planner) return "the planner of FFTW";
   if (dladdr((void *)a, &d) && d.dli_sname && d.dli_saddr) { snprintf(t, sizeof t, "%s+%zu", d.dli_sname, size_t(a - (Addr)d.dli_saddr)); return t; }
   if (dladdr((void *)a, &d)) return "static data";
   return "a stack";
}
static std::string quoted(const std::string &s) { std::string o = "\""; for (char c : s) if (c >= 32 && c < 127 && c != '"' && c != '\\') o += c; return o + "\""; }
static void report()
{
   const size_t np = phases->size();
   // history of each byte: phases that read it, phases that wrote it
   std::map<Addr, std::vector<std::pair<int, const Page *>>> pages;
   for (size_t i = 0; i < np; i++) for (auto &q : (*phases)[i]->pages) pages[q.first].push_back({int(i), &q.second});
   std::map<std::vector<int>, int> cells;            // history -> cell
   std::vector<std::vector<int>> R(np), W(np);
   std::vector<std::pair<std::string, long>> about;   // a place and the number of bytes
   long alone = 0;
   for (auto &pg : pages) {
      std::set<int> ss;
      for (auto &q : pg.second) ss.insert((*phases)[q.first]->strand);
      if (ss.size() < 2) { for (size_t i = 0; i < PAGE / 64; i++) { uint64_t m = 0; for (auto &q : pg.second) m |= q.second->r[i] | q.second->w[i]; alone += __builtin_popcountll(m); } continue; }
      std::vector<int> h, prev;
      int cell = -1;
      for (size_t i = 0; i < PAGE; i++) {
         h.clear();
         int first = -1; bool shared = false;
         for (auto &q : pg.second) {
            const bool r = q.second->r[i / 64] >> (i % 64) & 1, w = q.second->w[i / 64] >> (i % 64) & 1;
            if (!r && !w) continue;
            h.push_back(q.first * 4 + (r ? 1 : 0) + (w ? 2 : 0));
            const int st = (*phases)[q.first]->strand;
            if (first < 0) first = st; else if (st != first) shared = true;
         }
         if (h.empty()) { prev.clear(); continue; }
         if (!shared) { alone++; prev.clear(); continue; }
         if (h != prev) {
            auto it = cells.find(h);
            if (it == cells.end()) {
               cell = int(cells.size());
               cells[h] = cell;
               about.push_back({where(pg.first * PAGE + i), 0});
               for (int x : h) { if (x & 1) R[x / 4].push_back(cell); if (x & 2) W[x / 4].push_back(cell); }
            } else cell = it->second;
            prev = h;
         }
         about[cell].second++;
      }
   }
   fprintf(logf, "#region\n");
   std::string o = "{\"e\":\"begin\",\"alone\":" + std::to_string(alone) + ",\"cells\":[";
   for (size_t i = 0; i < about.size(); i++) o += (i ? "," : "") + quoted(about[i].first + ", " + std::to_string(about[i].second) + " bytes in all");
   fprintf(logf, "%s]}\n", o.c_str());
   auto list = [](const std::vector<int> &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i] + 1); return s + "]"; };
   for (const Event &e : *events) {
      if (e.kind == 'f') {
         std::string s;
         for (size_t i = 0; i < e.members.size(); i++) s += (i ? "," : "") + std::to_string(e.members[i]);
         fprintf(logf, "{\"e\":\"fork\",\"s\":%d,\"r\":%d,\"m\":[%s]}\n", e.strand, e.region, s.c_str());
      } else if (e.kind == 'b') fprintf(logf, "{\"e\":\"barrier\",\"r\":%d}\n", e.region);
      else if (e.kind == 'j') fprintf(logf, "{\"e\":\"join\",\"r\":%d}\n", e.region);
      else {
         const Phase &p = *(*phases)[e.phase];
         if (R[e.phase].empty() && W[e.phase].empty()) continue;
         std::string l;
         for (auto &x : p.locks) l += (l.empty() ? "" : ",") + quoted(x);
         fprintf(logf, "{\"e\":\"acc\",\"s\":%d,\"rd\":%s,\"wr\":%s,\"l\":[%s]}\n", e.strand, list(R[e.phase]).c_str(), list(W[e.phase]).c_str(), l.c_str());
      }
   }
   fflush(logf);
}

// ---- teams
static void finish_member()
{
   Team *t = me->team;
   close_phases();
   me->state = DONE;
   t->done++;
   if (t->done == t->n) { if (t->member[0]->state == JOIN) t->member[0]->state = RUN; }
   else if (t->waiting && t->waiting + t->done == t->n) die("a member left while others wait at a barrier");
}
static void *body(void *p)
{
   Strand *m = (Strand *)p;
   busy++;
   me = m;
   pthread_mutex_lock(&big);
   const unsigned gen = generation;
   while (current != m) pthread_cond_wait(&m->cond, &big);
   Team *t = m->team;
   busy--;
   t->fn(t->data);
   busy++;
   finish_member();
   // hand on, and stay until the outermost region ends: stacks are not reused
   Strand *s = pick(m);
   if (!s) die("nobody left");
   current = s;
   pthread_cond_signal(&s->cond);
   while (generation == gen) pthread_cond_wait(&gone, &big);
   pthread_mutex_unlock(&big);
   return nullptr;
}
static int team_size(unsigned asked)
{
   Strand *m = self();
   int act = 0;
   for (Strand *s = m; s && s->team; s = s->team->parent) if (s->team->n > 1) act++;
   if (act >= max_levels) return 1;
   if (asked) return int(asked);
   if (by_level->size()) return (*by_level)[std::min<size_t>(m->level, by_level->size() - 1)];
   return threads;
}
static void parallel(void (*fn)(void *), void *data, unsigned asked, const Share *first)
{
   Strand *parent = self();
   busy++;
   const int n = team_size(asked);
   const bool outer = over;
   if (outer) { over = false; nregion = nstrand = 0; root.id = 0; nactive = 0; }
   if (n > 1) nactive++;
   Team *t = new Team;
   t->id = ++nregion; t->n = n; t->parent = parent; t->fn = fn; t->data = data;
   if (first) t->shares.push_back(*first);
   Event e{'f', parent->id, t->id, {}, -1};
   for (int i = 0; i < n; i++) {
      Strand *s = new Strand;
      s->id = ++nstrand; s->member = i; s->team = t; s->level = parent->level + 1;
      for (auto &l : parent->locks) s->locks.push_back(l);
      if (first) s->share = 1;
      pthread_cond_init(&s->cond, nullptr);
      t->member.push_back(s);
      e.members.push_back(s->id);
      all->push_back(s);
   }
   events->push_back(e);
   parent->state = JOIN;           // it is not a strand of its own while its team works
   me = t->member[0];
   current = me;
   pthread_attr_t at;
   pthread_attr_init(&at);
   pthread_attr_setstacksize(&at, 512 * 1024);
   for (int i = 1; i < n; i++) {
      t->member[i]->own_thread = true;
      if (pthread_create(&t->member[i]->th, &at, body, t->member[i])) die("no thread");
   }
   pthread_attr_destroy(&at);
   if (n > 1) yield(false);
   busy--;
   fn(data);
   busy++;
   finish_member();
   if (t->done < t->n) { me->state = JOIN; while (t->done < t->n) { Strand *s = pick(me); if (!s) die("deadlock at a join"); to(s); } me->state = DONE; }
   events->push_back({'j', 0, t->id, {}, -1});
   parent->state = RUN;
   me = parent;
   current = parent;
   if (n > 1) nactive--;
   if (outer) {
      generation++;
      pthread_cond_broadcast(&gone);
      pthread_mutex_unlock(&big);
      for (Strand *s : *all) if (s->own_thread) pthread_join(s->th, nullptr);
      pthread_mutex_lock(&big);
      if (logf && phases->size()) report();
      for (Phase *p : *phases) delete p;
      phases->clear(); events->clear();
      std::set<Team *> ts;
      for (Strand *s : *all) { ts.insert(s->team); pthread_cond_destroy(&s->cond); delete s; }
      for (Team *x : ts) delete x;
      all->clear();
      over = true;
      std::vector<void *> fs;
      fs.swap(*later);
      for (void *p : fs) { blocks->erase((Addr)p); free(p); }
   }
   busy--;
}
static void barrier()
{
   Strand *m = self();
   if (!m->team || m->team->n == 1) return;
   Busy b;
   Team *t = m->team;
   close_phases();
   if (++t->waiting == t->n) {
      t->waiting = 0;
      events->push_back({'b', 0, t->id, {}, -1});
      for (Strand *s : t->member) if (s->state == BARRIER) s->state = RUN;
      yield(false);
   } else block_until(BARRIER);
}
static Share *share(bool &fresh)
{
   Strand *m = self();
   if (!m->team) { lone = Share(); fresh = true; return &lone; }
   Team *t = m->team;
   const size_t k = m->share++;
   fresh = k >= t->shares.size();
   if (fresh) t->shares.resize(k + 1);
   m->chunks = 0;
   return &t->shares[k];
}
static Share *last_share() { Strand *m = self(); return m->team ? &m->team->shares[m->share - 1] : &lone; }
// pieces of work go round: nobody gets a second one while others can still ask
static bool take(Share *, long &a, long &b)
{
   Strand *m = self();
   Busy bz;
   Team *t = m->team;
   const size_t k = m->share - 1;
   if (t && m->chunks > 0) {
      for (int tries = 0; tries < 1000; tries++) {
         bool someone = false;
         for (Strand *s : t->member) if (s != m && s->state == RUN && (s->share <= k || (s->share == k + 1 && s->chunks < m->chunks))) { someone = true; if (mode != 2) { to(s); break; } }
         if (!someone) break;
         if (mode == 2) { yield(false); if (tries > 50) break; }
      }
   }
   Share *w = t ? &t->shares[k] : &lone;
   if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
   a = w->next;
   b = a + w->chunk * w->incr;
   if (w->incr > 0 ? b > w->end : b < w->end) b = w->end;
   w->next = b;
   m->chunks++;
   return true;
}
static void lock(const void *p, const std::string &name)
{
   Strand *m = self();
   Busy b;
   while (held->count(p) && (*held)[p] != m) yield(true);
   (*held)[p] = m;
   if (over) return;
   close_phases();
   m->locks.push_back(name);
}
static void unlock(const void *p, const std::string &name)
{
   Strand *m = self();
   Busy b;
   held->erase(p);
   if (over) return;
   close_phases();
   auto it = std::find(m->locks.begin(), m->locks.end(), name);
   if (it != m->locks.end()) m->locks.erase(it);
}
static std::string lock_name(const void *p) { char t[40]; snprintf(t, sizeof t, "lock %p", p); return t; }
static void loop_init(Share *w, bool fresh, long s, long e, long incr, long chunk)
{
   if (!fresh && w->init) return;
   w->init = true; w->next = s; w->end = e; w->incr = incr; w->chunk = chunk > 0 ? chunk : 1;
}
}
using namespace team;

// ---- memory: what is freed inside a region is not used again before its end
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
void *__real_fftw_malloc(size_t); double *__real_fftw_alloc_real(size_t); fftw_complex *__real_fftw_alloc_complex(size_t); void __real_fftw_free(void *);
static void *born(void *p, size_t n)
{
   if (p && started && !busy) { Busy b; (*blocks)[(Addr)p] = {n ? n : 1, nblock++}; }
   return p;
}
static bool dies(void *p)
{
   if (!p || !started || busy) return true;
   Busy b;
   if (!over && nactive > 0) return false;
   blocks->erase((Addr)p);
   return true;
}
void *__wrap_malloc(size_t n) { return born(__real_malloc(n), n); }
void *__wrap_calloc(size_t k, size_t n) { return born(__real_calloc(k, n), k * n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) born(*p, n); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return born(__real_aligned_alloc(a, n), n); }
void __wrap_free(void *p)
{
   if (dies(p)) __real_free(p);
   else { Busy b; access(nullptr, 0, false); later->push_back(p); }
}
void *__wrap_realloc(void *p, size_t n)
{
   if (busy || !started || over) { if (p && started && !busy) { Busy b; blocks->erase((Addr)p); } return born(__real_realloc(p, n), n); }
   void *q = __real_malloc(n);
   if (p) { size_t old = 0; { Busy b; auto it = blocks->find((Addr)p); old = it == blocks->end() ? 0 : it->second.first; } if (old == 0) die("realloc of what"); memcpy(q, p, std::min(old, n)); Busy b; later->push_back(p); }
   return born(q, n);
}
// fftw_malloc is memalign(16 or more): free() takes it
void *__wrap_fftw_malloc(size_t n) { void *p = nullptr; if (__real_posix_memalign(&p, 64, n ? n : 1)) return nullptr; return born(p, n); }
double *__wrap_fftw_alloc_real(size_t n) { return (double *)__wrap_fftw_malloc(n * sizeof(double)); }
fftw_complex *__wrap_fftw_alloc_complex(size_t n) { return (fftw_complex *)__wrap_fftw_malloc(n * sizeof(fftw_complex)); }
void __wrap_fftw_free(void *p) { __wrap_free(p); }

// ---- FFTW: plans are made and destroyed by one thread at a time; execution reads the plan
fftw_plan __real_fftw_plan_r2r_1d(int, double *, double *, fftw_r2r_kind, unsigned);
fftw_plan __wrap_fftw_plan_r2r_1d(int n, double *a, double *b, fftw_r2r_kind k, unsigned f)
{
   self();
   access(&planner, 1, true);
   Busy z;
   fftw_plan p = __real_fftw_plan_r2r_1d(n, a, b, k, f);
   (*plans)[p] = {n, {a, b}};
   return p;
}
void __real_fftw_destroy_plan(fftw_plan);
void __wrap_fftw_destroy_plan(fftw_plan p)
{
   self();
   access(&planner, 1, true);
   access(p, 1, true);
   Busy z;
   plans->erase(p);
   __real_fftw_destroy_plan(p);
}
void __real_fftw_execute_r2r(fftw_plan, double *, double *);
void __wrap_fftw_execute_r2r(fftw_plan p, double *a, double *b)
{
   access(p, 1, false);
   size_t n = 0;
   { Busy z; auto it = plans->find(p); if (it != plans->end()) n = it->second.first; }
   access(a, n * 8, false);
   access(b, n * 8, true);
   Busy z;
   __real_fftw_execute_r2r(p, a, b);
}
void __real_fftw_execute(fftw_plan);
void __wrap_fftw_execute(fftw_plan p)
{
   access(p, 1, false);
   size_t n = 0; void *a = nullptr, *b = nullptr;
   { Busy z; auto it = plans->find(p); if (it != plans->end()) { n = it->second.first; a = it->second.second.first; b = it->second.second.second; } }
   access(a, n * 8, false);
   access(b, n * 8, true);
   Busy z;
   __real_fftw_execute(p);
}
// ---- blocks of memory
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }
// ---- locks of the C library
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (busy || !started) return __real_pthread_mutex_lock(m); team::lock(m, lock_name(m)); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (busy || !started) return __real_pthread_mutex_unlock(m); team::unlock(m, lock_name(m)); return 0; }
// ---- function-local statics: the first to come sets them up, before anybody looks
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g)
{
   if (!started || over) return __real___cxa_guard_acquire(g);
   Busy b;
   while (held->count(g)) yield(true);
   if (*(char *)g) return 0;
   (*held)[g] = me;
   close_phases();
   me->locks.push_back("setting up a static");
   return 1;
}
void __wrap___cxa_guard_release(uint64_t *g)
{
   if (!started || over) { __real___cxa_guard_release(g); return; }
   Busy b;
   held->erase(g);
   *(char *)g = 1;
   for (int k : {me->plain, me->atomic}) if (k >= 0) (*phases)[k]->pages.clear(), (*phases)[k]->lastp = nullptr;
   close_phases();
   auto it = std::find(me->locks.begin(), me->locks.end(), "setting up a static");
   if (it != me->locks.end()) me->locks.erase(it);
}

// ---- OpenMP
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { parallel(fn, data, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { const int k = team_size(n); parallel(fn, data, n, nullptr); return k; }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned)
{
   Share w; w.init = true; w.next = 1; w.end = long(count) + 1;
   parallel(fn, data, n, &w);
}
unsigned GOMP_sections_next(void) { long a, b; return take(nullptr, a, b) ? unsigned(a) : 0; }
unsigned GOMP_sections_start(unsigned count) { bool f; Busy z; Share *w = share(f); loop_init(w, f, 1, long(count) + 1, 1, 1); return GOMP_sections_next(); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_barrier(void) { barrier(); }
bool GOMP_single_start(void) { Busy z; bool f; Share *w = share(f); if (w->taken) return false; w->taken = true; return true; }
void *GOMP_single_copy_start(void) { bool f; bool mine; { Busy z; Share *w = share(f); mine = !w->taken; w->taken = true; } if (mine) return nullptr; const size_t k = self()->share - 1; barrier(); void *p = self()->team->shares[k].copy; return p; }
void GOMP_single_copy_end(void *d) { last_share()->copy = d; barrier(); }
static bool next_long(long *s, long *e) { return take(nullptr, *s, *e); }
static bool next_ull(unsigned long long *s, unsigned long long *e) { long a, b; if (!take(nullptr, a, b)) return false; *s = a; *e = b; return true; }
#define LOOP(NAME) \
   bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { { Busy z; bool f; Share *w = share(f); loop_init(w, f, s, e, i, c); } return next_long(a, b); } \
   bool GOMP_loop_##NAME##_next(long *a, long *b) { return next_long(a, b); } \
   bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) \
   { { Busy z; bool f; Share *w = share(f); loop_init(w, f, long(s), long(e), long(i), long(c)); } return next_ull(a, b); } \
   bool GOMP_loop_ull_##NAME##_next(unsigned long long *a, unsigned long long *b) { return next_ull(a, b); } \
   void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { Share w; loop_init(&w, true, s, e, i, c); parallel(fn, d, n, &w); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(NAME) \
   bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); } \
   bool GOMP_loop_##NAME##_next(long *a, long *b) { return next_long(a, b); } \
   bool GOMP_loop_ull_##NAME##_start(bool u, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *a, unsigned long long *b) { return GOMP_loop_ull_dynamic_start(u, s, e, i, 1, a, b); } \
   bool GOMP_loop_ull_##NAME##_next(unsigned long long *a, unsigned long long *b) { return next_ull(a, b); } \
   void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { Share w; loop_init(&w, true, s, e, i, 1); parallel(fn, d, n, &w); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) {}
void GOMP_critical_start(void) { team::lock(&critical_key, "critical"); }
void GOMP_critical_end(void) { unlock(&critical_key, "critical"); }
void GOMP_critical_name_start(void **p) { team::lock(p, lock_name(p)); }
void GOMP_critical_name_end(void **p) { unlock(p, lock_name(p)); }
void GOMP_atomic_start(void) { team::lock(&atomic_key, "atomic"); }
void GOMP_atomic_end(void) { unlock(&atomic_key, "atomic"); }
void GOMP_task(void (*fn)(void *), void *d, void (*cp)(void *, void *), long n, long al, bool, unsigned, void **, int, void *)
{
   if (!cp) { fn(d); return; }
   std::unique_ptr<char[]> m(new char[n + al]);
   char *p = m.get() + (al ? (al - (Addr)m.get() % al) % al : 0);
   cp(p, d);
   fn(p);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { return self()->member; }
int omp_get_num_threads(void) { Strand *m = self(); return m->team ? m->team->n : 1; }
int omp_get_max_threads(void) { self(); return threads; }
int omp_get_num_procs(void) { return 4; }
int omp_get_thread_limit(void) { return 1 << 20; }
int omp_in_parallel(void) { for (Strand *s = self(); s && s->team; s = s->team->parent) if (s->team->n > 1) return 1; return 0; }
int omp_get_level(void) { return self()->level; }
int omp_get_active_level(void) { int k = 0; for (Strand *s = self(); s && s->team; s = s->team->parent) if (s->team->n > 1) k++; return k; }
int omp_get_ancestor_thread_num(int l) { Strand *s = self(); while (s->level > l && s->team) s = s->team->parent; return s->member; }
int omp_get_team_size(int l) { Strand *s = self(); while (s->level > l && s->team) s = s->team->parent; return s->team ? s->team->n : 1; }
void omp_set_num_threads(int n) { self(); threads = n > 0 ? n : 1; by_level->clear(); }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int v) { self(); max_levels = v ? 99 : 1; }
int omp_get_nested(void) { return max_levels > 1; }
void omp_set_max_active_levels(int n) { self(); max_levels = n; }
int omp_get_max_active_levels(void) { self(); return max_levels; }
int omp_get_supported_active_levels(void) { return 1 << 20; }
void omp_set_schedule(int, int) {}
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void *p) { memset(p, 0, 4); }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { team::lock(p, lock_name(p)); }
void omp_unset_lock(void *p) { unlock(p, lock_name(p)); }
void team_mode(int m, long seed) { self(); mode = m; rnd = 88172645463325252ULL ^ (uint64_t(seed) * 0x9E3779B97F4A7C15ULL); if (!rnd) rnd = 1; }

// ---- what -fsanitize=thread calls
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(N) \
   void __tsan_read##N(void *a) { access(a, N, false); } \
   void __tsan_write##N(void *a) { access(a, N, true); } \
   void __tsan_read##N##_pc(void *a, void *) { access(a, N, false); } \
   void __tsan_write##N##_pc(void *a, void *) { access(a, N, true); } \
   void __tsan_volatile_read##N(void *a) { access(a, N, false); } \
   void __tsan_volatile_write##N(void *a) { access(a, N, true); } \
   void __tsan_unaligned_read##N(void *a) { access(a, N, false); } \
   void __tsan_unaligned_write##N(void *a) { access(a, N, true); } \
   void __tsan_unaligned_volatile_read##N(void *a) { access(a, N, false); } \
   void __tsan_unaligned_volatile_write##N(void *a) { access(a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(a, n, false); }
void __tsan_write_range(void *a, unsigned long n) { access(a, n, true); }
void __tsan_vptr_update(void **a, void *) { access(a, 8, true); }
void __tsan_vptr_read(void **a) { access(a, 8, false); }
#define ATOM(B, T) \
   T __tsan_atomic##B##_load(const volatile T *a, int) { access(a, sizeof(T), false, true); return *a; } \
   void __tsan_atomic##B##_store(volatile T *a, T v, int) { access(a, sizeof(T), true, true); *a = v; } \
   T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { access(a, sizeof(T), true, true); T o = *a; *a = v; return o; } \
   T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { access(a, sizeof(T), true, true); T o = *a; *a = o + v; return o; } \
   T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { access(a, sizeof(T), true, true); T o = *a; *a = o - v; return o; } \
   T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { access(a, sizeof(T), true, true); T o = *a; *a = o & v; return o; } \
   T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { access(a, sizeof(T), true, true); T o = *a; *a = o | v; return o; } \
   T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { access(a, sizeof(T), true, true); T o = *a; *a = o ^ v; return o; } \
   T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { access(a, sizeof(T), true, true); T o = *a; *a = ~(o & v); return o; } \
   int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access(a, sizeof(T), true, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
   int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access(a, sizeof(T), true, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
   T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access(a, sizeof(T), true, true); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
