// C25: operations are pure.
//
// A fixed list of calls over shared constant operands is made by several
// threads at once (before anything has been called, so first uses race too),
// then again in order, repeated, in random order, with the stack and the heap
// filled with different garbage, and from threads again.  Every result of every
// pass is recorded and must be that of the first pass.  ThreadSanitizer watches
// the accesses, memcheck and pattern-filled variables the use of uninitialised
// memory, and the results are compared across compilers and builds.
#include "everything.hpp"

#include <atomic>
#include <cfenv>
#include <memory>
#include <sstream>
#include <thread>

#ifndef THREADS
#define THREADS 8
#endif

// ------------------------------------------------------------------ shared operands

template <class R, class P> struct Shared {
  struct Item {
    Pair q;
    fraction<R, P> x, y;
    R w;
    ieme::mixed_number<R, R, P> m, n;
    raw_fraction<R> raw;
    std::string text, fr;
    float f;
    double d;
  };
  std::vector<Item> v;
  static Shared& get()
  {
    static Shared s;
    return s;
  }
  void fill(uint64_t seed, int n)
  {
    // values only: nothing but constructors is called here
    Ri const r = ri<R>;
    for (int i = 0; i < n; ++i)
    {
      Item t;
      t.q = operands<R>(seed * 1000 + uint64_t(i));
      t.x = first<R, P>(t.q);
      t.y = second<R, P>(t.q);
      t.w = static_cast<R>(t.q.w);
      t.raw = {static_cast<R>(t.q.an), static_cast<R>(t.q.ad)};
      Text const tx = make_text(seed + uint64_t(i) * 3);
      t.text.assign(tx.c, size_t(tx.n));
      t.fr = mon::str(i128(t.q.an)) + "/" + mon::str(i128(t.q.ad)) + (i % 3 ? " " : "");
      Gen g {seed + uint64_t(i)};
      t.f = float(g.below(20000) - (r.sg ? 10000 : 0)) / float(1 << g.below(15));
      t.d = double(g.below(200000) - (r.sg ? 100000 : 0)) / double(1 << g.below(20));
      if (i % 11 == 0)
        t.d = i % 2 ? 1e300 : -0.0;
      v.push_back(t);
    }
  }
};

// ------------------------------------------------------------------ calls

struct Call {
  void (*f)(int, Digest&);
  int i;
  const char* what;
};

template <class R, class P> struct Calls {
  static typename Shared<R, P>::Item const& at(int i) { return Shared<R, P>::get().v[size_t(i)]; }

  static void arithmetic(int i, Digest& d)
  {
    auto const& t = at(i);
    d.add(binary_on<R, P>(t.x, t.y, t.w, t.q));
  }
  static void functions(int i, Digest& d)
  {
    auto const& t = at(i);
    d.add(unary_on<R, P, false>(t.x, t.y, t.q));
  }
  static void mixed_numbers(int i, Digest& d) { d.add(mixed<R, P>(at(i).q)); }
  static void parsing(int i, Digest& d) { d.add(parsed<R, P>(at(i).text)); }
  static void floats(int i, Digest& d)
  {
    auto const& t = at(i);
    Out<4> o;
    o.put("to_fraction(float)", ieme::to_fraction<R, P>(t.f));
    o.put("to_fraction(double)", ieme::to_fraction<R, P>(t.d));
    d.add(o);
  }
  static void hashing(int i, Digest& d)
  {
    auto const& t = at(i);
    d.word(std::hash<fraction<R, P>>()(t.x));
    d.word(ieme::hash(t.y));
    d.word(ieme::hash(t.raw));
    ieme::mixed_number<R, R, P> const m(static_cast<R>(3), fraction<R, P>(static_cast<R>(1), static_cast<R>(2 + i % 50)));
    d.word(ieme::hash(m));
    d.n += 4;
  }
  static void streams(int i, Digest& d)
  {
    auto const& t = at(i);
    std::ostringstream o;
    o << t.x << ' ' << t.y << ' ' << t.raw;
    std::string const s = o.str();
    for (char c : s)
      d.word(uint64_t(c));
    std::istringstream in(s + " " + t.fr);
    fraction<R, P> a, b;
    raw_fraction<R> c {};
    in >> a >> b >> c;
    Out<6> r;
    r.put("read", a);
    r.put("read", b);
    r.put("read", c);
    r.put("state", bool(in));
    in >> a;
    r.put("read", a);
    r.put("state", bool(in));
    d.add(r);
  }

  // objects constructed without arguments in memory that held something else
  template <class T, class Look> static __attribute__((noinline)) void fresh(Digest& d, Look look)
  {
    static thread_local unsigned char garbage = 0x17;
    garbage = static_cast<unsigned char>(garbage * 5 + 0x3b);
    alignas(T) unsigned char place[sizeof(T) * 3];
    memset(place, garbage, sizeof place);
    asm volatile("" : : "r"(place) : "memory");
    for (int k = 0; k < 3; ++k)
    {
      T* const p = new (place + size_t(k) * sizeof(T)) T;
      asm volatile("" : : "r"(p) : "memory");
      look(*p, d);
      p->~T();
    }
    void* const h = malloc(sizeof(T));
    memset(h, garbage ^ 0xff, sizeof(T));
    asm volatile("" : : "r"(h) : "memory");
    T* const p = new (h) T;
    look(*p, d);
    p->~T();
    free(h);
  }
  static void construction(int, Digest& d)
  {
    auto frac = [](auto const& x, Digest& g) {
      g.word(uint64_t(x.numerator()));
      g.word(uint64_t(x.denominator()));
    };
    fresh<raw_fraction<R>>(d, [](auto const& x, Digest& g) {
      g.word(uint64_t(x.numerator));
      g.word(uint64_t(x.denominator));
    });
    fresh<fraction<R, P>>(d, frac);
    fresh<ieme::mixed_number<R, R, P>>(d, [&](auto const& x, Digest& g) {
      g.word(uint64_t(x.whole()));
      frac(x.fractional(), g);
    });
    d.n += 12;
  }

  static void enlist(std::vector<Call>& l, int n)
  {
    for (int i = 0; i < n; ++i)
    {
      l.push_back({arithmetic, i, "arithmetic"});
      l.push_back({functions, i, "functions of one fraction"});
      l.push_back({mixed_numbers, i, "mixed numbers"});
      l.push_back({parsing, i, "parsing"});
      l.push_back({floats, i, "floating point"});
      l.push_back({hashing, i, "hashing"});
      l.push_back({streams, i, "streams"});
      if (i < 4)
        l.push_back({construction, i, "construction without arguments"});
    }
  }
};

// ------------------------------------------------------------------ passes

static __attribute__((noinline)) void dirty_stack(unsigned char c)
{
  volatile unsigned char b[16384];
  for (size_t i = 0; i < sizeof b; ++i)
    b[i] = c;
}

static void dirty_heap(unsigned char c)
{
  void* p[40];
  for (int i = 0; i < 40; ++i)
  {
    size_t const n = size_t(8) << (i % 10);
    p[i] = malloc(n);
    memset(p[i], c, n);
  }
  for (int i = 0; i < 40; ++i)
    free(p[i]);
}

static uint64_t make(Call const& c)
{
  Digest d;
  c.f(c.i, d);
  return d.h;
}

static std::vector<uint32_t> order(size_t n, mon::Rng& g)
{
  std::vector<uint32_t> o(n);
  for (size_t i = 0; i < n; ++i)
    o[i] = uint32_t(i);
  for (size_t i = n; i > 1; --i)
    std::swap(o[i - 1], o[g.below(i)]);
  return o;
}

struct Pass {
  std::vector<uint64_t> h;
  std::vector<uint32_t> ord;
};

// every thread makes every call in an order of its own; neighbours start with
// the same calls so that first uses coincide
static void threads(std::vector<Call> const& l, std::vector<Pass>& out, mon::Rng& g, int nt)
{
  out.assign(size_t(nt), {});
  for (int t = 0; t < nt; ++t)
  {
    out[size_t(t)].h.assign(l.size(), 0);
    if (t % 2)
      out[size_t(t)].ord = out[size_t(t - 1)].ord;
    else
      out[size_t(t)].ord = order(l.size(), g);
  }
  std::atomic<int> ready {0};
  std::vector<std::thread> th;
  uint64_t const salt = g.u();
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      mon::Rng r(salt + uint64_t(t));
      auto& p = out[size_t(t)];
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < nt)
        ;
      for (uint32_t k : p.ord)
      {
        uint64_t const dice = r.u();
        if ((dice & 63) == 0)
          std::this_thread::yield();
        else if ((dice & 63) == 1)
          dirty_stack(static_cast<unsigned char>(dice >> 8));
        p.h[k] = make(l[k]);
      }
    });
  for (auto& t : th)
    t.join();
}

template <class R, class Ps> static void prepare(std::vector<Call>& l, uint64_t seed, int n)
{
  each(Ps {}, [&]<class P>() {
    Shared<R, P>::get().fill(seed, n);
    Calls<R, P>::enlist(l, n);
  });
}

static void publish(std::vector<Call> const& l, std::vector<uint64_t> const& ref, const char* part)
{
#ifndef NO_DIGEST
  // per kind of call, so that a disagreement between builds says where
  const char* kinds[] = {"arithmetic", "functions of one fraction", "mixed numbers", "parsing", "floating point", "hashing", "streams", "construction without arguments"};
  for (const char* k : kinds)
  {
    Digest d;
    for (size_t i = 0; i < l.size(); ++i)
      if (!strcmp(l[i].what, k))
      {
        d.word(ref[i]);
        ++d.n;
      }
    if (strcmp(k, "hashing"))
      d.publish(part, k, "");
  }
#endif
}

static void run(mon::Env& e)
{
  std::vector<Call> l;
#if PART == 0
  const char* const part = "int";
  int const n = int(e.count(60, 400));
  prepare<int, list<ops::safe, ops::safe_reduced_i, ops::safe_reduced_o, ops::safe_reduced_io, ops::fast>>(l, e.seed, n);
  prepare<unsigned int, list<ops::safe_reduced_io>>(l, e.seed, n);
#else
  const char* const part = "long";
  int const n = int(e.count(60, 400));
  prepare<long, list<ops::safe_reduced_io, ops::fast, ops::fast_reduced_i, ops::fast_reduced_io, fast_out_ign>>(l, e.seed, n);
  prepare<unsigned long, list<ops::safe>>(l, e.seed, n);
#endif
#ifdef FEW
  {
    std::vector<Call> s;
    for (size_t i = 0; i < l.size(); i += FEW)
      s.push_back(l[i]);
    l = s;
  }
#endif
  std::vector<uint64_t> ref(l.size(), 0);
  auto judge = [&](const char* pass, std::vector<uint64_t> const& h) {
    mon::seen(l.size());
    for (size_t i = 0; i < l.size(); ++i)
      if (h[i] != ref[i])
      {
        mon::begin(l[i].what, pass, nullptr, nullptr, i128(l[i].i), i128(i));
        mon::fail(l[i].what, "%s: call %zu (operands %d) gave another result in the pass '%s'", l[i].what, i, l[i].i, pass);
      }
  };
  auto count = [&](const char* pass, uint64_t n) {
    *mon::bucket("%s: results compared", pass) += n;
    mon::S->evaluations += n;
    mon::S->progress = mon::S->progress + 1;
  };
  int const fe = std::fegetround();
  int const nt = THREADS;
  mon::Rng g(e.seed * 31 + 7);

  // 1. threads first: nothing has been called yet in this process
  std::vector<Pass> cold;
  mon::begin("calls from threads, first of all", part, nullptr, nullptr);
  threads(l, cold, g, nt);
  // 2. the reference: each call once, in order
  for (size_t i = 0; i < l.size(); ++i)
  {
    mon::begin(l[i].what, part, nullptr, nullptr, i128(i), i128(l[i].i));
    ref[i] = make(l[i]);
    mon::done();
  }
  publish(l, ref, part);
  for (auto const& p : cold)
    judge("threads, first of all", p.h);
  count("threads, first of all", l.size() * cold.size());

  std::vector<uint64_t> h(l.size());
  uint64_t const rounds = e.count(3, 30);
  for (uint64_t k = 0; k < rounds; ++k)
  {
    if (e.elapsed() > e.deadline)
    {
      mon::S->truncated = 1;
      break;
    }
    // 3. immediately repeated
    mon::begin("repeated calls", part, nullptr, nullptr);
    for (size_t i = 0; i < l.size(); ++i)
    {
      uint64_t const a = make(l[i]), b = make(l[i]);
      h[i] = a == b ? a : ~ref[i];
    }
    judge("repeated", h);
    count("repeated", 2 * l.size());
    // 4. in a random order
    mon::begin("calls in a random order", part, nullptr, nullptr);
    for (uint32_t i : order(l.size(), g))
      h[i] = make(l[i]);
    judge("random order", h);
    count("random order", l.size());
    // 5. after filling the stack and the heap with garbage
    static const unsigned char garbage[] = {0x00, 0xff, 0x5a, 0x01, 0x80, 0xaa};
    mon::begin("calls after garbage", part, nullptr, nullptr);
    for (uint32_t i : order(l.size(), g))
    {
      unsigned char const c = garbage[g.below(6)];
      if ((i & 7) == 0)
        dirty_heap(c);
      dirty_stack(c);
      h[i] = make(l[i]);
    }
    judge("garbage in unused memory", h);
    count("garbage in unused memory", l.size());
    // 6. from threads again
    mon::begin("calls from threads", part, nullptr, nullptr);
    std::vector<Pass> warm;
    threads(l, warm, g, nt);
    for (auto const& p : warm)
      judge("threads", p.h);
    count("threads", l.size() * warm.size());
  }
  mon::seen();
  if (std::fegetround() != fe)
    mon::fail("rounding mode", "the rounding mode of the process was changed");
  *mon::bucket("orders of calls tried") += uint64_t(nt + 1) / 2 * (rounds + 1) + 2 * rounds + 1;
  *mon::bucket("calls in the list") += l.size();
  *mon::bucket("threads at once") += uint64_t(nt);
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, run, 400); }
