// C23: constant evaluation and run-time evaluation agree.
//
// One function (everything.hpp) computes everything the library offers on one
// set of operands and records each result.  It is evaluated by the compiler into
// a table of constants, and then at run time, on operands the optimiser cannot
// see, by the instrumented code; the two records must be identical.
#include "everything.hpp"

#ifndef SEED
#define SEED 1
#endif

// ------------------------------------------------------------------ tables

template <int W, class F> constexpr auto table(F f)
{
  std::array<decltype(f(0)), W> t {};
  for (int i = 0; i < W; ++i)
    t[size_t(i)] = f(i);
  return t;
}

#ifndef COUNT
#define COUNT 40
#endif

template <class R, class P> __attribute__((noinline)) static void one_policy(uint64_t salt)
{
  (void)salt;
  constexpr uint64_t base = uint64_t(SEED) * 1000 + ri<R>.bits;
  static constexpr auto tb = table<COUNT>([](int i) { return binary<R, P>(operands<R>(base + uint64_t(i) * 7)); });
  static constexpr auto tu = table<COUNT>([](int i) { return unary<R, P>(operands<R>(base + uint64_t(i) * 7 + 3)); });
  static constexpr auto tm = table<COUNT>([](int i) { return mixed<R, P>(operands<R>(base + uint64_t(i) * 7 + 5)); });
  static constexpr auto tt = table<NT>([](int i) { return parsed<R, P>(texts[i]); });
  static constexpr auto tg = table<COUNT>([](int i) { return parsed<R, P>(make_text(base + uint64_t(i))); });
  for (int i = 0; i < COUNT; ++i)
  {
    auto const begin = [](const char* n, Pair const& q) {
      mon::begin(n, pol<P>::s, type_name<R>::s, nullptr, i128(q.an), i128(q.ad), i128(q.bn), i128(q.bd), i128(q.w), i128(q.k));
    };
    Pair q = launder(operands<R>(base + uint64_t(i) * 7));
    begin("arithmetic and comparisons", q);
    agree("arithmetic", tb[size_t(i)], binary<R, P>(q));
    mon::done();
    q = launder(operands<R>(base + uint64_t(i) * 7 + 3));
    begin("functions of one fraction", q);
    agree("functions", tu[size_t(i)], unary<R, P>(q));
    mon::done();
    q = launder(operands<R>(base + uint64_t(i) * 7 + 5));
    begin("mixed numbers and durations", q);
    agree("mixed numbers", tm[size_t(i)], mixed<R, P>(q));
    mon::done();
    Text const t = launder(make_text(base + uint64_t(i)));
    mon::begin("generated text", pol<P>::s, type_name<R>::s, nullptr);
    mon::begin_text(t.c, size_t(t.n));
    agree("text", tg[size_t(i)], parsed<R, P>(t));
    mon::done();
  }
  for (int i = 0; i < NT; ++i)
  {
    std::string const copy(launder(texts[i]));
    mon::begin("text", pol<P>::s, type_name<R>::s, nullptr);
    mon::begin_text(copy.data(), copy.size());
    agree("text", tt[size_t(i)], parsed<R, P>(std::string_view(copy)));
    mon::done();
  }
}

template <class R, class Ps> static void parts(mon::Env& e) { each(Ps {}, [&]<class P>() { one_policy<R, P>(e.seed); }); }

static void run(mon::Env& e)
{
#if PART == 0
  parts<int, safe_family>(e);
#elif PART == 1
  parts<long, safe_family>(e);
#elif PART == 2
  parts<int, fast_family>(e);
#elif PART == 3
  parts<long, fast_family>(e);
#elif PART == 4
  parts<unsigned int, few>(e);
#elif PART == 5
  parts<unsigned long, list<ops::safe_reduced_io, ops::fast>>(e);
  parts<int, list<safe_in_norm, fast_out_ign, fast_io_norm>>(e);
#endif
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, run); }
