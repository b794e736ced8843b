// C19: equal fractions hash equally, so hashed containers work.
#include "frac.hpp"

#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace fx;

template <class T> static size_t sh_(T const& v) { return std::hash<T>()(v); }

template <class R, class P> void pair(Fr a, Fr b)
{
  Ri const r = ri<R>;
  if (!holds(a, r) || !holds(b, r))
    return mon::ood();
  auto const x = mk<R, P>(a), y = mk<R, P>(b);
  mon::begin("hash of two representations", pol<P>::s, type_name<R>::s, nullptr, a.n, a.d, b.n, b.d);
  Fr v;
  bool const equal = a.d && b.d && eqv(a, b);
  auto want = [&](const char* what, size_t p, size_t q, std::string const& l, std::string const& m) {
    mon::seen();
    if (p != q)
      mon::fail(what, "%s: %s and %s hash to %zx and %zx", what, l.c_str(), m.c_str(), p, q);
  };
  if (equal)
  {
    want("std::hash of equal fractions", sh_(x), sh_(y), sh(a), sh(b));
    want("ieme::hash of equal fractions", ieme::hash(x), ieme::hash(y), sh(a), sh(b));
    // what the library itself says is equal, too
    if (domain(pol<P>::d, CMP, a, false, b, false, r, v))
    {
      mon::seen();
      if (!(x == y))
        mon::fail("==", "%s == %s is false", sh(a).c_str(), sh(b).c_str());
    }
    // as the fractional parts of mixed numbers with the same whole part
    Fr const q = red(a, true);
    if (iabs(q.n) < q.d)
    {
      using M = ieme::mixed_number<R, R, P>;
      R const w = R(q.n < 0 ? 0 : 3);
      M const m1(w, x), m2(w, y);
      want("std::hash of equal mixed numbers", sh_(m1), sh_(m2), sh(a), sh(b));
      want("ieme::hash of equal mixed numbers", ieme::hash(m1), ieme::hash(m2), sh(a), sh(b));
    }
  }
  else
    MON_BUCKET("pair of different values");
  // repeatable, and identical operands built separately
  auto const x2 = mk<R, P>(a);
  want("std::hash repeated", sh_(x), sh_(x2), sh(a), sh(a));
  want("ieme::hash repeated", ieme::hash(x), ieme::hash(x2), sh(a), sh(a));
  raw_fraction<R> const u = x.raw(), w = x2.raw();
  want("std::hash of raw fractions", sh_(u), sh_(w), sh(a), sh(a));
  want("ieme::hash of raw fractions", ieme::hash(u), ieme::hash(w), sh(a), sh(a));
  mon::done();
  static uint64_t* const bk[3] = {mon::bucket("%s %s: equal, different representation", pol<P>::s, type_name<R>::s),
                                  mon::bucket("%s %s: negative denominator", pol<P>::s, type_name<R>::s),
                                  mon::bucket("%s %s: zero", pol<P>::s, type_name<R>::s)};
  if (equal && !(a.n == b.n && a.d == b.d))
    ++*bk[0];
  if (a.d < 0 || b.d < 0)
    ++*bk[1];
  if (a.n == 0)
    ++*bk[2];
}

// Containers holding many values in many representations.
template <class R, class P> void containers(mon::Env& e, uint64_t id)
{
  using X = fraction<R, P>;
  Ri const r = ri<R>;
  mon::Rng g(e.seed * 104729 + id);
  mon::begin("hashed containers", pol<P>::s, type_name<R>::s, nullptr, i128(e.seed), i128(id));
  // distinct reduced values, by the oracle; small enough for == to be in range
  // in any representation used below
  int const bits = r.bits / 4;
  std::vector<Fr> vals;
  int const want = g.range(1, 60);
  for (int tries = 0; int(vals.size()) < want && tries < 400; ++tries)
  {
    Fr f {gen_mag(g, r, bits), 1 + gen_mag(g, r, bits - 1)};
    if (g.chance(50))
      f = {g.range(0, 6), g.range(1, 6)};
    f.n = sgn_(g, r, f.n, 45);
    f = red(f, true);
    bool dup = false;
    for (auto const& v : vals)
      dup = dup || (v.n == f.n && v.d == f.d);
    if (!dup)
      vals.push_back(f);
  }
  auto rep = [&](Fr f) -> X {
    i128 const k = g.chance(25) ? 1 : 1 + gen_mag(g, r, bits - 1);
    f = {f.n * k, f.d * k};
    if (r.sg && g.chance(40))
      f = {-f.n, -f.d};
    return mk<R, P>(f);
  };
  std::unordered_set<X> set;
  std::unordered_map<X, size_t> map(size_t(g.range(1, 64)));
  size_t inserts = 0;
  for (int round = 0; round < 4; ++round)
    for (size_t i = 0; i < vals.size(); ++i)
    {
      X const x = rep(vals[i]);
      bool const fresh = set.insert(x).second;
      map[x] = i;
      ++inserts;
      mon::seen();
      if (fresh != (round == 0))
        mon::fail("unordered_set::insert", "inserting %s (value %s, round %d) %s", sh(get(x)).c_str(), sh(vals[i]).c_str(), round,
                  fresh ? "added it again" : "found another value");
    }
  mon::seen(2);
  if (set.size() != vals.size() || map.size() != vals.size())
    mon::fail("container size", "%zu distinct values, the set holds %zu, the map %zu", vals.size(), set.size(), map.size());
  for (size_t i = 0; i < vals.size(); ++i)
  {
    X const x = rep(vals[i]);
    mon::seen(3);
    if (set.count(x) != 1)
      mon::fail("unordered_set::count", "%s (value %s) is not found", sh(get(x)).c_str(), sh(vals[i]).c_str());
    auto const it = map.find(x);
    if (it == map.end() || it->second != i)
      mon::fail("unordered_map::find", "%s (value %s) finds the wrong entry", sh(get(x)).c_str(), sh(vals[i]).c_str());
    if (g.chance(50))
    {
      if (set.erase(rep(vals[i])) != 1 || set.count(x) != 0)
        mon::fail("unordered_set::erase", "%s is not erased", sh(vals[i]).c_str());
    }
  }
  mon::done();
  static uint64_t* const bk = mon::bucket("%s %s: container histories", pol<P>::s, type_name<R>::s);
  ++*bk;
}

// Values that differ in one component only do not all collide.
template <class R, class P> void spread()
{
  using X = fraction<R, P>;
  using M = ieme::mixed_number<R, R, P>;
  Ri const r = ri<R>;
  auto judge = [&](const char* what, auto make, int n) {
    mon::begin(what, pol<P>::s, type_name<R>::s, nullptr);
    std::unordered_set<size_t> seen;
    int values = 0;
    for (int i = 0; i < n; ++i)
    {
      size_t h = 0;
      if (!make(i, h))
        continue;
      ++values;
      seen.insert(h);
    }
    mon::seen();
    if (values >= 16 && seen.size() < 4)
      mon::fail(what, "%s: %d different values have only %zu different hashes", what, values, seen.size());
    mon::done();
  };
  for (int which = 0; which < 2; ++which)
  {
    auto h = [&](auto const& v) { return which ? ieme::hash(v) : sh_(v); };
    judge("hashes of n/97", [&](int i, size_t& o) { o = h(mk<R, P>({i + 1, 97})); return true; }, 64);
    judge("hashes of 97/d", [&](int i, size_t& o) { o = h(mk<R, P>({97, i + 1})); return true; }, 64);
    judge("hashes of raw n/97", [&](int i, size_t& o) { o = h(mk<R, P>({i + 1, 97}).raw()); return true; }, 64);
    judge("hashes of raw 97/d", [&](int i, size_t& o) { o = h(mk<R, P>({97, i + 1}).raw()); return true; }, 64);
    judge("hashes of powers of two", [&](int i, size_t& o) { if (i >= r.bits - 1) return false; o = h(mk<R, P>({i128(1) << i, 1})); return true; }, 64);
    judge("hashes of large powers of two", [&](int i, size_t& o) { if (i < 31 || i >= r.bits - 1) return false; o = h(mk<R, P>({i128(1) << i, 1})); return true; }, 64);
    judge("hashes of large powers of two in the denominator", [&](int i, size_t& o) { if (i < 31 || i >= r.bits - 1) return false; o = h(mk<R, P>({1, i128(1) << i})); return true; }, 64);
    // neighbours among the large components: nothing that keeps only the
    // leading bits tells them apart
    i128 const big = r.max - r.max / 3;
    judge("hashes of neighbouring large numerators", [&](int i, size_t& o) { o = h(mk<R, P>({big - i, 1})); return big > 64; }, 64);
    judge("hashes of neighbouring large denominators", [&](int i, size_t& o) { o = h(mk<R, P>({1, big - i})); return big > 64; }, 64);
    judge("hashes of neighbouring large raw numerators", [&](int i, size_t& o) { o = h(mk<R, P>({big - i, 1}).raw()); return big > 64; }, 64);
    judge("hashes of neighbouring large whole parts", [&](int i, size_t& o) { if (big <= 64) return false; o = h(M(R(big - i), mk<R, P>({1, 97}))); return true; }, 64);
    judge("hashes of neighbouring large fractional parts", [&](int i, size_t& o) { if (big <= 64) return false; o = h(M(R(3), mk<R, P>({big - i, r.max}))); return true; }, 64);
    judge("hashes of i & 1/97", [&](int i, size_t& o) { o = h(M(R(i), mk<R, P>({1, 97}))); return true; }, 24);
    judge("hashes of 3 & n/97", [&](int i, size_t& o) { o = h(M(R(3), mk<R, P>({i + 1, 97}))); return r.bits > 8; }, 64);
    judge("hashes of 3 & 1/d", [&](int i, size_t& o) { o = h(M(R(3), mk<R, P>({1, i + 2}))); return r.bits > 8; }, 64);
    if constexpr (ri<R>.sg)
    {
      mon::begin("hashes of n and -n", pol<P>::s, type_name<R>::s, nullptr);
      int same = 0;
      for (int i = 1; i <= 64; ++i)
        same += h(mk<R, P>({i, 97})) == h(mk<R, P>({-i, 97}));
      mon::seen();
      if (same > 60)
        mon::fail("hashes of n and -n", "%d of 64 values hash like their negative", same);
      mon::done();
    }
  }
}

#include "parts1.hpp"

template <class R, class Ps> void go1(mon::Env& e, double w)
{
  Ri const r = ri<R>;
  // every small value against every small value
  int const k = e.thorough ? 20 : 9, lo = r.sg ? -k : 0;
  for (int a = lo; a <= k; ++a)
    for (int b = lo; b <= k; ++b)
      for (int c = lo; c <= k; ++c)
        for (int d = lo; d <= k; ++d)
          if (b && d && a * d == b * c)
            each(Ps {}, [&]<class P>() { pair<R, P>({a, b}, {c, d}); });
  ++mon::S->exhausted_spaces;
  each_lowest(e, r, false, e.count(1000, 50000), [&](Fr a) {
    Fr const q = red(a, true);
    if (!holds(q, r))
      return;
    i128 const top = -q.n > r.max ? 1 : r.max / std::max(iabs(q.n), q.d), k = e.rng.chance(50) ? top : 1;
    bool const flip = e.rng.chance(50) && -q.n <= r.max;
    Fr const b = flip ? Fr {-q.n * k, -q.d * k} : Fr {q.n * k, q.d * k};
    each(Ps {}, [&]<class P>() { pair<R, P>(a, b); });
  });
  each(Ps {}, [&]<class P>() { spread<R, P>(); });
  uint64_t const n = uint64_t(double(e.count(60000, 4000000)) * w);
  for (uint64_t i = 0; e.go(i, n); ++i)
  {
    auto& g = e.rng;
    Fr a = clampfr(gen_fr(g, r, g.range(1, r.bits), g.range(1, r.bits)), r), b;
    if (g.chance(5))
      a.n = 0;
    Fr const q = red(a, true);
    i128 const top = r.max / std::max(iabs(q.n), q.d);
    auto rep = [&] {
      i128 k = g.chance(20) ? 1 : g.chance(20) ? top : 1 + gen_mag(g, r, r.bits) % top;
      if (r.sg && g.chance(40))
        k = -k;
      return Fr {q.n * k, q.d * k};
    };
    if (g.chance(50))
      a = rep();
    b = g.chance(90) ? rep() : clampfr(gen_any(g, r), r);
    each(Ps {}, [&]<class P>() { pair<R, P>(a, b); });
  }
  uint64_t const h = uint64_t(double(e.count(150, 8000)) * w);
  if (r.bits >= 31)
    for (uint64_t i = 0; e.go(i * 256, h * 256); ++i)
      each(Ps {}, [&]<class P>() { containers<R, P>(e, i); });
}

int main(int argc, char** argv) { return mon::main_impl(argc, argv, all_parts1); }
