// a little of everything, with only the umbrella header
#include <sstream>
#include <unordered_set>
static void all_facilities(int k)
{
  using namespace ieme;
  using namespace std;
  using F = fraction<int>;
  F const h {k, 2 * k};
  IS(h == 1 / 2_fr);
  IS(reduce(h).den() == 2);
  IS(h + 1 / 4_fr == 3 / 4_fr);
  IS(to_double(h) == 0.5);
  IS(to_fraction<int>(0.5) == h);
  IS(floating_point_string_to_fraction<int>("0.5") == h);
  IS(0.5_dec == 1L / 2_fr);
  IS(pow(2, -1) == h && pow2<int>(-1) == h);
  IS(round(h) == 1 && trunc(h) == 0 && ceil(h) == 1 && floor(h) == 0);
  IS(is_proper(h) && is_unit_fraction(h));
  mixed_number<int> const m(3, h);
  IS(m.whole() == 3);
  IS(m.as_fraction() == 7 / 2_fr);
  IS(limits<F>::max() >= F(k) && F(k) >= limits<F>::min());
  IS(numeric_limits<F>::has_quiet_NaN);
  unordered_set<F> const s {h, 2 / 4_fr};
  IS(s.size() == 1);
  ieme::chrono::seconds const t = std::chrono::milliseconds(500);
  IS(t.count() == 1L / 2_fr);
  ostringstream o;
  o << reduce(h) << ' ' << raw_fraction<int> {5, 6};
  IS(o.str() == "1/2 5/6");
  istringstream i("3/4");
  F r;
  i >> r;
  IS(r == 3 / 4_fr);
  IS(fraction<long>(h) == 1L / 2_fr && fraction<int, ops::fast>(h).num() == k);
}
