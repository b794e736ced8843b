// A program with names of its own, some before and some after the header, like
// those of the library and of the standard headers the library may include.
struct fraction { int top, bottom; };
struct mixed_number { int whole; };
namespace ops { static int safe = 1, fast = 2, defaults = 3; }
enum class reduce_mode { mine };
static int reciprocal(int x) { return -x; }
static int to_whole(int x) { return x + 100; }
#include <ieme/ieme.hpp>
#include "judge.inc"
struct raw_fraction { int a; };
struct limits { int low, high; };
struct numeric_limits { int n; };
struct ratio { int x; };
struct seconds { int n; };
struct milliseconds { int n; };
struct minutes { int n; };
struct hours { int n; };
struct duration { int n; };
struct time_point { int n; };
struct clock_wrapper { int n; };
struct hash { int h; };
struct optional { int o; };
struct tuple { int t; };
struct pair { int p; };
struct string { int s; };
struct string_view { int s; };
struct ostream { int o; };
struct istream { int i; };
struct denominator_literal { int d; };
struct scan_results { int r; };
enum class sign { minus, plus };
enum class round_mode { mine };
static int reduce(int x) { return x + 1; }
static int normalize_signs(int x) { return x + 2; }
static int redenominate(int x) { return x + 3; }
static int is_zero(int x) { return x + 4; }
static int is_positive(int x) { return x + 5; }
static int is_integer(int x) { return x + 6; }
static int gcd(int x, int y) { return x + y; }
static int lcm(int x, int y) { return x - y; }
static int pow2(int x) { return x + 7; }
static int to_fraction(int x) { return x + 8; }
static int to_double(int x) { return x + 9; }
static int hash_combine(int x) { return x + 10; }
static int get(int x) { return x + 11; }
static int move(int x) { return x + 12; }
static int swap(int x) { return x + 13; }
static int number(int x) { return x + 14; }
static int left = 1, right = 2, symbol = 3, function = 4, value = 5, stream = 6, numerator = 7, denominator = 8;
namespace literals { static int n = 9; }
namespace chrono { static int n = 10; }
namespace math_utilities { static int n = 11; }
namespace parse_utilities { static int n = 12; }
static int operator""_fr(unsigned long long x) { return int(x) + 15; }
static int operator""_dec(char const*) { return 16; }

int main()
{
  fraction f {1, 2};
  mixed_number m {3};
  raw_fraction r {4};
  limits l {5, 6};
  numeric_limits n {7};
  ratio q {8};
  seconds s {9};
  milliseconds ms {10};
  minutes mi {11};
  hours h {12};
  duration d {13};
  time_point t {14};
  clock_wrapper c {15};
  hash ha {16};
  optional o {17};
  tuple tu {18};
  pair p {19};
  string st {20};
  string_view sv {21};
  ostream os {22};
  istream is {23};
  denominator_literal dl {24};
  scan_results sr {25};
  IS(f.top + f.bottom + m.whole + r.a + l.low + l.high + n.n + q.x == 36);
  IS(s.n + ms.n + mi.n + h.n + d.n + t.n + c.n == 84);
  IS(ha.h + o.o + tu.t + p.p + st.s + sv.s + os.o + is.i + dl.d + sr.r == 205);
  IS(reduce_mode::mine == reduce_mode(0) && round_mode::mine == round_mode(0) && sign::plus != sign::minus);
  IS(reciprocal(2) == -2 && to_whole(1) == 101 && reduce(1) == 2 && normalize_signs(1) == 3 && redenominate(1) == 4);
  IS(is_zero(0) == 4 && is_positive(0) == 5 && is_integer(0) == 6 && gcd(4, 6) == 10 && lcm(4, 6) == -2 && pow2(0) == 7);
  IS(to_fraction(0) == 8 && to_double(0) == 9 && hash_combine(0) == 10 && get(0) == 11 && move(0) == 12 && swap(0) == 13 && number(0) == 14);
  IS(left + right + symbol + function + value + stream + numerator + denominator == 36);
  IS(ops::safe + ops::fast + ops::defaults == 6 && literals::n + chrono::n + math_utilities::n + parse_utilities::n == 42);
  IS(1_fr == 16 && 1.5_dec == 16);
  // and the library's are still found by their full names
  FR(5, 6, ieme::fraction<int>(1, 2) + ieme::fraction<int>(1, 3));
  FR(1, 2, reduce(ieme::fraction<int>(2, 4)));
  FR(2, 1, reciprocal(ieme::fraction<int>(1, 2)));
  IS(gcd(ieme::fraction<int>(1, 2).num(), 4) == 5);
  DONE
}
