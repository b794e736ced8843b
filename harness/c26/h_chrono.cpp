#include <ieme/chrono.hpp>
#include "judge.inc"
int main()
{
  namespace fc = ieme::chrono;
  fc::seconds const s = std::chrono::milliseconds(1500);
  FR(3, 2, s.count());
  fc::hours const h = s;
  FR(1, 2400, h.count());
  FR(1, 1, fc::to_fractional(std::chrono::seconds(1)).count());
  fc::minutes const m = std::chrono::seconds(90);
  FR(3, 2, m.count());
  FR(1, 1000, fc::microseconds(fc::nanoseconds(std::chrono::nanoseconds(1))).count());
  FR(1, 1000, fc::seconds(fc::milliseconds(std::chrono::milliseconds(1))).count());
  fc::duration<long, std::ratio<60>> const d = std::chrono::seconds(30);
  FR(1, 2, d.count());
  using C = fc::clock_wrapper<std::chrono::steady_clock>;
  IS(C::is_steady);
  auto const t0 = std::chrono::steady_clock::now();
  auto const t = C::now();
  auto const t1 = std::chrono::steady_clock::now();
  IS(fc::to_fractional(t0) <= t && t <= fc::to_fractional(t1));
  DONE
}
