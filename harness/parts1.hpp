// Parts for properties that quantify over one representation type.
// The property file provides  template <class R, class Ps> void go1(Env&, double);
#ifndef VERIF_PARTS1_HPP
#define VERIF_PARTS1_HPP

template <class R, class Ps> void go1(mon::Env& e, double weight);

inline void all_parts1(mon::Env& e)
{
#if PART == 0
  go1<int, fx::builtin>(e, 1.0);
#elif PART == 1
  go1<long, fx::builtin>(e, 1.0);
#elif PART == 2
  go1<unsigned int, fx::builtin>(e, 0.6);
  go1<unsigned long, fx::few>(e, 0.6);
#elif PART == 3
  go1<int, fx::custom>(e, 0.5);
  go1<long, fx::custom>(e, 0.5);
  go1<long long, fx::list<fx::ops::safe_reduced_io>>(e, 0.5);
#elif PART == 4 // optional: narrow representations
  go1<short, fx::builtin>(e, 0.5);
  go1<signed char, fx::builtin>(e, 0.5);
#else
#error "unknown part"
#endif
}

#endif
