// How policies and representation types are spread over the executables of the
// properties that quantify over both.  -DPART=n selects one; the driver's
// configuration (run.py) says which parts exist and with which compiler.
//
// The property file provides
//   template <class L, class R, class Ps> void go(mon::Env&, double weight);
#ifndef VERIF_PARTS_HPP
#define VERIF_PARTS_HPP

template <class L, class R, class Ps> void go(mon::Env& e, double weight);

inline void all_parts(mon::Env& e)
{
#if PART == 0
  go<int, int, fx::safe_family>(e, 1.0);
#elif PART == 1
  go<int, int, fx::fast_family>(e, 1.0);
#elif PART == 2
  go<long, long, fx::safe_family>(e, 1.0);
#elif PART == 3
  go<long, long, fx::fast_family>(e, 1.0);
#elif PART == 4
  go<unsigned int, unsigned int, fx::builtin>(e, 0.35);
#elif PART == 5
  go<unsigned long, unsigned long, fx::builtin>(e, 0.35);
#elif PART == 6
  go<int, int, fx::custom>(e, 0.4);
  go<long, long, fx::custom>(e, 0.4);
#elif PART == 7
  go<int, long, fx::few>(e, 0.3);
  go<long, int, fx::few>(e, 0.3);
#elif PART == 8
  go<unsigned int, unsigned long, fx::few>(e, 0.2);
  go<unsigned long, unsigned int, fx::few>(e, 0.2);
  go<int, unsigned int, fx::list<fx::ops::safe_reduced_io>>(e, 0.3);
  go<long long, int, fx::list<fx::ops::safe, fx::ops::fast_reduced_o>>(e, 0.2);
  go<long long, long long, fx::list<fx::ops::safe_reduced_io>>(e, 0.3);
#elif PART == 9 // optional: narrow representations
  go<short, short, fx::builtin>(e, 0.3);
  go<signed char, signed char, fx::builtin>(e, 0.3);
#elif PART == 10 // neither type is the common one
  go<long long, unsigned long, fx::list<fx::ops::safe_reduced_io, fx::ops::fast_reduced_o>>(e, 0.2);
  go<unsigned long, long long, fx::list<fx::ops::safe, fx::ops::fast>>(e, 0.2);
#elif PART == 11 // optional: neither type is the common one, narrow ones
  go<short, signed char, fx::list<fx::ops::safe_reduced_io, fx::ops::fast>>(e, 0.3);
  go<signed char, short, fx::list<fx::ops::safe, fx::ops::fast_reduced_i>>(e, 0.3);
#else
#error "unknown part"
#endif
}

#endif
