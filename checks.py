"""Per-property configuration of run.py."""


def std_parts(skip=()):
    """the twelve standard parts of harness/parts.hpp, alternating compilers"""
    return [dict(part=p, cc='clang++' if p % 2 == 0 else 'g++', optional=(p in (9, 11)))
            for p in (9, 8, 6, 7, 5, 4, 3, 2, 1, 0, 10, 11) if p not in skip]


PAIRS = ('Operand pairs from boundary, log-uniform, smooth, shared-denominator, equal-value, '
         'neighbouring, near-limit and exhaustive small generators, judged only when inside the domain '
         'the property states. Non-trivial: not all-zero operands; distinct: by operation, '
         'policy, types and operand values (hash set, counted up to 2^20 per executable).')

CHECKS = {
    'C01': dict(jobs=std_parts(), rule=PAIRS,
                assumptions=['wide-integer (128-bit) oracle in harness/frac.hpp']),

    'C02': dict(jobs=std_parts(), rule=PAIRS + ' Dividends include near-multiples of the divisor.',
                assumptions=['wide-integer (128-bit) oracle in harness/frac.hpp']),
    'C03': dict(jobs=std_parts(), rule=PAIRS + ' Every case judges all six relations; sort/map cases judge whole sequences.',
                assumptions=['wide-integer (128-bit) oracle in harness/frac.hpp']),
}


def unary_parts(skip=()):
    """the five parts of harness/parts1.hpp"""
    return [dict(part=p, cc='g++' if p % 2 == 0 else 'clang++', optional=(p == 4))
            for p in range(5) if p not in skip]


WIDE = ['wide-integer (128-bit) oracle in harness/frac.hpp']
CHECKS.update({
    'C04': dict(jobs=[dict(j, cc='clang++') if j['part'] == 9 else j for j in std_parts()], assumptions=WIDE,
                rule='Operands n/0 with boundary, log-uniform and smooth n against defined and undefined operands '
                     'and wholes; zero divisors 0/d; chains of 3-30 operations after the undefined value; '
                     'exhaustive small components. Distinct: by operation, policy, types and operand values.'),
    'C05': dict(jobs=std_parts(), rule=PAIRS + ' Reduction is judged on each operand; operator results under output-reducing policies.',
                assumptions=WIDE),
    'C06': dict(jobs=unary_parts(), assumptions=WIDE,
                rule='Pairs whose denominators share a large factor with numerators at the edge of the least common '
                     'denominator; small values given by huge unreduced components. Buckets separate cases where the '
                     'plain cross-product formula would overflow. Distinct: by operation, policy, type and operands.'),
    'C07': dict(jobs=std_parts(), assumptions=WIDE,
                rule=PAIRS + ' Aliased operands; histories of 5-70 steps on three variables against an exact model '
                     '(distinct by their seed).'),
})
UNARY = ('Fractions from exhaustive small components in every sign placement plus boundary, log-uniform, smooth, '
         'near-integer, near-half and unreduced generators up to the maximum. Distinct: by function, policy, type and '
         'operand (hash set, counted up to 2^20 per executable).')
CHECKS.update({
    'C08': dict(jobs=unary_parts(), assumptions=WIDE, rule=UNARY),
    'C09': dict(jobs=unary_parts(), assumptions=WIDE,
                rule=UNARY + ' New denominators at the edge of the range, multiples and divisors of the denominator, both signs.'),
    'C10': dict(jobs=unary_parts(), assumptions=WIDE, rule=UNARY),
    'C11': dict(jobs=[dict(part=0, cc='g++'), dict(part=1, cc='clang++')], assumptions=WIDE,
                rule='Every base of magnitude up to 300 with every in-range exponent of both signs; bases at the integer '
                     'roots of the maximum; random bases; every exponent of pow2; extreme exponents of 0, 1, -1.'),
    'C12': dict(jobs=unary_parts(), assumptions=WIDE, rule=UNARY + ' Undefined fractions included.'),
})
CHECKS.update({
    'C13': dict(jobs=unary_parts(), assumptions=WIDE, rule=UNARY + ' std::ratio constants and literal tokens are a fixed table.'),
    'C14': dict(jobs=[dict(part=p, cc='clang++' if p % 2 else 'g++', optional=(p == 5)) for p in range(6)]
                + [dict(part=p, cc='clang++', only_cc=True, config='plain-O2', tier='thorough') for p in range(10, 18)],
                assumptions=['std::frexp/ldexp give the exact significand and exponent', 'IEEE-754 float and double'],
                rule='Every exponent with structured significands of both signs, values n/2^k around the representable '
                     'range, random bit patterns, specials; thorough: every float bit pattern. Distinct: by bit '
                     'pattern, type and policy.'),
    'C15': dict(jobs=unary_parts(), assumptions=['__float128 quotient as reference', 'IEEE-754 arithmetic, round to nearest'],
                rule=UNARY + ' Each case also converts another representation of the value.'),
})
CHECKS.update({
    'C16': dict(jobs=[dict(part=p, cc='clang++' if p % 2 else 'g++') for p in range(4)]
                + [dict(part=2, cc='g++', config='uchar', only_cc=True, tier='thorough')],
                assumptions=['independent literal grammar and wide-integer value in harness/lit.hpp'],
                rule='Literals generated from parts (both bases, every combination of optional parts, separators, '
                     'leading and trailing zeros, powers up to the largest that fits), the maximum with the point in '
                     'each place, and every well-formed string up to 6 (thorough 8) characters over two alphabets; '
                     'judged when inside the domain the property states. Distinct: by text, type and policy.'),
    'C17': dict(jobs=[dict(part=p, cc='clang++' if p % 2 else 'g++') for p in range(3)]
                + [dict(part=0, cc='clang++', config='uchar', only_cc=True, tier='thorough')],
                assumptions=['independent literal grammar in harness/lit.hpp'],
                rule='Mutations of valid literals, random characters and bytes, long texts, views into larger texts, '
                     'every string of up to 4 (thorough 6) characters over 19 characters, every pair of bytes and '
                     'every byte in each place of four literals; well-formed results are skipped before execution. '
                     'Distinct: by text, type and policy.'),
})
CHECKS.update({
    'C18': dict(jobs=[dict(part=p, cc='clang++' if p % 2 else 'g++') for p in range(5)], assumptions=WIDE,
                rule='Every small whole, numerator and denominator; operand pairs of the arithmetic generators with wholes '
                     'up to the maximum, fractions just around one, mixed types on either side; undefined fractions; '
                     'histories of 5-60 additions and negations against an exact total. Distinct: by operation, policy, '
                     'types and operands.'),
})
CHECKS.update({
    'C19': dict(jobs=unary_parts(), assumptions=WIDE,
                rule='Two random representations of one value (scale factors up to the largest that fits, both signs), '
                     'every small equal pair; histories of unordered_set/unordered_map inserts, lookups and erases '
                     'of up to 60 values in random representations (distinct by their seed). Distinct: by operation, '
                     'policy, type and operands.'),
})
CHECKS.update({
    'C20': dict(jobs=[dict(part=p, cc='clang++' if p % 2 else 'g++') for p in range(3)],
                assumptions=['decimal formatting in harness/mon.hpp', 'the C++ standard library streams'],
                rule='Components over the whole range (lowest values and zero denominators included) written and read '
                     'back, alone and in sequences with random blanks, from ordinary and one-character buffers; every '
                     'text of up to 4 (thorough 6) characters over "0-/ 1x+", truncated, mutated and random texts under '
                     'six exception masks; buffers that fail or throw after each number of characters. Distinct: by '
                     'operation, type, text and mask.'),
})
CHECKS.update({
    'C21': dict(jobs=[dict(part=p, cc='clang++' if p % 2 else 'g++', optional=(p == 5)) for p in (4, 0, 1, 2, 3, 5)],
                assumptions=WIDE + ['conversion factors of <ratio>'],
                rule='Pairs of fourteen periods (as to years, 1/60, 1001/30000, 7/3, 10^-7) with small and near-limit counts '
                     'and fractions, equal and neighbouring times in different periods, whole and fractional scalars, '
                     'time points, a fake clock set to each reading, and the three standard clocks read between two '
                     'direct readings. Distinct: by operation, policy, periods and operands.'),
})
CHECKS.update({
    'C22': dict(jobs=unary_parts(), assumptions=WIDE,
                rule='Every small fraction and random ones up to the extremes of the type against every limit, as a bound '
                     'and as operands of + - and the six relations in both orders (when the common denominator form is '
                     'in range), the limits with each other, the traits, and mixed numbers likewise. Distinct: by '
                     'policy, type and fraction.'),
})

CE = {'g++': ['-fconstexpr-ops-limit=100000000000', '-fconstexpr-loop-limit=100000000'],
      'clang++': ['-fconstexpr-steps=4000000000']}
CHECKS.update({
    'C23': dict(jobs=[dict(part=p, cc='clang++' if p % 2 else 'g++', seed_flag=True, ccflags=CE, tflags=['-DCOUNT=200']) for p in range(6)]
                + [dict(part=p, cc=c, config='plain-O3', only_cc=True, seed_flag=True, ccflags=CE, tflags=['-DCOUNT=200'])
                   for p, c in ((0, 'clang++'), (3, 'g++'))],
                assumptions=["the compilers' constant evaluators (they reject undefined behaviour)"],
                rule='A case is one set of operands (small, shared-denominator, equal-value, near-limit, undefined) or one '
                     'text; everything the library offers in constant expressions is computed on it by the compiler and '
                     'again at run time, and each result compared (counted as oracle decisions). Distinct: by operands or '
                     'text, policy and type.'),
})

CHECKS.update({
    'C24': dict(jobs=[dict(part=p, cc='g++' if p % 3 == 1 else 'clang++', config='asan0') for p in range(9)],
                same_digests=True,
                assumptions=WIDE,
                rule='One executable per macro setting (none and each of the eight). A case is one operand pair whose '
                     'arithmetic and relations with no policy named are judged by the promises of the like-named policy '
                     '(exact in its domain, reduced if it reduces outputs), or one set of calls made by default and with '
                     'the policy named, or a type that must name the policy. The results of every explicitly named policy '
                     'are recorded and compared across the nine settings. Distinct: by operands and type.'),
})

MEMCHECK = ['valgrind', '-q', '--error-exitcode=9', '--exit-on-first-error=no', '--track-origins=no']
PT = ['-pthread']
CHECKS.update({
    'C25': dict(jobs=[dict(part=0, cc='clang++', config='tsan', only_cc=True, libs=PT),
                      dict(part=1, cc='clang++', config='tsan', only_cc=True, libs=PT),
                      dict(part=1, cc='g++', config='asan-pattern', only_cc=True, libs=PT),
                      dict(part=0, cc='clang++', config='plain-O3', only_cc=True, libs=PT),
                      dict(part=0, cc='g++', config='plain-O2', only_cc=True, libs=PT),
                      dict(part=1, cc='g++', config='plain-O0', only_cc=True, libs=PT),
                      dict(part=0, cc='g++', config='plain-O1', only_cc=True, libs=PT, wrap=MEMCHECK,
                           flags=['-DFEW=7', '-DTHREADS=2', '-DNO_DIGEST']),
                      dict(part=1, cc='clang++', config='plain-O1', only_cc=True, libs=PT, wrap=MEMCHECK, tier='thorough',
                           flags=['-DTHREADS=2', '-DNO_DIGEST']),
                      dict(part=0, cc='g++', config='tsan', only_cc=True, libs=PT, tier='thorough'),
                      dict(part=1, cc='clang++', config='plain-O3', only_cc=True, libs=PT, tier='thorough')],
                same_digests=True, same_seed=True,
                assumptions=['ThreadSanitizer and memcheck report what they instrument'],
                rule='A case is one group of calls on one set of shared constant operands (arithmetic, functions of one '
                     'fraction, mixed numbers, parsing, floating point, hashing, streams); an evaluation is one execution '
                     'of it in some pass: from 8 threads before anything else was called, in order, repeated, in random '
                     'orders, with garbage in unused memory, from 8 threads again; each result is compared with the '
                     'reference. Distinct: by group, policy, type and operands.'),
})

CHECKS.update({
    'C28': dict(jobs=[dict(part=p, cc='clang++' if p % 2 else 'g++', optional=(p == 8)) for p in range(9)],
                assumptions=['the policies of harness/c28.cpp are consistent: their three forms agree, and so do their relations'],
                rule='Landmark and generated operands (undefined and unrepresentable results included) under two policies '
                     'written in the harness - one exact in wide integers, one lossy and with an order of its own - and '
                     'six compositions of them with the reducing wrappers; every operator, compound assignment and '
                     'relation must give what the policy gives. Distinct: by operation, policy, types and operands.'),
})

CHECKS.update({
    'C29': dict(jobs=[dict(part=0, cc='g++', config='steps', only_cc=True),
                      dict(part=1, cc='clang++', config='steps', only_cc=True),
                      dict(part=2, cc='g++', config='steps', only_cc=True),
                      dict(part=3, cc='clang++', config='steps', only_cc=True),
                      dict(part=1, cc='g++', config='steps-O0', only_cc=True, tier='thorough'),
                      dict(part=0, cc='clang++', config='steps-O0', only_cc=True, tier='thorough'),
                      dict(part=3, cc='g++', config='steps-O0', only_cc=True, tier='thorough')],
                assumptions=['coverage callbacks count every basic block of code compiled with them (the library is all headers)'],
                rule='Operands that keep Euclidean and subtractive algorithms busiest (Fibonacci neighbours, huge against tiny, '
                     'powers of two against powers of three), landmarks and generated ones; extreme exponents; every exponent of '
                     'float and double; texts of up to thousands of characters. Each call is metered: basic blocks, depth of the '
                     'stack, allocations, errno. Distinct: by operation, policy, type and operands.'),
})

import package  # noqa: E402
CHECKS.update({
    'C26': dict(jobs=[], extra=package.run,
                assumptions=['with tests off the missing Catch2 submodule may be replaced by an empty directory'],
                rule='A case is one client program, built against the tree and executed, that judges the results of the '
                     'facilities it uses: each public header alone, the umbrella header, every header twice in random '
                     'order, every example of README.md with its documented result, two units linked (each compiler and '
                     'both together), and CMake clients of the installed package and of the added subdirectory. '
                     'Distinct: by program, compiler and configuration.'),
})

import mixing  # noqa: E402
CHECKS.update({
    'C27': dict(jobs=[], extra=mixing.run,
                assumptions=['an expression that looks usable to a requires-expression counts only when a program made of it is built and run'],
                rule='A case is one expression (sixteen operators, implicit conversion, assignment) between two fraction types of '
                     'different policies, or a conversion between mixed numbers and fractions of different policies. Programs '
                     'observe at run time whether it is usable; one that is, is put into a program of its own, which must not '
                     'exist. The explicit conversions, and the operators within one policy, are executed as controls. '
                     'Distinct: expressions between different policies found unusable, by compiler and configuration.'),
})
