SAN = 'Instrumented by AddressSanitizer and UBSan (no recovery), traps, terminate and hangs of the child observed by a parent process. '
TRUST = 'Exploration: nothing is shown about operands not executed. Trusts the 128-bit oracle of harness/frac.hpp, the compilers and the sanitizers. '
def t(o): return 'runtime monitoring: sanitizer-instrumented execution of the real code under generated workloads, judged by ' + o
TECH = {
 'C01': (t('an exact wide-integer oracle'), SAN + 'Every result compared as a rational with the 128-bit value, for ten policies, nine representation types and mixed pairs. ' + TRUST),
 'C02': (t('an exact wide-integer oracle'), SAN + 'Value, sign and magnitude of every remainder compared with the 128-bit one. ' + TRUST),
 'C03': (t('an exact order oracle and online checks of sorted and ordered containers'), SAN + 'All six relations of every pair against the exact order; sort, map, min/max over mixed representations. ' + TRUST),
 'C04': (t('a trap/UB monitor and a monitor of definedness along operation chains'), SAN + 'Every operation on undefined operands must end undefined without a trap. ' + TRUST),
 'C05': (t('a canonicity monitor on each result'), SAN + 'Coprimality, sign and idempotence of each reduction, and each output of reducing policies. ' + TRUST),
 'C06': (t('UBSan as overflow monitor plus an exact oracle at the edge of the domain'), SAN + 'Operands placed where the plain formula would overflow. ' + TRUST),
 'C07': (t('an exact online model of the history'), SAN + 'Histories of up to 70 operators on three variables and aliased operands against exact rationals. ' + TRUST),
 'C08': (t('an exact wide-integer oracle'), SAN + TRUST),
 'C09': (t('an exact wide-integer oracle'), SAN + TRUST),
 'C10': (t('an exact wide-integer oracle'), SAN + TRUST),
 'C11': (t('an exact wide-integer oracle'), SAN + 'Every base up to 300 with every in-range exponent enumerated. ' + TRUST),
 'C12': (t('an exact wide-integer oracle'), SAN + TRUST),
 'C13': (t('component-by-component comparison with the arguments'), SAN + TRUST),
 'C14': (t('the exact significand and exponent of each input'), SAN + 'Thorough: every float bit pattern. ' + TRUST),
 'C15': (t('a quadruple-precision reference'), SAN + TRUST),
 'C16': (t('an independent grammar and exact value'), SAN + TRUST),
 'C17': (t('an independent grammar, with buffers that end at a poisoned page'), SAN + TRUST),
 'C18': (t('an exact wide-integer oracle and an online model of histories'), SAN + TRUST),
 'C19': (t('equality/hash agreement and an online model of hashed containers'), SAN + TRUST),
 'C20': (t('an online model of the stream and injected stream faults'), SAN + TRUST),
 'C21': (t('exact time arithmetic in wide integers'), SAN + TRUST),
 'C22': (t('an exact order oracle against every limit'), SAN + TRUST),
 'C23': (t('comparison of compile-time results with run-time ones'), SAN + 'The compiler as the constant evaluator (it rejects undefined behaviour); the table is the same at both times. ' + TRUST),
 'C24': (t('lock-step comparison with the explicitly named policy'), SAN + TRUST),
 'C25': ('runtime monitoring: ThreadSanitizer, memcheck, pattern-filled memory and replay of recorded results in other orders, threads, builds', 'Results of the same calls compared bit for bit across orders, threads, compilers and optimisation levels. ' + TRUST),
 'C28': (t("the user policy's own result in 128-bit integers"), SAN + 'Two policies written in the harness, and their compositions with the reducing wrappers. ' + TRUST),
 'C29': ('runtime monitoring: every public call metered by compiler coverage callbacks (steps, stack) and an interposed allocator; errno, locale and rounding mode watched', 'Step counts are those of the compiled code (basic blocks), so the bound is several times what is observed on this tree. ' + TRUST),
 'C26': ('runtime monitoring: client programs built from the public headers alone, installed or in place, run under sanitizers and judged by their output', 'A client that no longer compiles, links or prints the documented results is a violation. ' + TRUST),
 'C27': ('runtime monitoring: executed programs report which expressions between fractions of different policies a program can use; each one reported is built into a program of its own and run', 'The refusals are observed by the executed program (requires-expressions evaluated by the compiler), so this is the compiler\'s overload resolution seen through a run; a violation is always a running program that mixes policies. ' + TRUST),
}
NA = {}
