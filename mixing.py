"""C27: programs that observe whether fractions of different policies mix."""
import concurrent.futures as cf
import os, re, time
from package import Collector

BUILTIN = ['ieme::ops::' + p for p in ('safe', 'safe_reduced_i', 'safe_reduced_o', 'safe_reduced_io',
                                       'fast', 'fast_reduced_i', 'fast_reduced_o', 'fast_reduced_io')]
OTHERS = ['own::policy', 'ieme::ops::reduced_input<ieme::ops::safe, ieme::reduce_mode::normalize_signs>',
          'ieme::ops::reduced_output<ieme::ops::fast, ieme::reduce_mode::ignore_signs>',
          'ieme::ops::reduced_input<own::policy>', 'ieme::ops::reduced_output<ieme::ops::reduced_output<ieme::ops::safe>>']
REPS = [('int', 'int'), ('int', 'long'), ('long', 'int'), ('unsigned', 'int')]
MORE = [('int', 'unsigned long'), ('long long', 'long'), ('unsigned long', 'unsigned'), ('short', 'int'), ('int', 'short')]
OPS = '+ - * / % += -= *= /= %= == != < <= > >='.split()
NAMES = dict(zip(('plus minus multiplies divides modulus plus_assign minus_assign multiplies_assign divides_assign modulus_assign '
                  'equal not_equal less less_equal greater greater_equal').split(), OPS))


def expression(what, a, b):
    """a whole program around one expression of two policies"""
    use = {'implicit conversion': 'A const r = b;', 'assignment': 'A r = a; r = b;'}.get(what, 'auto const r = (a %s b);' % what)
    if 'mixed_number' in a or 'mixed_number' in b:
        make = 'A a{}; B const b{};'
    else:
        make = 'A a{3, 4}; B const b{1, 2};'
    return ('#include "mixing.hpp"\nusing A = %s;\nusing B = %s;\nint main()\n{\n  %s\n  (void)a;\n  %s\n  (void)r;\n'
            '  std::puts("MIXED");\n}\n' % (a, b, make, use))


def table(tier):
    """the text of the observing program, and how many pairs it has"""
    pols = BUILTIN + (OTHERS if tier == 'thorough' else OTHERS[:3])
    out, n = [], 0
    reps = REPS + (MORE if tier == 'thorough' else [])
    for l, r in reps:
        for p in pols:
            for q in pols:
                a, b = 'ieme::fraction<%s, %s>' % (l, p), 'ieme::fraction<%s, %s>' % (r, q)
                out.append((('one_policy' if p == q else 'mixed_policies'), a, b))
    for p in pols:
        for q in pols:
            if p != q:
                m, k, f = ('ieme::mixed_number<int, int, %s>' % p, 'ieme::mixed_number<int, int, %s>' % q, 'ieme::fraction<int, %s>' % q)
                out += [('mixed_numbers', m, k), ('mixed_numbers', m, f), ('mixed_numbers', f, m)]
    return out


def source(rows):
    # a function per hundred rows keeps the compiler's memory small
    t = ['#include "mixing.hpp"\n#define P(kind, ...) kind<__VA_ARGS__>\n']
    names = []
    for i in range(0, len(rows), 100):
        names.append('part%d' % (i // 100))
        t.append('static void %s()\n{\n' % names[-1])
        t += ['  %s<%s, %s>("%s", "%s");\n' % (k, a, b, a, b) for k, a, b in rows[i:i + 100]]
        t.append('}\n')
    t.append('int main()\n{\n' + ''.join('  %s();\n' % n for n in names)
             + '  std::printf("REFUSED %ld USABLE %ld\\nJUDGED %ld BAD %ld\\n", refused, accepted, judged, bad);\n}\n')
    return ''.join(t)


def confirm(ctx, col, cc, what, a, b, key):
    """does the program exist that the observation speaks of?  True when it was built"""
    name = 'expression_%s_%d' % (cc.replace('+', 'x'), abs(hash((what, a, b))))
    p = os.path.join(ctx['tmp'], name + '.cpp')
    with open(p, 'w') as f:
        f.write(expression(what, a, b))
    exe = p + '.exe'
    st, text = ctx['compile_one'](cc, ['-O0', '-w'], [p], exe, ctx['tmp'], ['-I', os.path.join(ctx['HARNESS'], 'c27')])
    if st == 'ok':
        rc, out = ctx['sh']([exe], 60)
        ctx['res'].violations.append((key, 'a program with %s between %s and %s compiles (%s) and runs: exit %s, %s' % (
            what, a, b, cc, rc, out.strip()[:100]), 'the program:\n' + expression(what, a, b), out[-2000:]))
        return True
    if st != 'broken':
        ctx['res'].errors.append('%s: %s' % (name, text[-1000:]))
    return False


def one(ctx, cc, cfg, rows, number):
    res = ctx['res']
    col = Collector('mixing %d, %s %s' % (number, cc, cfg))
    p = os.path.join(ctx['tmp'], 'mixing_%s_%s_%d.cpp' % (cc.replace('+', 'x'), cfg, number))
    with open(p, 'w') as f:
        f.write(source(rows))
    exe = p + '.exe'
    t = time.time()
    st, text = ctx['compile_one'](cc, ctx['CONFIGS'][cfg], [p], exe, ctx['tmp'], ['-I', os.path.join(ctx['HARNESS'], 'c27')])
    col.d['compile_s'] = round(time.time() - t, 2)
    if st == 'ok':
        t = time.time()
        rc, out = ctx['sh']([exe], 300)
        col.d['run_s'] = round(time.time() - t, 2)
        m = re.search(r'JUDGED (\d+) BAD (\d+)', out)
        if rc is None or rc in (-9, 137):
            res.errors.append('%s was ended from outside' % col.d['name'])
        else:
            r = re.search(r'REFUSED (\d+) USABLE (\d+)', out)
            col.d['evaluations'] = col.d['observations'] = int(m.group(1)) if m else 0
            col.d['distinct'] = int(r.group(1)) if r else 0
            if r:
                col.bucket('expressions of two policies that no program can use', int(r.group(1)))
                col.bucket('expressions of two policies that look usable', int(r.group(2)))
            col.d['samples'] = ['refused: every operator between %s and %s' % (a, b) for k, a, b in rows[:3] if k == 'mixed_policies']
            if rc != 0 or not m or int(m.group(2)) or int(m.group(1)) == 0:
                bad = re.findall(r'MISMATCH (.*)', out)
                res.violations.append(('explicit conversion', 'exit %s: %s' % (rc, ' | '.join(bad[:3]) or out[-300:]), exe, out[-4000:]))
            seen = {}
            for what, a, b in re.findall(r'USABLE\t(.*)\t(.*)\t(.*)', out):
                seen.setdefault(NAMES.get(what, what), []).append((a, b))
            # an expression may look usable and still not build
            for what, pairs in seen.items():
                for a, b in pairs[:3]:
                    if confirm(ctx, col, cc, what, a, b, 'mixing: ' + what):
                        break
        os.remove(exe)
    elif st == 'broken':
        # the observing program itself cannot be built: look at single programs
        col.bucket('tables replaced by single programs')
        ctl = p + '.control.cpp'
        with open(ctl, 'w') as f:
            f.write('#include "mixing.hpp"\nint main()\n{\n  ieme::fraction<int, ieme::ops::safe> const s{1, 2};\n'
                    '  auto const f = static_cast<ieme::fraction<long, ieme::ops::fast>>(s);\n  return f.num() == 1 && f.den() == 2 ? 0 : 1;\n}\n')
        st, ctext = ctx['compile_one'](cc, ['-O0', '-w'], [ctl], ctl + '.exe', ctx['tmp'], ['-I', os.path.join(ctx['HARNESS'], 'c27')])
        if st == 'broken':
            res.violations.append(('explicit conversion', 'the explicit conversion does not build (%s)' % cc, ctext.splitlines()[0], ctext[-4000:]))
        rows = [x for x in rows if x[0] == 'mixed_policies'][:2]
        for k, a, b in rows:
            for what in OPS + ['implicit conversion', 'assignment']:
                col.d['evaluations'] += 1
                col.d['observations'] += 1
                if not confirm(ctx, col, cc, what, a, b, 'mixing: ' + what):
                    col.d['distinct'] += 1
        res.notes.append('%s: the table of expressions does not build, single programs were built instead: %s' % (
            col.d['name'], ' | '.join([x for x in text.splitlines() if 'error' in x][:2])))
    else:
        res.errors.append('%s: %s' % (col.d['name'], text[-1500:]))
    res.shards.append(col.d)


def run(ctx):
    rows = table(ctx['tier'])
    step = 150
    tasks = []
    for cc in ('g++', 'clang++'):
        for cfg in (['plain-O0'] if ctx['tier'] == 'quick' else ['plain-O0', 'asan']):
            for i in range(0, len(rows), step):
                tasks.append((cc, cfg, rows[i:i + step], i // step))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for f in [ex.submit(one, ctx, *t) for t in tasks]:
            f.result()
