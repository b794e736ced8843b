"""C26: programs made of one header, of several units, of an installed package."""
import concurrent.futures as cf
import glob, os, random, re, shutil, time

# no header of these names promises a facility of its own; they are included when present
INTERNAL = ('numbers', 'parse_utilities')


class Collector:
    def __init__(self, name):
        self.d = dict(name=name, evaluations=0, distinct=0, observations=0, out_of_domain=0,
                      exhausted_spaces=0, buckets={}, samples=[], compile_s=0.0, run_s=0.0, truncated=0)

    def bucket(self, k, n=1):
        self.d['buckets'][k] = self.d['buckets'].get(k, 0) + n


def judge(ctx, col, what, key, cmd, cwd=None):
    """run a client program and read its verdict"""
    res = ctx['res']
    t = time.time()
    rc, out = ctx['sh'](cmd, 120, cwd=cwd)
    col.d['run_s'] = round(col.d['run_s'] + time.time() - t, 2)
    m = re.search(r'JUDGED (\d+) BAD (\d+)', out)
    if rc is None or rc in (-9, 137):
        res.errors.append('%s was ended from outside\n%s' % (what, out[-800:]))
        return
    col.d['evaluations'] += 1
    col.d['distinct'] += 1
    if m:
        col.d['observations'] += int(m.group(1))
    col.bucket('programs run: ' + key)
    if len(col.d['samples']) < 8:
        col.d['samples'].append('%s: exit %s, %s' % (what, rc, m.group(0) if m else 'no verdict'))
    if rc != 0 or not m or int(m.group(2)) or int(m.group(1)) == 0:
        bad = re.findall(r'MISMATCH (.*)', out)
        res.violations.append((key, '%s does not give the documented results (exit %s): %s' % (
            what, rc, ' | '.join(bad[:4]) or out[-300:]), ' '.join(cmd), out[-6000:]))


def errors_of(text):
    return ' | '.join([l for l in text.splitlines()
                       if 'error' in l or 'multiple definition' in l or 'undefined reference' in l][:3])


def build(ctx, col, what, key, cc, flags, srcs, exe):
    res = ctx['res']
    t = time.time()
    st, text = ctx['compile_one'](cc, flags, srcs, exe, ctx['tmp'], ['-I', os.path.join(ctx['HARNESS'], 'c26')])
    col.d['compile_s'] = round(col.d['compile_s'] + time.time() - t, 2)
    if st == 'ok':
        return True
    if st == 'broken':
        col.d['evaluations'] += 1
        col.d['distinct'] += 1
        res.violations.append((key, '%s does not build (%s): %s' % (what, cc, errors_of(text)), text.splitlines()[0], text[-6000:]))
    else:
        res.errors.append('%s: %s' % (what, text[-1500:]))
    return False


def program(ctx, name, key, cc, flags, src_text_or_paths, configs):
    col = Collector(name)
    if isinstance(src_text_or_paths, str):
        p = os.path.join(ctx['tmp'], re.sub(r'\W', '_', name) + '.cpp')
        with open(p, 'w') as f:
            f.write(src_text_or_paths)
        srcs = [p]
    else:
        srcs = src_text_or_paths
    exe = os.path.join(ctx['tmp'], re.sub(r'\W', '_', name) + '.exe')
    if build(ctx, col, name, key, cc, flags, srcs, exe):
        judge(ctx, col, name, key, [exe])
        os.remove(exe)
    ctx['res'].shards.append(col.d)


def linked(ctx, name, first, second, o):
    """two units, each compiled by its own compiler, linked by the first"""
    key = 'two units'
    col = Collector(name)
    d = os.path.join(ctx['HARNESS'], 'c26')
    objs = []
    for cc, src in ((first, 'tu_a.cpp'), (second, 'tu_b.cpp')):
        obj = os.path.join(ctx['tmp'], re.sub(r'\W', '_', name) + src + '.o')
        if not build(ctx, col, '%s (%s)' % (name, src), key, cc, [o, '-c'], [os.path.join(d, src)], obj):
            ctx['res'].shards.append(col.d)
            return
        objs.append(obj)
    exe = objs[0] + '.exe'
    if build(ctx, col, name, key, first, [o], objs, exe):
        judge(ctx, col, name, key, [exe])
    ctx['res'].shards.append(col.d)


def shuffled(rng, headers):
    hs = headers + headers
    rng.shuffle(hs)
    return ''.join('#include <ieme/%s.hpp>\n' % h for h in hs) + \
        '#include "judge.inc"\n#include "all.inc"\nint main()\n{\n  all_facilities(%d);\n  DONE\n}\n' % rng.randint(1, 1000)


CLIENT_CMAKE = '''cmake_minimum_required(VERSION 3.12)
project(Client LANGUAGES CXX)
%s
add_executable(client main.cpp other.cpp)
target_include_directories(client PRIVATE "%s")
target_link_libraries(client PRIVATE %s)
'''


def package(ctx, cc, way):
    """the library as a CMake package: installed, or added as a subdirectory"""
    name = 'CMake client, %s, %s' % (way, cc)
    key = 'CMake package: ' + way
    res, tmp, sh = ctx['res'], ctx['tmp'], ctx['sh']
    col = Collector(name)
    base = os.path.join(tmp, 'package_' + re.sub(r'\W', '_', way + cc))
    os.makedirs(base)
    env = {'CXX': cc, 'CC': 'cc', 'CMAKE_GENERATOR': 'Unix Makefiles'}
    # does CMake work here at all?
    t = time.time()
    ctl = os.path.join(base, 'control')
    os.makedirs(ctl)
    with open(os.path.join(ctl, 'CMakeLists.txt'), 'w') as f:
        f.write('cmake_minimum_required(VERSION 3.12)\nproject(Control LANGUAGES CXX)\nadd_executable(c c.cpp)\n'
                'target_compile_features(c PRIVATE cxx_std_20)\n')
    with open(os.path.join(ctl, 'c.cpp'), 'w') as f:
        f.write('int main(){}\n')
    rc, out = sh(['cmake', '-S', ctl, '-B', ctl + '/b'], 200, env=env)
    rc = rc or sh(['cmake', '--build', ctl + '/b'], 200, env=env)[0]
    if rc != 0:
        res.notes.append('%s skipped: CMake does not build a project without the library here' % name)
        return
    lib = os.path.join(base, 'library')
    os.makedirs(lib)
    for x in ('CMakeLists.txt', 'cmake', 'include', 'src', 'external', 'README.md', 'LICENSE'):
        p = os.path.join(ctx['REPO'], x)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(lib, x))
        elif os.path.exists(p):
            shutil.copy(p, os.path.join(lib, x))
    # the Catch2 submodule is not checked out here; with tests off nothing of it is used
    stub = os.path.join(lib, 'external', 'Catch2')
    if not os.path.exists(os.path.join(stub, 'CMakeLists.txt')):
        os.makedirs(stub, exist_ok=True)
        open(os.path.join(stub, 'CMakeLists.txt'), 'w').close()
    cli = os.path.join(base, 'client')
    os.makedirs(cli)
    d = os.path.join(ctx['HARNESS'], 'c26')
    shutil.copy(os.path.join(d, 'tu_a.cpp'), os.path.join(cli, 'main.cpp'))
    shutil.copy(os.path.join(d, 'tu_b.cpp'), os.path.join(cli, 'other.cpp'))
    steps = []
    prefix = os.path.join(base, 'prefix')
    if way == 'installed':
        find = 'find_package(Ieme %s REQUIRED CONFIG)' % '1.0'
        steps += [['cmake', '-S', lib, '-B', lib + '/b', '-DIEME_BUILD_TESTS=OFF', '-DCMAKE_INSTALL_PREFIX=' + prefix],
                  ['cmake', '--build', lib + '/b'],
                  ['cmake', '--install', lib + '/b']]
    else:
        find = 'set(IEME_BUILD_TESTS OFF CACHE BOOL "")\nadd_subdirectory("%s" ieme-build)' % lib
    target = 'Ieme::Ieme'
    with open(os.path.join(cli, 'CMakeLists.txt'), 'w') as f:
        f.write(CLIENT_CMAKE % (find, d, target))
    steps += [['cmake', '-S', cli, '-B', cli + '/b', '-DCMAKE_PREFIX_PATH=' + prefix],
              ['cmake', '--build', cli + '/b']]
    for i, st in enumerate(steps):
        rc, out = sh(st, 400, env=env)
        if rc is None or re.search(r'Killed signal|internal compiler error|No space left', out):
            res.errors.append('%s: %s gave no answer\n%s' % (name, ' '.join(st), out[-1000:]))
            break
        if rc != 0:
            col.d['evaluations'] += 1
            col.d['distinct'] += 1
            res.violations.append((key, '%s: step %d (%s) fails: %s' % (name, i + 1, st[1], errors_of(out) or out[-300:]),
                                   ' '.join(st), out[-6000:]))
            break
        if way == 'installed' and st[1] == '--install':
            # nothing of the source tree may be needed any more
            shutil.rmtree(lib)
    else:
        col.d['compile_s'] = round(time.time() - t, 1)
        judge(ctx, col, name, key, [os.path.join(cli, 'b', 'client')])
    ctx['res'].shards.append(col.d)
    shutil.rmtree(base, ignore_errors=True)


def run(ctx):
    tier, seed, cfg = ctx['tier'], ctx['seed'], ctx['CONFIGS']
    d = os.path.join(ctx['HARNESS'], 'c26')
    rng = random.Random(seed)
    tasks = []
    singles = sorted(glob.glob(os.path.join(d, 'h_*.cpp')))
    kinds = [('g++', 'asan0'), ('clang++', 'asan0')]
    if tier == 'thorough':
        kinds = [(c, k) for c in ('g++', 'clang++') for k in ('asan0', 'asan', 'plain-O0', 'plain-O2', 'plain-O3')]
    for ci, (cc, k) in enumerate(kinds):
        for s in singles:
            h = os.path.basename(s)[2:-4]
            tasks.append(lambda cc=cc, k=k, s=s, h=h: program(
                ctx, 'only <ieme/%s.hpp>, %s %s' % (h, cc, k), 'header alone: ' + h, cc, cfg[k], [s], None))
        tasks.append(lambda cc=cc, k=k: program(ctx, 'README.md examples, %s %s' % (cc, k), 'documentation', cc, cfg[k],
                                                [os.path.join(d, 'readme.cpp')], None))
        tasks.append(lambda cc=cc, k=k: program(ctx, 'a program with names of its own, %s %s' % (cc, k), 'names of the program', cc,
                                                ['-O0', '-w'] if tier == 'quick' else cfg[k] + ['-w'],
                                                [os.path.join(d, 'own_names.cpp')], None))
    headers = sorted(os.path.basename(s)[2:-4] for s in singles)
    headers += [h for h in INTERNAL if os.path.exists(os.path.join(ctx['INC'], 'ieme', h + '.hpp'))]
    for i in range(2 if tier == 'quick' else 40):
        cc = ('g++', 'clang++')[i % 2]
        tasks.append(lambda cc=cc, i=i, text=shuffled(rng, headers): program(
            ctx, 'every header twice in random order %d, %s' % (i, cc), 'every header, random order', cc,
            ['-O0'] if i % 4 < 2 else ['-O2'], text, None))
    for cc in ('g++', 'clang++'):
        modes = ['-std=c++2b', '-funsigned-char -fno-rtti -fshort-enums', '-D_GLIBCXX_DEBUG -D_GLIBCXX_ASSERTIONS']
        if tier != 'quick':
            modes += ['-std=gnu++20', '-std=gnu++2b', '-O3 -fwrapv', '-O2 -ftrapv', '-fvisibility=hidden -fPIC', '-O2 -fno-strict-aliasing',
                      '-O2 -flto' if cc == 'g++' else '-Os', '-O2 -fno-inline']
        for std in modes:
            tasks.append(lambda cc=cc, std=std: program(
                ctx, 'umbrella header with %s, %s' % (std, cc), 'language mode ' + std, cc, ['-O0'] + std.split(),
                [os.path.join(d, 'h_ieme.cpp')], None))
    for a in ('g++', 'clang++'):
        for b in ('g++', 'clang++'):
            for o in (('-O0',) if tier == 'quick' else ('-O0', '-O2')):
                tasks.append(lambda a=a, b=b, o=o: linked(ctx, 'two units, %s and %s %s' % (a, b, o), a, b, o))
    for way in ('installed', 'as a subdirectory'):
        for cc in (('g++',) if tier == 'quick' else ('g++', 'clang++')):
            tasks.insert(0, lambda cc=cc, way=way: package(ctx, cc, way))
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for f in [ex.submit(t) for t in tasks]:
            f.result()
