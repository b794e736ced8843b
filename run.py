#!/usr/bin/env python3
"""Check one property: build its harnesses from /repo's working tree, run them
under sanitizers and monitors, judge what they observed, write the evidence.

usage: run.py ID            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       run.py ID --part K --seed N [--cc g++|clang++] [--config NAME]   replay
exit 0: held on everything explored; 1: violation; 2: no verdict.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('IEME_REPO', '/repo')
INC = os.path.join(REPO, 'include')
HARNESS = os.path.join(HERE, 'harness')
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer']
WARN = {'g++': ['-w', '-Wno-narrowing'],
        'clang++': ['-w', '-Wno-c++11-narrowing', '-Wno-c++11-narrowing-const-reference']}
# named build configurations
CONFIGS = {
    'asan': ['-O1', '-g1'] + SAN,
    'asan0': ['-O0', '-g1'] + SAN,
    'asan-pattern': ['-O1', '-g1', '-ftrivial-auto-var-init=pattern'] + SAN,
    'plain-O0': ['-O0', '-g1'],
    'plain-O1': ['-O1', '-g1'],
    'plain-O2': ['-O2', '-g1'],
    'plain-O3': ['-O3', '-g1', '-ftrivial-auto-var-init=pattern'],
    'uchar': ['-O1', '-g1', '-funsigned-char'] + SAN,
    'steps': ['-O1', '-g1', '-fsanitize-coverage=trace-pc'],
    'steps-O0': ['-O0', '-g1', '-fsanitize-coverage=trace-pc'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer'],
    'msan': ['-O1', '-g1', '-fsanitize=memory', '-fno-sanitize-recover=all',
             '-fno-omit-frame-pointer'],
}
RUN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
    'MSAN_OPTIONS': 'exit_code=65',
}




from checks import CHECKS  # noqa: E402  (per-property configuration)


class Result:
    def __init__(self):
        self.violations = []   # (key, text, replay-command, log)
        self.notes = []
        self.errors = []
        self.shards = []
        self.digests = {}


def sh(cmd, timeout, env=None, cwd=None, out=None):
    """run; returns (rc, text) - rc None on timeout"""
    e = dict(os.environ)
    e.update(RUN_ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=e, cwd=cwd, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        return None, o.decode('utf-8', 'replace')


_control = {}
_control_lock = threading.Lock()


def toolchain_ok(cc, flags, tmp):
    """a program that does not use the library compiles with these flags"""
    k = (cc, tuple(flags))
    with _control_lock:
        return _toolchain_ok(k, cc, flags, tmp)


def _toolchain_ok(k, cc, flags, tmp):
    if k not in _control:
        src = os.path.join(tmp, 'control_%d.cpp' % len(_control))
        with open(src, 'w') as f:
            f.write('#include <vector>\n#include <string>\n#include <iostream>\n#include <chrono>\n'
                    'int main(){std::vector<std::string> v{"a"};std::cout<<v[0];}\n')
        rc, _ = sh([cc, '-std=c++20'] + flags + [src, '-o', src + '.out'], 300)
        _control[k] = rc == 0
    return _control[k]


def instrument_ok(cc, flags, wrap, tmp):
    """a program that does not use the library runs under this instrumentation"""
    k = ('run', cc, tuple(flags), tuple(wrap))
    with _control_lock:
        return _instrument_ok(k, cc, flags, wrap, tmp)


def _instrument_ok(k, cc, flags, wrap, tmp):
    if k not in _control:
        src = os.path.join(tmp, 'instrument_%d.cpp' % len(_control))
        with open(src, 'w') as f:
            f.write('#include <thread>\n#include <unistd.h>\n#include <sys/wait.h>\n'
                    'int main(){int s=0;if(!fork()){int x=0;std::thread t([&]{x=1;});t.join();_exit(x-1);}wait(&s);return s!=0;}\n')
        rc, _ = sh([cc, '-std=c++20'] + flags + [src, '-o', src + '.out', '-pthread'], 300)
        if rc == 0:
            rc, _ = sh(wrap + [src + '.out'], 120)
        _control[k] = rc == 0
    return _control[k]


def compile_one(cc, flags, srcs, exe, tmp, extra=()):
    """-> ('ok'|'broken'|'error', text): broken = the compiler rejects the code
    although the toolchain works; error = the compiler itself did not work"""
    cmd = [cc, '-std=c++20'] + WARN[cc] + flags + ['-I', INC, '-I', HARNESS] + list(extra) + srcs + ['-o', exe]
    for attempt in (0, 1):
        rc, text = sh(cmd, 600)
        if rc == 0:
            return 'ok', ' '.join(cmd)
        if rc == 1 and re.search(r'\berror:', text) and not re.search(
                r'Killed signal|internal compiler error|No space left|out of memory|cannot execute', text):
            if toolchain_ok(cc, flags, tmp):
                return 'broken', ' '.join(cmd) + '\n' + text
            return 'error', text
        if rc == 1 and re.search(r'multiple definition|undefined reference', text):
            return 'broken', ' '.join(cmd) + '\n' + text
    return 'error', ' '.join(cmd) + '\nrc=%s\n' % rc + text


def run_shard(pid, job, tier, seed, limit, tmp, res):
    src = os.path.join(HARNESS, job.get('src', pid.lower() + '.cpp'))
    cc, cfg, part = job['cc'], job.get('config', 'asan'), job.get('part', 0)
    name = '%s-p%s-%s-%s-s%s' % (pid, part, cc, cfg, seed)
    exe = os.path.join(tmp, name)
    flags = CONFIGS[cfg] + ['-DPART=%s' % part] + job.get('flags', []) + job.get('ccflags', {}).get(cc, [])
    if tier == 'thorough':
        flags += job.get('tflags', [])
    if job.get('seed_flag'):
        flags += ['-DSEED=%d' % seed]
    t0 = time.time()
    st, text = compile_one(cc, flags, [src] + [os.path.join(HARNESS, x) for x in job.get('extra_src', [])],
                           exe, tmp, job.get('libs', []))
    tc = time.time() - t0
    replay = 'VERIF_SEED=%s VERIF_TIER=%s python3 %s/run.py %s --part %s --cc %s --config %s' % (
        seed, tier, HERE, pid, part, cc, cfg)
    if st == 'broken':
        if job.get('optional'):
            res.notes.append('optional part %s (%s) does not compile, skipped' % (part, cc))
            return
        first = [l for l in text.splitlines() if 'error:' in l or 'multiple definition' in l or 'undefined reference' in l][:3]
        res.violations.append(('does not compile: part %s' % part,
                               'client code that uses only the public interface no longer compiles (%s): %s' % (cc, ' | '.join(first)),
                               replay, text[-6000:]))
        return
    if st == 'error':
        if job.get('optional'):
            res.notes.append('optional part %s (%s) could not be built, skipped' % (part, cc))
            return
        res.errors.append('cannot build %s: %s' % (name, text[-1500:]))
        return
    outp = exe + '.json'
    t1 = time.time()
    wrap = job.get('wrap', [])
    if (wrap or cfg in ('tsan', 'msan')) and not instrument_ok(cc, CONFIGS[cfg], wrap, tmp):
        res.notes.append('%s skipped: its instrumentation does not run here (a program without the library does not run under it either)' % name)
        return
    rc, log = sh(wrap + [exe, outp, str(seed), tier, str(limit)], limit * 3 + 240, cwd=tmp)
    tr = time.time() - t1
    try:
        with open(outp) as f:
            data = json.load(f)
    except Exception as ex:
        res.errors.append('%s gave no result (rc=%s): %s\n%s' % (name, rc, ex, log[-1500:]))
        return
    finally:
        try:
            os.remove(exe)
        except OSError:
            pass
    if data['harness_error'] or rc is None:
        res.errors.append('%s was ended from outside or reported a harness error (rc=%s)\n%s' % (name, rc, log[-1500:]))
        return
    data['name'] = name
    data['compile_s'] = round(tc, 1)
    data['run_s'] = round(tr, 1)
    res.shards.append(data)
    for v in data['violations']:
        res.violations.append((v['key'], v['text'], replay, log[-6000:]))


def compare_digests(res):
    """executables that recorded the same stream of results must agree on it"""
    seen = {}
    for s in res.shards:
        for k in s['buckets']:
            if k.startswith('digest of ') and ' = ' in k:
                name, value = k.rsplit(' = ', 1)
                seen.setdefault(name, {}).setdefault(value, []).append(s['name'])
    res.digests = {n: sum(len(x) for x in v.values()) for n, v in seen.items()}
    for name, v in sorted(seen.items()):
        if len(v) > 1:
            text = '; '.join('%s in %s' % (d, ', '.join(e[:6])) for d, e in sorted(v.items()))
            res.violations.append((name, 'the same calls gave different results in different builds: %s: %s' % (name, text),
                                   'run the check again', ''))


def known():
    """[(property, key)] of recorded, unrepaired findings"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=<(.*?)> ?(.*)$', line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    if not args or args[0] not in CHECKS:
        print('usage: run.py ID; known: ' + ' '.join(sorted(CHECKS)))
        return 2
    pid = args[0]
    opt = dict(zip(args[1::2], args[2::2]))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(opt.get('--seed', os.environ.get('VERIF_SEED', '1')))
    except ValueError:
        seed = 1
    chk = CHECKS[pid]
    t0 = time.time()
    try:
        os.remove(os.path.join(EVID, 'replay', pid + '.txt'))
    except OSError:
        pass
    res = Result()
    tmp = tempfile.mkdtemp(prefix='ieme-%s-' % pid)
    try:
        limit = chk.get('limit', {}).get(tier, 60 if tier == 'quick' else 420)
        jobs = []
        for j in chk.get('jobs', []):
            if '--part' in opt and str(j.get('part', 0)) != opt['--part']:
                continue
            if tier == 'thorough':
                ccs = ['g++', 'clang++'] if not j.get('only_cc') else [j['cc']]
                for cc in ccs:
                    for cfg in ([j['config']] if 'config' in j else ['asan', 'plain-O3' if cc == 'clang++' else 'asan-pattern']):
                        jobs.append((dict(j, cc=cc, config=cfg), seed * 1000003 + (0 if chk.get('same_seed') else len(jobs))))
            elif j.get('tier', 'quick') == 'quick':
                jobs.append((dict(j), seed))
        if '--cc' in opt:
            jobs = [(j, s) for j, s in jobs if j['cc'] == opt['--cc']] or jobs
        if '--config' in opt:
            jobs = [(j, s) for j, s in jobs if j.get('config', 'asan') == opt['--config']] or jobs
        if '--part' in opt:  # replay exactly one shard
            jobs = [(j, seed) for j, s in jobs[:1]]
        if tier == 'thorough' and not chk.get('limit', {}).get(tier):
            # so that a thorough check ends within fifteen minutes of eight idle cores
            limit = max(60, min(limit, int(8 * 620 / max(1, len(jobs)))))
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            futs = [ex.submit(run_shard, pid, j, tier, s, limit, tmp, res) for j, s in jobs]
            if chk.get('extra') and '--part' not in opt:
                futs.append(ex.submit(chk['extra'], dict(pid=pid, tier=tier, seed=seed, tmp=tmp, res=res,
                                                         sh=sh, compile_one=compile_one, INC=INC, REPO=REPO,
                                                         HARNESS=HARNESS, CONFIGS=CONFIGS, WARN=WARN, ex=ex)))
            for f in futs:
                try:
                    f.result()
                except Exception as e:
                    import traceback
                    res.errors.append('driver: %r\n%s' % (e, traceback.format_exc()))
        if chk.get('same_digests'):
            compare_digests(res)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # ---- evidence
    ev = sum(s['evaluations'] for s in res.shards)
    dn = sum(s['distinct'] for s in res.shards)
    obs = sum(s['observations'] for s in res.shards)
    buckets = {}
    samples = []
    for s in res.shards:
        for k, v in s['buckets'].items():
            peak = k.startswith(('most ', 'deepest '))
            buckets[k] = max(buckets.get(k, 0), v) if peak else buckets.get(k, 0) + v
        samples += s['samples'][:6]
    if len(samples) > 24:
        step = len(samples) / 24.0
        samples = [samples[int(i * step)] for i in range(24)]
    kn = [(k, t) for p, k, t in known() if p == pid]
    new, old = [], []
    for v in res.violations:
        (old if any(v[0] == k for k, _ in kn) else new).append(v)
    cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=chk['rule'],
               samples=samples, oracle_decisions=obs,
               out_of_domain_cases_skipped=sum(s['out_of_domain'] for s in res.shards),
               finite_spaces_enumerated_completely=sum(s['exhausted_spaces'] for s in res.shards),
               exhaustive=False,
               buckets=dict(sorted(buckets.items())),
               executables=[dict(name=s['name'], compile_s=s['compile_s'], run_s=s['run_s'],
                                 evaluations=s['evaluations'], stopped_at_time_limit=bool(s['truncated']))
                            for s in res.shards],
               result_streams_compared_across_executables=res.digests,
               notes=res.notes)
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    evidence = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
                    assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                    violations=len(new))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k, t in kn:
        print('KNOWN-FINDING: property=%s %s%s' % (pid, t or k, '' if any(v[0] == k for v in old) else ' (not seen in this run)'))
    for n in res.notes:
        print('note: ' + n)
    if new:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + '.txt')
        with open(path, 'w') as f:
            for i, (key, text, cmd, log) in enumerate(new[:40]):
                f.write('#%d %s\n%s\nreproduce: %s\n' % (i, key, text, cmd))
                if log.strip():
                    f.write('--- log of the run\n%s\n' % log)
                f.write('\n')
        for key, text, cmd, log in new[:6]:
            print('violated: %s: %s' % (key, text[:700]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if res.errors or (ev == 0 and obs == 0):
        for e in res.errors[:5]:
            print('ERROR ' + e)
        print('no verdict for %s' % pid)
        return 2
    print('%s held: %d evaluations, %d distinct non-trivial cases, %d oracle decisions in %d executables, %.1f s'
          % (pid, ev, dn, obs, len(res.shards), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
