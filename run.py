#!/usr/bin/env python3
"""Builds and runs the monitors that decide one property.

usage: run.py <property-id> [--tier quick|thorough] [--seed N] [--cases-scale F]

exit 0: the property held on everything explored
exit 1: a line 'VIOLATION property=<id> replay=<path>' on stdout
exit 2: the check itself could not be carried out
"""
import sys, os, json, time, hashlib, subprocess, shutil, re, signal, concurrent.futures as cf

ROOT = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(ROOT, 'h')
REPO = os.environ.get('PCV_REPO', '/repo')
INC = os.path.join(REPO, 'include')
BUILD = os.path.join(ROOT, 'build')
EVID = os.path.join(ROOT, 'evidence')
JOBS = int(os.environ.get('PCV_JOBS', '8'))
KNOWN = os.path.join(ROOT, 'known-findings.txt')

from checks import CHECKS, PROGRAMS, SAN   # noqa: E402


def say(*a):
    print(*a, flush=True)


class Infra(Exception):
    pass


# ---------------------------------------------------------------- building

def tree_hash():
    """Content of everything a monitor is compiled from."""
    h = hashlib.sha256()
    for base in (INC, H):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()


class Unit:
    def __init__(self, prog, san, defs):
        self.prog, self.san, self.defs = prog, san, tuple(defs)
        self.name = '-'.join([prog, san] + [re.sub(r'[^A-Za-z0-9=]', '_', d) for d in defs])

    def __eq__(self, o):
        return self.name == o.name

    def __hash__(self):
        return hash(self.name)


def sh(cmd, timeout, env=None, out=None):
    """Runs a command in its own process group; returns (rc, output); rc None on timeout."""
    if out:
        with open(out, 'wb') as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, start_new_session=True)
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return None, ''
        return p.returncode, open(out, 'rb').read().decode('utf8', 'replace')
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, ''
    return p.returncode, o.decode('utf8', 'replace')


def compile_one(job):
    unit, src, obj, flags, cxx = job
    cmd = [cxx] + flags + list(unit.defs_for(src)) + ['-I' + INC, '-I' + H, '-c', os.path.join(H, src + '.cpp'), '-o', obj]
    for attempt in range(2):
        rc, o = sh(cmd, 600)
        if rc == 0:
            return None
        if rc is not None and re.search(r'\berror:', o) and 'fatal error: error in backend' not in o:
            return ('compile', src, ' '.join(cmd) + '\n' + o)
    raise Infra('compiler failed on %s: rc=%s\n%s' % (src, rc, o[-2000:]))


def defs_for(self, src):
    return ['-D' + d for d in self.defs]


Unit.defs_for = defs_for


def build(units, pool):
    """Builds the units. Returns {unit: exe} and a list of compile errors."""
    key = tree_hash()
    stamp = os.path.join(BUILD, 'KEY')
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(stamp) or open(stamp).read() != key:
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        with open(stamp, 'w') as f:
            f.write(key)
    exes, jobs, futs = {}, [], {}
    for u in units:
        d = os.path.join(BUILD, u.name)
        exe = os.path.join(d, 'exe')
        exes[u] = exe
        if os.path.exists(exe):
            continue
        os.makedirs(d, exist_ok=True)
        cxx, cflags, lflags = SAN[u.san]
        p = PROGRAMS[u.prog]
        for s in p['src']:
            o = os.path.join(d, s + '.o')
            w = p.get('cost', {}).get(s, 1)
            jobs.append((w, (u, s, o, ['-std=' + p.get('std', 'c++17')] + cflags + p.get('flags', []), cxx)))
    jobs.sort(key=lambda j: -j[0])
    errors = []
    fs = [pool.submit(compile_one, j) for _, j in jobs]
    for f in fs:
        r = f.result()
        if r:
            errors.append(r)
    if errors:
        return exes, errors
    for u in units:
        exe = exes[u]
        if os.path.exists(exe):
            continue
        cxx, cflags, lflags = SAN[u.san]
        p = PROGRAMS[u.prog]
        d = os.path.dirname(exe)
        post = p.get('link')
        cmd = [cxx] + cflags + [os.path.join(d, s + '.o') for s in p['src']] + lflags + p.get('lflags', []) + ['-o', exe + '.tmp']
        if post:
            cmd = post(d, cxx, cflags, lflags, exe + '.tmp')
        cmds = cmd if cmd and isinstance(cmd[0], list) else [cmd]
        for c in cmds:
            rc, o = sh(c, 600)
            if rc != 0:
                # e.g. an undefined symbol: the library no longer provides something it declares
                if rc is not None and 'undefined reference' in o:
                    return exes, [('link', u.name, ' '.join(c) + '\n' + o)]
                raise Infra('link failed: %s\n%s' % (u.name, o[-2000:]))
        os.rename(exe + '.tmp', exe)
    return exes, []


# ---------------------------------------------------------------- running

RUNENV = dict(os.environ)
RUNENV['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=66:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:detect_invalid_pointer_pairs=0'
RUNENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=67'
RUNENV['LSAN_OPTIONS'] = 'exitcode=68'
RUNENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=69:second_deadlock_stack=1:report_signal_unsafe=0'
RUNENV.pop('LD_PRELOAD', None)


class Job:
    def __init__(self, unit, exe, mode, seed, a, b, extra, wall, tag):
        self.__dict__.update(locals())

    def cmd(self):
        base = PROGRAMS[self.unit.prog].get('wrap', {}).get(self.unit.san, [])
        return base + [self.exe, '--mode', self.mode, '--seed', str(self.seed), '--from', str(self.a), '--to', str(self.b)] + self.extra


def lsan_broken(o):
    return 'LeakSanitizer has encountered a fatal error' in o or 'LeakSanitizer does not work under ptrace' in o


def run_job(j):
    """Returns (verdict, rc, output): verdict in ok, violation, inconclusive."""
    out = os.path.join(BUILD, 'run-%s.out' % j.tag)
    st = os.path.join(BUILD, 'run-%s.json' % j.tag)
    pr = os.path.join(BUILD, 'run-%s.pos' % j.tag)
    for f in (out, st, pr):
        if os.path.exists(f):
            os.remove(f)
    env = dict(RUNENV)
    timeouts = 0
    for attempt in range(3):
        rc, o = sh(j.cmd() + ['--stats', st, '--progress', pr], j.wall, env=env, out=out)
        if rc is None or rc == 3:           # wall clock or CPU budget of one case exhausted
            timeouts += 1
            if timeouts < 2:
                continue
            if rc == 3:
                return 'violation', 3, o or open(out, 'rb').read().decode('utf8', 'replace'), pr
            return 'hang', rc, '', pr
        if rc != 0 and lsan_broken(o):
            env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
            continue
        if rc == -9:                          # killed from outside (memory)
            timeouts += 1
            if timeouts < 2:
                continue
            return 'inconclusive', rc, o, pr
        if rc == 2:
            return 'inconclusive', rc, o, pr
        if rc == 0:
            if not os.path.exists(st):
                return 'inconclusive', rc, 'no statistics\n' + o, pr
            return 'ok', 0, st, pr
        return 'violation', rc, o, pr
    return 'inconclusive', rc, o, pr


def known():
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) match=/(.*)/ (.*)', l.strip())
            if m:
                r.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return r


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--cases-scale', type=float, default=1.0)
    ap.add_argument('--build-only', action='store_true')
    a = ap.parse_args()
    pid = a.property
    spec = CHECKS[pid]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, pid + '.replay.txt')
    evf = os.path.join(EVID, pid + '.json')
    for f in (replay, evf):
        if os.path.exists(f):
            os.remove(f)

    runs = spec['runs'](tier)
    units = []
    for r in runs:
        u = Unit(r['prog'], r.get('san', 'asan'), r.get('defs', []))
        r['unit'] = u
        if u not in units:
            units.append(u)

    def report(text, what):
        with open(replay, 'w') as f:
            f.write(text)
        for p, rx, desc in known():
            if p == pid and rx.search(text):
                say('KNOWN-FINDING: property=%s %s' % (pid, desc))
                return False
        say('--- %s' % what)
        say(text[:4000])
        say('VIOLATION property=%s replay=%s' % (pid, replay))
        return True

    def evidence(cov, violations):
        ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': spec.get('level', 'exploration'),
              'coverage': cov, 'assumptions': spec.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': violations}
        with open(evf + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(evf + '.tmp', evf)

    with cf.ThreadPoolExecutor(JOBS) as pool:
        exes, errors = build(units, pool)
        if errors:
            ctl = os.path.join(BUILD, 'control.cpp')
            with open(ctl, 'w') as f:
                f.write('#include <vector>\nint main(){return std::vector<int>(3).size()!=3;}\n')
            rc, o = sh(['clang++', '-std=c++17', ctl, '-o', ctl + '.exe'], 120)
            if rc != 0:
                raise Infra('toolchain does not work:\n' + o)
            txt = ('A documented use of the public interface no longer compiles.\n' +
                   '\n'.join('== %s\n%s' % (e[1], e[2][:6000]) for e in errors))
            v = report(txt, 'compile')
            evidence({'evaluations': len(errors), 'distinct_nontrivial': len(errors), 'rule': 'client programs of the public interface are compiled',
                      'samples': [e[1] for e in errors]}, 1 if v else 0)
            return 1 if v else 0
        t1 = time.time()
        if a.build_only:
            say('build %.1fs' % (t1 - t0))
            return 0

        jobs = []
        for ri, r in enumerate(runs):
            n = max(1, int(r['cases'] * a.cases_scale))
            k = min(r.get('split', 8), n)
            for i in range(k):
                lo, hi = n * i // k, n * (i + 1) // k
                if hi > lo:
                    jobs.append(Job(r['unit'], exes[r['unit']], r['mode'], a.seed, lo, hi,
                                    r.get('extra', []) + (['--thorough'] if tier == 'thorough' else []),
                                    r.get('wall', 3000 if tier == 'thorough' else 700), '%s-%d-%d' % (pid, ri, i)))
        futs = {pool.submit(run_job, j): j for j in jobs}
        tot = {'cases': 0, 'checks': 0}
        counters, distinct, samples = {}, set(), []
        bad, inconclusive = [], []
        for f in cf.as_completed(futs):
            j = futs[f]
            if f.cancelled():
                continue
            verdict, rc, o, pr = f.result()
            if verdict == 'ok':
                s = json.load(open(o))
                tot['cases'] += s['cases']
                tot['checks'] += s['checks']
                for k, v in s['n'].items():
                    if k.startswith('max_'):
                        counters[k] = max(counters.get(k, 0), v)
                    else:
                        counters[k] = counters.get(k, 0) + v
                distinct.update(s['distinct'])
                samples += [('[%s %s] ' % (j.unit.name, j.mode)) + x for x in s['samples']]
            elif verdict in ('violation', 'hang'):
                bad.append((j, rc, o, pr, verdict))
                if len(bad) >= 3:
                    for g in futs:
                        g.cancel()
            else:
                inconclusive.append((j, rc, o))
    samples.sort()
    step = max(1, len(samples) // 6)
    nviol = 0
    for j, rc, o, pr, verdict in bad:
        case = -1
        try:
            case = int(open(pr).read().strip())
        except Exception:
            pass
        only = j.cmd() + ['--only', str(case), '--verbose']
        txt = 'property %s\nreplay: %s\nexit status %s%s\n\n%s\n' % (
            pid, ' '.join(only), rc, ' (did not finish)' if rc in (3, None) else '', o[:20000])
        if rc not in (1, 3, None):
            r2, o2 = sh(only, 300, env=RUNENV)
            txt += '\n== the failing case alone (exit status %s)\n%s\n' % (r2, o2[-8000:])
        if nviol == 0 or not os.path.exists(replay):
            if report(txt, '%s %s' % (j.unit.name, j.mode)):
                nviol += 1
        else:
            nviol += 1
    cov = {'evaluations': tot['cases'], 'distinct_nontrivial': len(distinct), 'rule': spec['rule'],
           'samples': samples[::step][:6], 'monitor_checks': tot['checks'], 'observed': counters,
           'programs_built': [u.name for u in units], 'build_s': round(t1 - t0, 1)}
    evidence(cov, nviol)
    if nviol:
        return 1
    if inconclusive:
        j, rc, o = inconclusive[0]
        say('INCONCLUSIVE: %s %s rc=%s\n%s' % (j.unit.name, j.mode, rc, o[-3000:]))
        return 2
    if not tot['checks'] or not distinct:
        say('INCONCLUSIVE: the monitors observed nothing')
        return 2
    for c in spec.get('must_observe', []):
        if not counters.get(c):
            say('INCONCLUSIVE: never observed: ' + c)
            return 2
    say('OK property=%s tier=%s seed=%d cases=%d checks=%d distinct=%d wall=%.1fs (build %.1fs)' % (
        pid, tier, a.seed, tot['cases'], tot['checks'], len(distinct), time.time() - t0, t1 - t0))
    return 0


if __name__ == '__main__':
    sys.path.insert(0, ROOT)
    try:
        rc = main()
    except Infra as e:
        say('ERROR: ' + str(e))
        rc = 2
    sys.exit(rc)
