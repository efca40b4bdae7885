#!/usr/bin/env python3
"""Builds the monitor harness of one property from /repo's working tree, runs
it, and reports: exit 0 held on everything observed, exit 1 with a VIOLATION
line, anything else: no verdict.

usage: check.py ID            (tier and seed from VERIF_TIER and VERIF_SEED)
       check.py ID --replay FILE
"""
import concurrent.futures as cf
import fnmatch
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS, ASSUMPTIONS  # noqa: E402

JOBS = 8
COMMON = ['-std=c++17', '-w', '-pthread']
FAST = ['-O2', '-fno-exceptions', '-fno-rtti', '-ffast-math', '-ftree-vectorize']
CONFIGS = {
    # compiler, flags of the harness (code under test), flags of the monitor, link flags
    'san': ('g++', ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                    '-fsanitize=float-cast-overflow,bounds-strict', '-fno-sanitize=shift-base',
                    '-fno-sanitize-recover=all'], ['-O1', '-fsanitize=address'], []),
    # the flags of the project's own Makefile, the first one for any processor
    'rel': ('g++', FAST, ['-O2'], ['-ffast-math']),
    'native': ('g++', FAST + ['-march=native'], ['-O2'], ['-ffast-math']),
    'clang': ('clang++', FAST + ['-march=native'], ['-O2'], ['-ffast-math']),
    'plain': ('g++', ['-O2'], ['-O2'], []),
    'tsan': ('g++', ['-O1', '-g1', '-fsanitize=thread', '-DVP_TSAN'], ['-O1', '-fsanitize=thread'], []),
    'vg': ('g++', ['-O1', '-g1', '-fno-inline-functions', '-DVP_MSAN'], ['-O1', '-DVP_MSAN'], []),
}
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:color=never',
    'UBSAN_OPTIONS': 'print_stacktrace=1:color=never',
    'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:color=never',
}


class HarnessError(Exception):
    pass


def sh(cmd, timeout, cwd, log):
    """Returns the exit status, negative for a signal, None for a timeout."""
    env = dict(os.environ, LC_ALL='C', **ENV)
    env.pop('MAKEFLAGS', None)
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             env=env, start_new_session=True)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None


def tail(path, n=4000):
    try:
        with open(path, 'rb') as f:
            return f.read()[-n:].decode('utf-8', 'replace')
    except OSError:
        return ''


class Unit:
    """One executable: a harness source in one configuration (and shard)."""

    def __init__(self, src, config, shard, build, quiet=0, tier=None):
        self.src, self.config, self.shard, self.quiet, self.tier = src, config, shard, quiet, tier
        self.name = '%s.%s.%d' % (os.path.splitext(src)[0], config, shard)
        self.dir = os.path.join(build, self.name)
        self.exe = os.path.join(self.dir, 'run')
        self.result = None

    def compile(self, build):
        os.makedirs(self.dir, exist_ok=True)
        cxx, flags, _, link = CONFIGS[self.config]
        cmd = [cxx] + COMMON + flags + ['-DSHARD=%d' % self.shard, '-I' + REPO, '-I' + os.path.join(VERIF, 'harness'),
               os.path.join(VERIF, 'harness', self.src), os.path.join(build, 'mon.%s.o' % self.config),
               '-o', self.exe] + link
        log = os.path.join(self.dir, 'compile.log')
        rc = sh(cmd, 600, self.dir, log)
        if rc != 0:
            raise HarnessError('compiling %s failed (%s):\n%s' % (self.name, rc, tail(log)))

    def run(self, seed, tier, timeout):
        """Violations of this run: a list of (key, detail, case)."""
        scratch = os.path.join(self.dir, 'scratch')
        out = os.path.join(self.dir, 'result.json')
        log = os.path.join(self.dir, 'run.log')
        for attempt in 1, 2:
            shutil.rmtree(scratch, ignore_errors=True)
            os.makedirs(scratch)
            if os.path.exists(out):
                os.remove(out)
            cmd = [self.exe, str(seed), self.tier or tier, str(self.quiet), scratch, out]
            if self.config == 'vg':
                cmd = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no',
                       '--undef-value-errors=yes', '--max-stackframe=40000000', '--main-stacksize=64000000'] + cmd
            rc = sh(cmd, timeout, self.dir, log)
            if rc is not None and rc != 5:
                break
        shutil.rmtree(scratch, ignore_errors=True)
        text = tail(log, 8000)
        if rc is None:
            return [('hang.%s' % self.name, 'no end after %d s, twice' % timeout, '')]
        if rc == 5:
            m = re.search(r'STALLED: .* during: (.*)', text)
            return [('hang.%s' % self.name, 'no progress for a minute of processor time, twice', m.group(1) if m else '')]
        if os.path.exists(out) and rc in (0, 1):
            with open(out) as f:
                self.result = json.load(f)
            if self.quiet:
                return []
            v = [(x['key'], x['detail'], x['case']) for x in self.result['violations']]
            if (rc == 1) != bool(v):
                raise HarnessError('%s: status %s with %d violations' % (self.name, rc, len(v)))
            return v
        if rc in (3, 4) or rc == -signal.SIGKILL or rc in (126, 127):
            raise HarnessError('%s: no verdict (status %s):\n%s' % (self.name, rc, text))
        kind = 'crash'
        m = re.search(r'AddressSanitizer: ([\w-]+)', text)
        if m:
            kind = 'asan.' + m.group(1)
        m = re.search(r'([\w./]+:\d+):\d+: runtime error: ([^\n]*)', text)
        if m:
            kind = 'ubsan.' + re.sub(r'[^a-z]+', '-', m.group(2).lower())[:40].strip('-')
        if 'ThreadSanitizer: data race' in text:
            kind = 'tsan.data-race'
        if 'FATAL: ThreadSanitizer' in text:
            raise HarnessError('%s: %s' % (self.name, text))
        if 'uninitialised' in text:
            kind = 'memcheck.uninitialised'
        elif self.config == 'vg' and rc == 99:
            kind = 'memcheck.error'
        if self.config == 'vg' and rc != 99 and kind == 'crash':
            raise HarnessError('%s: valgrind ended with %s:\n%s' % (self.name, rc, text))
        m = re.search(r'DIED: signal \d+ during: (.*)', text)
        return [(kind, 'status %d\n%s' % (rc, text), m.group(1) if m else '')]


def known_findings(prop):
    """Lines 'finding: property=ID key=GLOB case=GLOB text' (case optional)."""
    found = []
    path = os.path.join(VERIF, 'known-findings.txt')
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r'finding: property=(\S+) key=(\S+)(?: case="([^"]*)")? (.*)', line.strip())
        if m and m.group(1) == prop:
            found.append((m.group(2), m.group(3), m.group(4)))
    return found


def main():
    prop = sys.argv[1]
    check = CHECKS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1')) & (2 ** 63 - 1)
    except ValueError:
        seed = 1
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        with open(sys.argv[3]) as f:
            replay = json.load(f)
        tier, seed = replay['tier'], replay['seed']
    begin = time.time()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    build = os.path.join(VERIF, 'build', '%s.%s' % (prop, os.environ.get('VP_BUILD_TAG', tier)))
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    units = []
    for u in check['units'](tier):
        unit = Unit(u['src'], u['config'], u.get('shard', 0), build, u.get('quiet', 0), u.get('tier'))
        if replay is None or unit.name == replay['unit']:
            units.append(unit)
    timeout = check.get('timeout', 240 if tier == 'quick' else 420)

    violations, errors = [], []
    try:
        with cf.ThreadPoolExecutor(JOBS) as pool:
            def monitor(config):
                cxx, _, flags, _ = CONFIGS[config]
                log = os.path.join(build, 'mon.%s.log' % config)
                rc = sh([cxx] + COMMON + flags + ['-c', os.path.join(VERIF, 'harness', 'mon.cc'), '-o',
                        os.path.join(build, 'mon.%s.o' % config)], 600, build, log)
                if rc != 0:
                    raise HarnessError('compiling the monitor failed:\n' + tail(log))
            list(pool.map(monitor, sorted({u.config for u in units})))

            def job(u):
                u.compile(build)
                return u, u.run(seed, tier, timeout)
            for f in cf.as_completed([pool.submit(job, u) for u in units]):
                try:
                    u, v = f.result()
                    violations += [(u, ) + x for x in v]
                except HarnessError as e:
                    errors.append(e)
    except HarnessError as e:
        errors.append(e)
    finally:
        for u in units:
            if os.path.exists(u.exe):
                os.remove(u.exe)

    for e in errors:
        print('ERROR property=%s %s' % (prop, e))
    if errors and not violations:
        return 2

    known = known_findings(prop)
    shown, fresh = set(), []
    for v in violations:
        u, key, detail, case = v
        for k, c, text in known:
            if fnmatch.fnmatch(key, k) and (c is None or fnmatch.fnmatch(case, c)):
                shown.add(text)
                break
        else:
            fresh.append(v)
    for text in sorted(shown):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))

    results = [(u, u.result) for u in units if u.result]
    monitors, events, samples, per_unit = {}, {}, [], {}
    for u, r in results:
        per_unit[u.name] = {'evaluations': r['evaluations'], 'distinct_nontrivial': r['distinct_nontrivial']}
        for k, m in r['monitors'].items():
            a = monitors.setdefault(k, {'observations': 0, 'worst_error_over_tolerance': 0.0})
            a['observations'] += m['observations']
            a['worst_error_over_tolerance'] = max(a['worst_error_over_tolerance'], m['worst'])
        for k, n in r['events'].items():
            events[k] = events.get(k, 0) + n
        samples += [s for s in r['samples'] if s not in samples][:4]
    # the same cases run in several builds count once
    by_src = {}
    for u, r in results:
        k = (u.src, u.shard)
        by_src[k] = max(by_src.get(k, 0), r['distinct_nontrivial'])
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': check['level'],
        'coverage': {
            'evaluations': sum(r['evaluations'] for _, r in results),
            'distinct_nontrivial': sum(by_src.values()),
            'rule': check['rule'],
            'samples': samples[:16],
            'monitors': monitors, 'events': events, 'executables': per_unit,
            'builds': {c: ' '.join([CONFIGS[c][0]] + CONFIGS[c][1]) for c in sorted({u.config for u in units})},
        },
        'assumptions': ASSUMPTIONS + check.get('assumptions', []),
        'wall_s': round(time.time() - begin, 2),
        'violations': len(fresh),
    }
    if replay is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
    if os.environ.get('VP_SHOW'):
        for k, m in sorted(monitors.items()):
            print('  %-36s n=%-10d worst=%.3g' % (k, m['observations'], m['worst_error_over_tolerance']))
        print('  events', events)
        for u, r in results:
            print('  %-28s eval=%d distinct=%d' % (u.name, r['evaluations'], r['distinct_nontrivial']))
    if fresh:
        out = os.path.join(VERIF, 'out')
        os.makedirs(out, exist_ok=True)
        u, key, detail, case = fresh[0]
        path = os.path.join(out, '%s-%s-%s.json' % (prop, tier, seed))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'unit': u.name,
                       'how': 'python3 %s %s --replay %s' % (os.path.join(VERIF, 'check.py'), prop, path),
                       'violations': [{'unit': v[0].name, 'key': v[1], 'detail': v[2], 'case': v[3]} for v in fresh]},
                      f, indent=1)
        for v in fresh[:6]:
            print('  %s %s: %s [%s]' % (v[0].name, v[1], v[2][:1500], v[3]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('property=%s held on %d executions, %d distinct and nontrivial, %d monitor observations (%s, seed %d, %.1f s)' % (
        prop, evidence['coverage']['evaluations'], evidence['coverage']['distinct_nontrivial'],
        sum(m['observations'] for m in monitors.values()), tier, seed, time.time() - begin))
    shutil.rmtree(build, ignore_errors=True)
    return 0


if __name__ == '__main__':
    sys.exit(main())
