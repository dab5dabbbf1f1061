#!/usr/bin/env python3
"""Runs the check of one property: builds the machines of its family from
/repo/include, explores them and writes the evidence file.

    check.py C01 [--tier thorough] [--keep] [--only NAME]
    check.py --replay out/C01/x.trace
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VH_REPO', '/repo')
sys.path.insert(0, HERE)
import families  # noqa: E402

CXX = 'g++'
STD = ['-std=gnu++20', '-w', '-fno-lifetime-dse', '--param', 'ggc-min-expand=500', '--param', 'ggc-min-heapsize=1000000',
       '-fmax-errors=5', '-fdiagnostics-color=never']
JOBS = int(os.environ.get('VH_JOBS', '8'))
FOOT = ['-fsanitize=thread', '-DVH_FOOT']  # see foot.h
WRAP = ['-rdynamic', '-Wl,--wrap=memcpy', '-Wl,--wrap=memmove', '-Wl,--wrap=memset', '-ldl', '-lpthread']
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


class Infra(Exception):
    """The check could not decide (broken toolchain and the like)."""


def run(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -999, '', 'timeout'


class Build:
    def __init__(self, scratch):
        self.dir = scratch
        self.inc = ['-I', HERE, '-I', os.path.join(REPO, 'include')]
        self.pch = {}
        self.explore = {}
        self.lock = threading.Lock()
        self.shared = {}

    FLAGS = dict(plain=['-O1'], asan=['-O1', '-g1'] + ASAN, foot=['-O1'] + FOOT)
    EXFLAGS = dict(plain=['-O2'], asan=['-O1', '-g1'] + ASAN, foot=['-O2', '-DVH_FOOT'])

    def prepare(self, variants, pool):
        """variants: set of (variant, with_pch)"""
        futs = []
        for asan, pch in variants:
            d = os.path.join(self.dir, asan)
            os.makedirs(d, exist_ok=True)
            fl = STD + self.FLAGS[asan]
            if pch:
                h = os.path.join(d, 'vh_all.h')
                with open(h, 'w') as f:
                    f.write('#include "rt.h"\n#include "hsm/hsm.h"\n#include <cstring>\n')
                futs.append(pool.submit(run, [CXX] + fl + self.inc + ['-x', 'c++-header', h, '-o', h + '.gch']))
            o = os.path.join(d, 'explore.o')
            self.explore[asan] = pool.submit(
                run, [CXX] + STD + self.EXFLAGS[asan] + ['-I', HERE, '-c', os.path.join(HERE, 'explore.cpp'), '-o', o])
        for f in futs:
            f.result() # a header that does not compile shows up in every machine

    def tu(self, src, obj, asan, pch, extra=()):
        d = os.path.join(self.dir, asan)
        fl = STD + self.FLAGS[asan] + list(extra)
        inc = self.inc
        use = ['-include', os.path.join(d, 'vh_all.h')] if pch and os.path.exists(os.path.join(d, 'vh_all.h.gch')) else []
        err = ''
        for attempt in range(2):
            rc, out, err = run([CXX] + fl + (use if attempt == 0 else []) + inc + ['-c', src, '-o', obj])
            if rc == 0:
                return None
            if 'internal compiler error' in err or 'Killed' in err or 'No space left' in err or ': error:' not in err and 'error:' not in err:
                if attempt == 1:
                    raise Infra('compiler failed: ' + err[:500])
        return err

    def link(self, job, objs, exe):
        rc, out, err = self.explore[job.variant].result()
        if rc != 0:
            raise Infra('explore.cpp does not compile: ' + err[:1000])
        # machines first: their (instrumented) copies of inline functions win
        return run([CXX] + (ASAN if job.asan else []) + objs + [os.path.join(self.dir, job.variant, 'explore.o')] + (WRAP if job.variant == 'foot' else []) + ['-o', exe])


def short_error(err):
    for l in err.splitlines():
        if 'error:' in l:
            return l[:300]
    return err[:300]


class Result:
    def __init__(self, job):
        self.job = job
        self.summary = None
        self.violation = None  # text
        self.files = []        # to keep with the replay
        self.note = ''


def run_job(b, job):
    t0 = time.time()
    try:
        return run_job_(b, job)
    finally:
        if os.environ.get('VH_TIMES'):
            print('time %s %.1f' % (job.name, time.time() - t0), flush=True)


def run_job_(b, job):
    r = Result(job)
    d = os.path.join(b.dir, job.name)
    os.makedirs(d, exist_ok=True)
    objs = []
    for reg, m, kw in job.tus:
        src, obj = os.path.join(d, reg + '.cpp'), os.path.join(d, reg + '.o')
        kw = dict(kw)
        pch = kw.pop('pch', True)
        kw['use'] = job.args[job.args.index('--ops') + 1].split(',') if '--ops' in job.args else ()
        text = '// %s\n' % m.text.replace('\n', '\n// ') + m.emit(reg=reg, **kw)
        with open(src, 'w') as f:
            f.write(text)
        # several jobs may use the same machine
        key = (text, job.variant, pch, str(job.cxx))
        with b.lock:
            mine = key not in b.shared
            if mine:
                b.shared[key] = (obj, concurrent.futures.Future())
            obj, done = b.shared[key]
        if mine:
            try:
                done.set_result(b.tu(src, obj, job.variant, pch, job.cxx))
            except BaseException as e:
                done.set_exception(e)
                raise
        err = done.result()
        if err is not None:
            r.violation = 'machine %s does not compile: %s' % (reg, short_error(err))
            r.files = [src]
            return r
        objs.append(obj)
    exe = os.path.join(d, 'x')
    rc, out, err = b.link(job, objs, exe)
    if rc != 0:
        raise Infra('link failed: ' + err[:800])
    trace, summ = os.path.join(d, 'trace'), os.path.join(d, 'summary.json')
    cmd = [exe] + sum((['--machine', i] for i in job.instances), []) + job.args + ['--trace', trace, '--out', summ]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=5:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1:exitcode=5')
    rc, out, err = run(cmd, timeout=700, env=env)
    if rc == 0:
        r.summary = json.load(open(summ))
        return r
    if rc == 2 or rc == -999:
        raise Infra('%s: explorer failed rc=%d %s' % (job.name, rc, err[-500:]))
    srcs = [os.path.join(d, reg + '.cpp') for reg, m, kw in job.tus]
    if rc == 1:
        why = json.load(open(summ))['error']
        rc2, o2, e2 = run([exe, '--replay', trace], timeout=120, env=env)
        rc3 = rc2
        if rc2 == 0:
            rc3, o2, e2 = run(cmd, timeout=700, env=env)  # depends on the whole run
        if rc3 == 0:
            raise Infra('%s: not reproducible: %s' % (job.name, why))
        r.violation = '%s: %s' % (job.name, why)
        r.files = [trace] + srcs
        return r
    # crash, hang or sanitizer report
    if rc == 5 or job.asan:
        m = re.search(r'(ERROR: \w+Sanitizer: [^\n]*|runtime error: [^\n]*|SUMMARY: [^\n]*)', err)
        why = m.group(1) if m else 'abnormal end rc=%d' % rc
        rc2, o2, e2 = run(cmd, timeout=700, env=env)
        if rc2 == 0:
            raise Infra('%s: not reproducible: %s' % (job.name, why))
        rep = os.path.join(d, 'sanitizer.txt')
        with open(rep, 'w') as f:
            f.write(' '.join(cmd) + '\n' + err[-20000:])
        r.files = ([trace] if os.path.exists(trace) else []) + [rep] + srcs
        r.violation = '%s: %s' % (job.name, why)
        return r
    rc2, o2, e2 = run(cmd, timeout=700, env=env)
    if rc2 == 0:
        raise Infra('%s: crash not reproducible rc=%d' % (job.name, rc))
    why = open(trace).readline().strip('# \n') if os.path.exists(trace) else 'killed by signal %d' % -rc
    r.violation = '%s: %s' % (job.name, why)
    r.files = ([trace] if os.path.exists(trace) else []) + srcs
    return r


LINK = '''#include <%s>
namespace link_ {
struct e0 {}; struct e1 {}; struct X {}; struct Y {};
struct Z { static constexpr auto defer_events() { return hsm::events<e1>; }
           static constexpr auto on_entry() { return [](auto&&...) {}; } };
inline constexpr auto g = [](auto&&...) { return true; };
inline constexpr auto a = [](auto&&...) {};
struct P { static constexpr auto make_transition_table() { return hsm::transition_table(* hsm::state<X> + hsm::event<e0>[g] / a = hsm::state<Y>); }
           static constexpr auto on_exit() { return [](auto&&...) {}; } };
struct M { static constexpr auto make_transition_table() { return hsm::transition_table(
    * hsm::state<X> + hsm::event<e0> / hsm::chain_actions(a, a) = hsm::state<P>, hsm::exit<P, Y> + hsm::event<e0> / hsm::log = hsm::state<Z>,
    hsm::state<Z> + hsm::event<e0> = hsm::history<P>, hsm::state<P> + hsm::event<e1> = hsm::state<X>, * hsm::state<Y> + hsm::event<e1>[g] = hsm::state<Y>); }
    static constexpr auto on_unexpected_event() { return [](auto&&...) {}; } };
}
%s
'''


def link_check(header, dst):
    """Two translation units that include only `header` and use one machine type form one program."""
    os.makedirs(dst, exist_ok=True)
    objs = []
    for n, body in (('a', 'int other(hsm::sm<link_::M>&);\n'
                     'int main() { hsm::sm<link_::M> m; m.process_event(link_::e0{}); return other(m) == 2 ? 0 : 1; }'),
                    ('b', 'int other(hsm::sm<link_::M>& m) { return m.parent_is(hsm::state<link_::P>) && m.process_event(link_::e0{}) '
                          '&& m.is(hsm::state<link_::P>, hsm::state<link_::Y>) ? 2 : 0; }')):
        src = os.path.join(dst, n + '.cpp')
        with open(src, 'w') as f:
            f.write(LINK % (header, body))
        rc, out, err = run([CXX, '-std=gnu++20', '-w', '-O0', '-fmax-errors=3', '-I', os.path.join(REPO, 'include'), '-c', src, '-o', src[:-4] + '.o'])
        if rc != 0:
            return src, 'a program that includes only %s does not compile: %s' % (header, short_error(err))
        objs.append(src[:-4] + '.o')
    exe = os.path.join(dst, 'linked')
    rc, out, err = run([CXX] + objs + ['-o', exe])
    if rc != 0:
        return src, 'two translation units including %s do not link: %s' % (header, err[:300])
    rc, out, err = run([exe], timeout=60)
    if rc != 0:
        return src, 'a machine shared by two translation units including %s misbehaves (exit code %d)' % (header, rc)
    return None


def link_violation(prop, header):
    with tempfile.TemporaryDirectory(prefix='vh-link-') as d:
        r = link_check(header, d)
        if not r:
            return 0
        out = os.path.join(VERIF, 'out', prop)
        os.makedirs(out, exist_ok=True)
        dst = os.path.join(out, 'link.cpp')
        shutil.copy(r[0], dst)
        print(r[1])
        print('VIOLATION property=%s replay=%s' % (prop, dst), flush=True)
        return 1


def report_violation(prop, r):
    out = os.path.join(VERIF, 'out', prop)
    os.makedirs(out, exist_ok=True)
    path = None
    for f in r.files:
        name = r.job.name + '-' + os.path.basename(f) + ('.trace' if os.path.basename(f) == 'trace' else '')
        dst = os.path.join(out, name)
        shutil.copy(f, dst)
        path = path or dst
    if path and path.endswith('.trace'):
        with open(path, 'a') as f:
            f.write('# job %s %s\n' % (prop, r.job.name))
    print('%s' % r.violation[:1500])
    print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)


def explore(prop, tier, keep=False, only=None):
    js = families.jobs(prop, tier)
    if only:
        js = [j for j in js if re.search(only, j.name)]
    scratch = tempfile.mkdtemp(prefix='vh-%s-' % prop)
    results, infra = [], []
    try:
        b = Build(scratch)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
            b.prepare({(j.variant, True) for j in js}, pool)
            futs = {pool.submit(run_job, b, j): j for j in js}
            for f in concurrent.futures.as_completed(futs):
                try:
                    r = f.result()
                except concurrent.futures.CancelledError:
                    continue
                except Infra as e:
                    infra.append(str(e))
                    continue
                results.append(r)
                if r.violation:
                    for g in futs:
                        g.cancel()
                    report_violation(prop, r)
    finally:
        if keep:
            print('kept', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return js, results, infra


def evidence(prop, tier, coverage, wall, violations, assumptions, level='model_checking'):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    d = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=coverage,
             assumptions=assumptions, wall_s=round(wall, 2), violations=violations)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')


def merge(results):
    s = [r.summary for r in results if r.summary]
    cov = dict(
        states=sum(x['states'] for x in s),
        transitions=sum(x['edges'] for x in s),
        traces_validated_against_impl=sum(x['runs'] for x in s),
        operations_executed=sum(x['ops'] for x in s),
        comparisons=sum(x['compared'] for x in s),
        callbacks_checked=sum(x['callbacks'] for x in s),
        guard_calls_checked=sum(x['guard_calls'] for x in s),
        dfs_sequences=sum(x['dfs_leaves'] for x in s),
        walk_operations=sum(x['walk'] for x in s),
        **({k: sum(x.get(k, 0) for x in s) for k in ('accesses', 'tracked_accesses', 'faults') if any(k in x for x in s)}),
        machines=len(s),
        machines_with_complete_graph=sum(1 for x in s if x['bfs_complete']),
        per_machine={r.job.name: dict(states=r.summary['states'], edges=r.summary['edges'], complete=r.summary['bfs_complete'],
                                      all_sequences_to_depth=r.summary['dfs_depth'], sequences=r.summary['dfs_leaves'])
                     for r in results if r.summary},
        samples=[r.job.name + ': ' + x for r in results[:6] if r.summary for x in r.summary['samples'][:2]],
    )
    return cov


def known(prop, scratch=None):
    """Probes of the recorded findings of this property."""
    path = os.path.join(VERIF, 'known_findings.txt')
    n = 0
    if not os.path.exists(path):
        return 0
    for line in open(path):
        m = re.match(r'finding: property=(\w+) probe=(\S+) (.*)', line)
        if not m or m.group(1) != prop:
            continue
        with tempfile.TemporaryDirectory(prefix='vh-probe-') as d:
            exe = os.path.join(d, 'p')
            rc, out, err = run([CXX, '-std=gnu++20', '-w', '-O0', '-fmax-errors=3', '-I', os.path.join(REPO, 'include'),
                                os.path.join(VERIF, m.group(2)), '-o', exe])
            if rc != 0:
                print('probe %s does not compile' % m.group(2))
                continue
            rc, out, err = run([exe], timeout=60)
            if rc != 0:
                print('KNOWN-FINDING: property=%s %s' % (prop, m.group(3)))
                n += 1
    return n


ASSUME = [
    'guard answers are constant during one process_event call (per-callback horizons where listed)',
    'g++ 13 -std=gnu++20; callbacks do not re-enter the machine they run for',
    'bounded: operation sequences and machine families as listed in DESIGN.md',
]


def replay(path):
    text = open(path).read()
    m = re.search(r'# job (\w+) (\S+)', text)
    prop, name = m.group(1), m.group(2)
    for tier in ('quick', 'thorough'):
        js = [j for j in families.jobs(prop, tier) if j.name == name]
        if js:
            break
    scratch = tempfile.mkdtemp(prefix='vh-replay-')
    try:
        b = Build(scratch)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as pool:
            b.prepare({(js[0].variant, True)}, pool)
        j = js[0]
        use = j.args[j.args.index('--ops') + 1].split(',') if '--ops' in j.args else ()
        j.args = ['--replay', os.path.abspath(path)]
        d = os.path.join(b.dir, j.name)
        os.makedirs(d)
        objs = []
        for reg, mm, kw in j.tus:
            src = os.path.join(d, reg + '.cpp')
            open(src, 'w').write(mm.emit(reg=reg, use=use, **{k: v for k, v in kw.items() if k != 'pch'}))
            err = b.tu(src, src[:-3] + 'o', j.variant, kw.get('pch', True), j.cxx)
            if err:
                print(short_error(err))
                return 1
            objs.append(src[:-3] + 'o')
        exe = os.path.join(d, 'x')
        b.link(j, objs, exe)
        rc, out, err = run([exe] + j.args, timeout=300)
        print(text)
        print(out + err[-3000:])
        return 1 if rc else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    t0 = time.time()
    if prop == 'C23':
        import compiletime
        return compiletime.main(tier)
    js, results, infra = explore(prop, tier, '--keep' in a, only)
    bad = [r for r in results if r.violation]
    nk = known(prop) if not only else 0
    linked = link_violation(prop, 'hsm/gen/hsm.h') if prop == 'C21' and not only else 0
    cov = merge(results)
    cov['exhaustive'] = False
    if not only:
        evidence(prop, tier, cov, time.time() - t0, len(bad) + linked, ASSUME)
    print('%s %s: %d machines, %d states, %d edges, %d runs, %d operations, %.1f s' % (
        prop, tier, cov['machines'], cov['states'], cov['transitions'], cov['traces_validated_against_impl'], cov['operations_executed'], time.time() - t0))
    if bad or linked:
        return 1
    if infra:
        for e in infra:
            print('ERROR', e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
