"""C23: every program of a small grammar of machines and uses, classified by a
reference predicate and by the compiler.

A program is a machine (a root table over plain states, a composite P, a state I
with internal transitions, and pseudo states) plus one use of it.  The predicate
below decides from the description alone whether the program must be accepted;
the compiler decides on the text that is generated from the description.  Two
programs are neighbours when they differ in one row feature or in the use; the
enumeration is closed under this relation within the bounds, so every rejected
program is surrounded by accepted ones that share all of its other text.
"""
import concurrent.futures
import itertools
import os
import shutil
import sys
import tempfile
import time

import check

PRELUDE = '''
using hsm::state_t; using hsm::event_t; using hsm::transition_table; using hsm::events;
inline constexpr auto guard = [](auto&&...) { return true; };
struct e0 {}; struct e1 {}; struct e2 {}; struct e3 {}; struct ei {}; struct ex {}; struct eo {};
struct ed : e0 {};
struct A {}; struct B {}; struct C {}; struct X {}; struct Y {}; struct Z {}; struct U {};
struct EE { template <class E, class S, class T> constexpr auto on_entry(E&&, S&&, T&&) {} template <class E, class S, class T> constexpr auto on_exit(E&&, S&&, T&&) {} };
struct D { static constexpr auto defer_events() { return hsm::events<e0>; } };
struct I { static constexpr auto make_internal_transition_table() { return transition_table(+ (event_t<ei>{} / [](auto&&...) {})); } };
struct P { static constexpr auto make_transition_table() { return transition_table(* state_t<X>{} + event_t<e2>{} = state_t<Y>{}, state_t<Y>{} + event_t<e3>{} = state_t<X>{}); } };
struct Q { static constexpr auto make_transition_table() { return transition_table(* state_t<Z>{} + event_t<eo>{} = state_t<Z>{}); } };
struct PI { static constexpr auto make_transition_table() { return transition_table(* state_t<X>{} + event_t<e2>{} = state_t<Y>{}); }
            static constexpr auto make_internal_transition_table() { return transition_table(+ (event_t<ei>{} / [](auto&&...) {})); } };
struct U2 { static constexpr auto make_transition_table() { return transition_table(* state_t<U>{} + event_t<ex>{} = state_t<U>{}); } };
'''
G = '[guard]'
COMPOSITE = {'P': (['X', 'Y'], ['e2', 'e3']), 'Q': (['Z'], ['eo']), 'PI': (['X', 'Y'], ['e2'])}
INTERNAL = {'I': ['ei'], 'PI': ['ei']}
ACT = {'': '', 'a': ' / [](auto&&...) {}', 'c': ' / hsm::chain_actions([](auto&&...) {}, [](auto&&...) {})', 'l': ' / hsm::log'}


class Prog:
    """table: None (no method) or list of rows (init, source, event, guard, action, target); use: tuple"""

    def __init__(self, table, use=('construct',), deps=0):
        self.table, self.use = table, use

    # ---- reference predicate -------------------------------------------------
    def owners(self):
        out, todo = ['R'], []
        for init, s, e, g, a, t in self.table or []:
            todo += [s, t]
        for x in todo:
            n = x if isinstance(x, str) else x[1]
            if n in COMPOSITE and n not in out:
                out.append(n)
        return out

    def states(self):
        st = set()
        for init, s, e, g, a, t in self.table:
            for x in (s, t):
                if isinstance(x, str):
                    st.add(x)
        for o in self.owners()[1:]:
            st.add(o)
            st |= set(COMPOSITE[o][0])
        return st

    def events(self):
        ev = set()
        for init, s, e, g, a, t in self.table:
            if e:
                ev.add(e)
        for o in self.owners()[1:]:
            ev |= set(COMPOSITE[o][1])
        for s in self.states():
            ev |= set(INTERNAL.get(s, []))
        return ev

    def accepted(self):
        if not self.table:
            return False
        inits = [s for i, s, *r in self.table if i]
        if not inits:
            return False
        if any(s in COMPOSITE or s in INTERNAL for s in inits):
            return False
        k, *a = self.use
        if k == 'fire':
            return a[0] in self.events()
        if k == 'set1':
            return a[0] in self.states()
        if k in ('set2', 'set3'):
            return a[0] in self.owners() and a[1] in self.states()
        return True

    def classified(self):
        """False for accepted programs outside the grammar the documentation
        describes: composites no row leads to, set() to a composite that only
        pseudo states name."""
        if not self.table or not self.accepted():
            return True
        src = {x if isinstance(x, str) else x[1] for _, x, *r in self.table}
        tgt = {r[-1] if isinstance(r[-1], str) else r[-1][1] for r in self.table}
        if any(x in COMPOSITE and x not in tgt for x in src):
            return False
        plain = {x for r in self.table for x in (r[1], r[-1]) if isinstance(x, str)}
        return not (self.use[0].startswith('set') and self.use[-1] in COMPOSITE and self.use[-1] not in plain)

    # ---- program text --------------------------------------------------------
    def text(self, ns):
        def st(x):
            if isinstance(x, str):
                return 'state_t<%s>{}' % x
            if x[0] == 'history':
                return 'hsm::history<%s>' % x[1]
            return 'hsm::%s<%s, %s>' % x
        if self.table is None:
            body = ''
        else:
            rows = []
            for init, s, e, g, a, t in self.table:
                r = st(s) if not init else '* ' + st(s) if e else '(* %s)' % st(s)
                if e:
                    r += ' + event_t<%s>{}' % e + ((' ' + G) if g else '')
                elif g:
                    r += G
                rows.append(r + ACT[a] + ' = ' + st(t))
            body = 'static constexpr auto make_transition_table() { return transition_table(%s); }' % ', '.join(rows)
        k, *a = self.use
        use = {
            'construct': '',
            'fire': 's.process_event(%s{});' % (a[0] if a else ''),
            'set1': 's.set(state_t<%s>{});' % (a[0] if a else ''),
            'set2': 's.set(state_t<%s>{}, state_t<%s>{});' % tuple((a + ['', ''])[:2]),
            'set3': 's.set(0, state_t<%s>{}, state_t<%s>{});' % tuple((a + ['', ''])[:2]),
        }[k]
        return 'namespace %s { struct R { %s };\ninline void use() { hsm::sm<R> s; %s } }\n' % (ns, body, use)

    def __str__(self):
        return 'root %s, use %s' % ('without table' if self.table is None else self.table, ' '.join(self.use))


def row(init, s, t, e='e0', g=False, a=''):
    return (init, s, e, g, a, t)


def programs(tier):
    out = []
    # 1. which root tables are machines
    out.append(Prog(None))
    out.append(Prog([]))
    kinds = ['A', 'EE', 'D', 'P', 'PI', 'I']
    for i, s, t in itertools.product((0, 1), kinds, ['B', 'P', 'I']):
        out.append(Prog([row(i, s, t)]))
    k2 = ['A', 'P', 'I'] if tier == 'quick' else kinds
    t2 = ['C'] if tier == 'quick' else ['C', 'Q', 'I']
    for i, j, s, s2, t in itertools.product((0, 1), (0, 1), k2, ['B', 'Q', 'I'], t2):
        out.append(Prog([row(i, s, 'B'), row(j, s2, t, 'e1')]))
    # initial markers on anonymous rows and on pseudo target rows
    for i, t in itertools.product((0, 1), ['B', 'P', ('entry', 'P', 'X'), ('direct', 'P', 'Y'), ('history', 'P')]):
        out.append(Prog([row(i, 'A', t, None)]))
        out.append(Prog([row(i, 'A', t), row(0, ('exit', 'P', 'Y'), 'P', 'e3'), row(0, 'P', 'A', 'e1')]))
    # three regions, the offending one first, in the middle, last
    for bad in (None, 'P', 'I'):
        for pos in range(3):
            srcs = ['A', 'B', 'C']
            if bad:
                srcs[pos] = bad
            elif pos:
                continue
            out.append(Prog([row(1, s, s, 'e%d' % k) for k, s in enumerate(srcs)]))
    # 2. uses of well formed machines
    ms = [
        [row(1, 'A', 'B')],
        [row(1, 'A', 'P'), row(0, 'P', 'A', 'e1')],
        [row(1, 'A', 'I'), row(0, 'I', 'P', 'e1')],
        [row(1, 'A', ('direct', 'P', 'Y'))],
        [row(1, 'A', 'B'), row(1, 'C', ('history', 'Q'), 'e1')],
        [row(1, 'A', 'PI')],
        [row(1, 'D', 'A', 'e1'), row(0, 'A', 'D')],
        [row(1, 'A', 'B', None)],
    ]
    if tier == 'quick':
        ms = [ms[0], ms[2], ms[4], ms[6]]
    evs = ['e0', 'e1', 'e2', 'e3', 'ei', 'ex', 'eo', 'ed']
    for m in ms:
        for e in evs:
            out.append(Prog(m, ('fire', e)))
        for s in ['A', 'B', 'X', 'Y', 'Z', 'U', 'P', 'I', 'e0']:
            out.append(Prog(m, ('set1', s)))
        for p, s in itertools.product(['R', 'P', 'Q', 'A', 'U2'], ['A', 'X', 'U'] if tier == 'quick' else ['A', 'X', 'Z', 'U', 'P']):
            out.append(Prog(m, ('set2', p, s)))
        for p, s in itertools.product(['R', 'P', 'U2'], ['A', 'X', 'U']):
            out.append(Prog(m, ('set3', p, s)))
    # 3. every documented row form is accepted
    for e, g, a, s, t in itertools.product(['e0', None], [False, True], ACT, ['A', ('exit', 'P', 'Y'), 'P'],
                                           ['B', 'A', 'P', ('entry', 'P', 'X'), ('direct', 'P', 'Y'), ('history', 'P')]):
        if e is None and (a == 'l' or s == t):  # a completion into itself never ends
            continue
        out.append(Prog([row(1, 'A', 'P', 'e1'), (0, s, e, g, a, t), row(0, 'P', 'C', 'e2')]))
    return [p for p in out if p.classified()]


def neighbours(ps):
    """pairs of programs that differ in exactly one row feature or in the use"""
    def feats(p):
        f = [('use', p.use)]
        for k, r in enumerate(p.table or []):
            f += [((k, n), x) for n, x in enumerate(r)]
        return (p.table is None, len(p.table or [])), tuple(f)
    by = {}
    for idx, p in enumerate(ps):
        shape, f = feats(p)
        for k in range(len(f)):
            by.setdefault((shape, k, f[:k] + f[k + 1:]), []).append(idx)
    return sum(len(v) * (len(v) - 1) // 2 for v in by.values())


def main(tier):
    t0 = time.time()
    ps = programs(tier)
    scratch = tempfile.mkdtemp(prefix='vh-C23-')
    bad = []
    infra = []
    inc = ['-I', os.path.join(check.REPO, 'include')]
    flags = ['-std=gnu++20', '-w', '-fmax-errors=2', '-fdiagnostics-color=never', '-fdiagnostics-show-caret', '-fsyntax-only',
             '--param', 'ggc-min-expand=500', '--param', 'ggc-min-heapsize=1000000']
    flags.remove('-fdiagnostics-show-caret')
    compiles = [0]
    try:
        h = os.path.join(scratch, 'pre.h')
        with open(h, 'w') as f:
            f.write('#include <hsm/hsm.h>\n' + PRELUDE)
        rc, out, err = check.run([check.CXX] + [x for x in flags if x != '-fsyntax-only'] + inc + ['-x', 'c++-header', h, '-o', h + '.gch'])
        if rc != 0:
            print('the library header does not compile: ' + check.short_error(err))

        def verdict(batch, name):
            src = os.path.join(scratch, name + '.cpp')
            with open(src, 'w') as f:
                for k, p in enumerate(batch):
                    f.write('// %s\n%s' % (p, p.text('n%d' % k)))
            compiles[0] += 1
            rc, out, err = check.run([check.CXX] + flags + inc + ['-include', h, src], timeout=600)
            if rc == 0:
                return True, ''
            if rc < 0 or 'internal compiler error' in err or 'error:' not in err:
                rc, out, err = check.run([check.CXX] + flags + inc + ['-include', h, src], timeout=600)
                if rc == 0:
                    return True, ''
                if 'error:' not in err:
                    infra.append('compiler failed: ' + err[:300])
                    return None, ''
            return False, check.short_error(err)

        def accept(batch, name):
            ok, why = verdict(batch, name)
            if ok is None:
                return []
            if ok:
                return []
            if len(batch) == 1:
                return [(batch[0], name, 'a well formed program is rejected: ' + why)]
            half = len(batch) // 2
            return accept(batch[:half], name + 'a') or accept(batch[half:], name + 'b')

        def reject(p, name):
            ok, why = verdict([p], name)
            return [(p, name, 'an ill formed program is accepted')] if ok else []

        good = [p for p in ps if p.accepted()]
        ill = [p for p in ps if not p.accepted()]
        with concurrent.futures.ThreadPoolExecutor(check.JOBS) as pool:
            n = 8
            futs = [pool.submit(accept, good[i:i + n], 'w%d' % i) for i in range(0, len(good), n)]
            futs += [pool.submit(reject, p, 'i%d' % k) for k, p in enumerate(ill)]
            for f in futs:
                bad += f.result()
        outdir = os.path.join(check.VERIF, 'out', 'C23')
        for p, name, why in bad[:8]:
            os.makedirs(outdir, exist_ok=True)
            dst = os.path.join(outdir, name + '.cpp')
            with open(dst, 'w') as f:
                f.write('// %s: %s\n// g++ -std=gnu++20 -fsyntax-only -I /repo/include %s\n#include <hsm/hsm.h>\n' % (why, p, name + '.cpp')
                        + PRELUDE + p.text('n0'))
            print('%s: %s' % (why, p))
            print('VIOLATION property=C23 replay=%s' % dst, flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    linked = check.link_violation('C23', 'hsm/hsm.h')
    cov = dict(states=len(ps), transitions=neighbours(ps), traces_validated_against_impl=len(ps), well_formed=len(good), ill_formed=len(ill),
               compiler_runs=compiles[0],
               rule='a state is one program (machine description and use), a transition connects two programs that differ in one row feature or in '
                    'the use; every program is judged by the reference predicate and by g++ -fsyntax-only on its text',
               samples=[str(p) + (' -> accepted' if p.accepted() else ' -> rejected') for p in ps[::max(1, len(ps) // 12)]], exhaustive=False)
    check.evidence('C23', tier, cov, time.time() - t0, len(bad) + linked,
                   ['g++ 13 -std=gnu++20; a program counts as rejected when the compiler reports an error for it',
                    'bounded: root tables of at most three rows over the listed state kinds'])
    print('C23 %s: %d programs (%d well formed, %d ill formed), %d compiler runs, %.1f s' % (
        tier, len(ps), len(good), len(ill), compiles[0], time.time() - t0))
    if bad or linked:
        return 1
    if infra:
        print('ERROR', infra[0])
        return 2
    return 0
