"""Machine descriptions -> C++ translation units + reference model tables.

A machine is written in a small text form:

    deps 2
    unexp
    entry A B P          # states with on_entry ('*' = all but the root)
    exit *
    defer A: e1 e2
    ndc X                # no default constructor
    table M:             # first table = root
      *A + e0 [g] / a = B
      B = P                       # completion transition
      exit(P,X) + e1 = C
      A + e2 = entry(P,X) ; A + e3 = direct(P,X) ; A + e1 = history(P)
    table P:
      *X + e0 = Y
    internal P:
      + e2 [g] / a

[g] gets a fresh guard, [g:n] a guard shared by name; '/ a' a fresh action,
'/ a3' chain(3 fresh actions), '/ n3' a nested chain, '/ create', '/ reuse',
'/ log', '/ alog' = chain(action, log).
The semantics the model uses (which rows are candidates where, which callbacks a
row runs, which objects it passes) are computed here from the documented rules,
independently of the library code.
"""
import copy
import re

FLATPAT = re.compile(r'''^\s*(\*?)\s*([A-Za-z_]\w*(?:\([^)]*\))?)\s*(?:\+\s*(\w+))?\s*(?:\[\s*(g[^\]]*?)\s*\])?\s*(?:/\s*(\w+))?\s*=\s*([A-Za-z_]\w*(?:\([^)]*\))?)\s*$''')
INTPAT = re.compile(r'''^\s*\+\s*(\w+)\s*(?:\[\s*(g[^\]]*?)\s*\])?\s*(?:/\s*(\w+))?\s*$''')


class SpecError(Exception):
    pass


def ref(t):
    m = re.match(r'^(\w+)\(([^)]*)\)$', t)
    if not m:
        return ('plain', None, t)
    a = [x.strip() for x in m.group(2).split(',')]
    if m.group(1) == 'history':
        return ('history', a[0], None)
    return (m.group(1), a[0], a[1])


class Row:
    pass


class Machine:
    def __init__(self, name, text, allow_conflict=False):
        self.name = name
        self.text = text
        self.tables = {}      # parent -> rows
        self.internals = {}   # owner -> rows
        self.entry, self.exit, self.ndc = [], [], []
        self.defers = {}
        self.unexp = False
        self.deps = 0
        self.nguards = 0
        self.nactions = 0
        self.gnames = {}
        self.allow_conflict = allow_conflict
        self.trivial = False
        self.absent, self.noevent = [], []
        self.root = None
        cur = None
        for line in re.split(r'[\n;]', text):
            line = line.split('#')[0].strip()
            if not line:
                continue
            m = re.match(r'^(table|internal)\s+(\w+)\s*:\s*(.*)$', line)
            if m:
                cur = (m.group(1), m.group(2))
                if cur[0] == 'table':
                    if self.root is None:
                        self.root = cur[1]
                    self.tables[cur[1]] = []
                else:
                    self.internals[cur[1]] = []
                line = m.group(3).strip()
                if not line:
                    continue
            elif re.match(r'^(deps|unexp|entry|exit|defer|ndc|trivial)\b(?!\()', line):
                w = line.replace(':', ' ').split()
                if w[0] == 'deps':
                    self.deps = int(w[1])
                elif w[0] == 'unexp':
                    self.unexp = True
                elif w[0] == 'entry':
                    self.entry += w[1:]
                elif w[0] == 'exit':
                    self.exit += w[1:]
                elif w[0] == 'ndc':
                    self.ndc += w[1:]
                elif w[0] == 'trivial':
                    self.trivial = True
                else:
                    self.defers[w[1]] = w[2:]
                continue
            self.add(cur, line)
        self.analyse()

    # ------------------------------------------------------------------ parse
    def guard(self, g):
        if g is None:
            return None
        if ':' in g:
            key = g.split(':')[1].strip()
            if key not in self.gnames:
                self.gnames[key] = self.nguards
                self.nguards += 1
            return self.gnames[key]
        self.nguards += 1
        return self.nguards - 1

    def action(self, a):
        """-> (special, [ids], cpp template with {} placeholders)"""
        def fresh():
            self.nactions += 1
            return self.nactions - 1
        if a is None:
            return (0, [], None)
        if a == 'create':
            i = fresh()
            return (1, [i], 'create')
        if a == 'reuse':
            i = fresh()
            return (2, [i], 'hsm::reuse_state(rt::A<%d>{})' % i)
        if a == 'log':
            return (3, [], 'hsm::log')
        if a == 'alog':
            i = fresh()
            return (3, [i], 'hsm::chain(rt::A<%d>{}, hsm::log)' % i)
        if a == 'a':
            i = fresh()
            return (0, [i], 'rt::A<%d>{}' % i)
        m = re.match(r'^a(\d)$', a)
        if m:
            ids = [fresh() for _ in range(int(m.group(1)))]
            return (0, ids, 'hsm::chain_actions(%s)' % ', '.join('rt::A<%d>{}' % i for i in ids))
        m = re.match(r'^n(\d)$', a)
        if m:
            k = int(m.group(1))
            ids = [fresh() for _ in range(k)]
            c = ['rt::A<%d>{}' % i for i in ids]
            mid = max(1, k - 2)
            inner = 'hsm::chain(%s)' % ', '.join(c[1:1 + mid])
            parts = [c[0], inner] + c[1 + mid:]
            return (0, ids, 'hsm::chain(%s)' % ', '.join(parts))
        raise SpecError('action ' + a)

    def add(self, cur, line):
        r = Row()
        r.text = line
        r.no = sum(len(v) for v in self.tables.values()) + sum(len(v) for v in self.internals.values())
        r.owner = cur[1]
        if cur[0] == 'table':
            m = FLATPAT.match(line)
            if not m:
                raise SpecError('%s: %s' % (self.name, line))
            r.init = bool(m.group(1))
            r.src = ref(m.group(2))
            r.ev = m.group(3)
            r.guard = self.guard(m.group(4))
            r.special, r.acts, r.acpp = self.action(m.group(5))
            r.tgt = ref(m.group(6))
            r.internal = False
            self.tables[cur[1]].append(r)
        else:
            m = INTPAT.match(line)
            if not m:
                raise SpecError('%s: %s' % (self.name, line))
            r.ev = m.group(1)
            r.guard = self.guard(m.group(2))
            r.special, r.acts, r.acpp = self.action(m.group(3))
            r.internal = True
            self.internals[cur[1]].append(r)

    # ---------------------------------------------------------------- analyse
    def children(self, p):
        out = []
        for r in self.tables[p]:
            for k, pp, s in (r.src, r.tgt):
                if k == 'plain' and s not in out:
                    out.append(s)
        return out

    def initials(self, p):
        out = []
        for r in self.tables[p]:
            if r.init and r.src[2] not in out:
                out.append(r.src[2])
        return out

    def flatten(self, p, depth=0):
        if depth > 8:
            raise SpecError('recursive')
        for r in self.tables[p]:
            yield r
            k, pp, s = r.tgt
            c = pp if k != 'plain' else s
            if c in self.tables:
                yield from self.flatten(c, depth + 1)

    def analyse(self):
        M = self
        self.parents = []
        for r in self.flatten(self.root):
            if r.owner not in self.parents:
                self.parents.append(r.owner)
        if set(self.parents) != set(self.tables):
            raise SpecError('%s: unreachable table %s' % (self.name, set(self.tables) - set(self.parents)))
        self.parents.sort(key=lambda p: 0 if p == self.root else 1)
        st, ev = [], []
        for p in self.parents:
            for s in self.children(p):
                if s not in st:
                    st.append(s)
        for p in self.parents:
            if p not in st:
                st.append(p)
        self.states = st
        for t in list(self.tables.values()) + list(self.internals.values()):
            for r in t:
                if r.ev and r.ev not in ev:
                    ev.append(r.ev)
        self.events = sorted(ev)
        for p in self.parents:
            if p != self.root and len(self.initials(p)) != 1:
                raise SpecError('%s: sub machine %s needs one region' % (self.name, p))
            for s in self.initials(p):
                if s in self.tables:
                    raise SpecError('composite initial')
        if '*' in self.entry:
            self.entry = [s for s in st if s != self.root]
        if '*' in self.exit:
            self.exit = [s for s in st if s != self.root]
        for r in self.allrows():
            self.sem(r)
        # candidates
        order = list(self.flatten(self.root))
        self.cand = {}
        for p in self.parents:
            for s in self.children(p):
                if s in self.tables:
                    continue
                for e in self.events + [None]:
                    ext, owners = [], set()
                    for r in reversed(order):
                        if r.ev == e and (p, s) in r.match and r not in ext:
                            ext.append(r)
                            owners.add((r.owner, r.src[0], r.src[2] in self.tables))
                    if len(owners) > 1 and not self.allow_conflict:
                        raise SpecError('%s: rows of different levels compete in (%s,%s)+%s' % (self.name, p, s, e))
                    inn, own = [], set()
                    for o, rows in self.internals.items():
                        for r in reversed(rows):
                            if r.ev == e and (p, s) in r.match:
                                inn.append(r)
                                own.add(o)
                    if len(own) > 1 and not self.allow_conflict:
                        raise SpecError('%s: internal rows of different owners compete' % self.name)
                    self.cand[(p, s, e)] = ext + inn

    def allrows(self):
        out = [r for t in self.tables.values() for r in t] + [r for t in self.internals.values() for r in t]
        out.sort(key=lambda r: r.no)
        return out

    def sem(self, r):
        T = self.tables
        r.exitS = r.entryS = r.entry2 = r.histP = None
        r.tp = r.ts = None
        if r.internal:
            if r.owner in T:
                r.match = {(r.owner, c) for c in self.children(r.owner)}
            else:
                r.match = {(p, r.owner) for p in T if r.owner in self.children(p)}
            r.srcObj = r.tgtObj = None  # the current state
            return
        k, pp, s = r.src
        if k == 'plain':
            r.match = {(r.owner, s)}
            if s in T:
                r.match |= {(s, c) for c in self.children(s)}
            r.srcObj = s
            r.exitS = s if s in self.exit else None
        else:
            if s not in self.children(pp):
                raise SpecError('pseudo source')
            r.match = {(pp, s)}
            r.srcObj = s
            if k == 'exit' and pp in self.exit:
                r.exitS = pp
        k, pp, s = r.tgt
        if k == 'plain':
            if s in T:
                r.tp, r.ts = s, self.initials(s)[0]
                if r.ts in self.entry:
                    r.entry2 = r.ts
            else:
                r.tp, r.ts = r.owner, s
            if s in self.entry:
                r.entryS = s
        elif k == 'history':
            r.histP = pp
            r.tp, r.ts = pp, self.initials(pp)[0]
        else:
            if s not in self.children(pp):
                raise SpecError('pseudo target')
            r.tp, r.ts = pp, s
        r.tgtObj = r.ts

    # ------------------------------------------------------------------- emit
    def sname(self, s):
        return s

    def cref(self, x, target=False):
        k, p, s = x
        if k == 'plain':
            return 'hsm::state<%s>' % s
        if k == 'history':
            return 'hsm::history<%s>' % p
        return 'hsm::%s<%s, %s>' % (k, p, s)

    def acpp(self, r):
        if r.acpp == 'create':
            return 'hsm::create_state(rt::Factory<%d, %s>{})' % (r.acts[0], r.ts)
        return r.acpp

    def style(self, x):
        """callbacks as functors or as lambdas (guards with an int result)"""
        if not x or self.cb == 'type':
            return x
        x = re.sub(r'rt::G<(\d+)>\{\}', r'([](auto&& e, auto&& s, auto&& t, auto&&... d) { return rt::G<\1>{}(e, s, t, d...) ? 6 : 0; })', x)
        # entry and exit actions may carry values, all callbacks may return something
        x = re.sub(r'rt::(En|Ex)<(\d+)>\{\}', r'[k = 700\2](auto&& e, auto&& s, auto&& t, auto&&... d) { if (k != 700\2) __builtin_trap(); rt::\1<\2>{}(e, s, t, d...); return k == 0; }', x)
        return re.sub(r'rt::A<(\d+)>\{\}', r'[](auto&& e, auto&& s, auto&& t, auto&&... d) { rt::A<\1>{}(e, s, t, d...); return \1 < 0; }', x)

    cb = 'type'
    odd = False  # events derived from each other, not default constructible, not assignable, states that are final, polymorphic, aligned, not copyable

    def row(self, r, front):
        g = self.style('rt::G<%d>{}' % r.guard if r.guard is not None else None)
        a = self.style(self.acpp(r))
        if r.internal:
            if front == 'tuple':
                return 'hsm::internal_transition(hsm::event<%s>, %s, %s)' % (r.ev, g or 'hsm::noGuard{}', a or 'hsm::noAction{}')
            e = 'hsm::event<%s>' % r.ev
            if g:
                e += ' [%s]' % g
            if a:
                e += ' / %s' % a
            return '+ (%s)' % e
        src, tgt = self.cref(r.src), self.cref(r.tgt)
        if front == 'prefix' and not (r.ev is None and (r.init or g or a or r.src[0] != 'plain')):
            e = ('* ' if r.init else '') + src
            if r.ev:
                e += ' + hsm::event<%s>' % r.ev
                if g:
                    e += ' [%s]' % g
                if a:
                    e += ' / %s' % a
            return '%s <= %s' % (tgt, e)
        if front == 'tuple' or front == 'prefix':
            return 'hsm::transition(%s, %s, %s, %s, %s)' % (
                ('* ' if r.init else '') + src, 'hsm::event<%s>' % r.ev if r.ev else 'hsm::none{}',
                g or 'hsm::noGuard{}', a or 'hsm::noAction{}', tgt)
        if r.init:
            src = '* ' + src if r.ev else '(* %s)' % src
        e = src
        if r.ev:
            e += ' + hsm::event<%s>' % r.ev
        if g:
            e += ' [%s]' % g
        if a:
            e += ' / %s' % a
        return '%s = %s' % (e, tgt)

    def state_struct(self, s, front):
        i = self.states.index(s)
        if s in self.ndc:
            o = ['struct %s : rt::NdcObj<%d> { using rt::NdcObj<%d>::NdcObj;' % (s, i, i)]
        elif self.odd and i % 4:
            o = ['struct %s%s final : %srt::StateObj<%d> { %s() = default; %s(const %s&) = delete;' % (
                'alignas(64) ' if i % 4 == 1 else '', s, 'rt::Poly, ' if i % 4 == 2 else '', i, s, s, s)]
        else:
            o = ['struct %s : rt::StateObj<%d> {' % (s, i)]
        if s in self.entry:
            o.append('    static constexpr auto on_entry() { return %s; }' % self.style('rt::En<%d>{}' % i))
        if s in self.exit:
            o.append('    static constexpr auto on_exit() { return %s; }' % self.style('rt::Ex<%d>{}' % i))
        if s in self.defers:
            o.append('    static constexpr auto defer_events() { return hsm::events<%s>; }' % ', '.join(self.defers[s]))
        if s == self.root and self.unexp:
            o.append('    static constexpr auto on_unexpected_event() { return %s; }' % ('rt::Unexpected{}' if self.cb == 'type' else '[k = 4711](auto&& e, auto&& s, auto&&... d) { if (k != 4711) __builtin_trap(); rt::Unexpected{}(e, s, d...); }'))
        if s in self.tables:
            o.append('    static constexpr auto make_transition_table() { return hsm::transition_table(\n        %s); }'
                     % ',\n        '.join(self.row(r, front) for r in self.tables[s]))
        if s in self.internals:
            o.append('    static constexpr auto make_internal_transition_table() { return hsm::transition_table(\n        %s); }'
                     % ',\n        '.join(self.row(r, front) for r in self.internals[s]))
        o.append('};')
        return '\n'.join(o)

    def desc_cpp(self):
        S = {s: i for i, s in enumerate(self.states)}
        P = {p: i for i, p in enumerate(self.parents)}
        o = ['const rt::Desc& theDesc() {', '  static const rt::Desc d = [] {', '    rt::Desc d;']
        o.append('    d.name = "%s";' % self.name)
        o.append('    d.states = {%s};' % ', '.join('"%s"' % s for s in self.states))
        o.append('    d.events = {%s};' % ', '.join('"%s"' % s for s in self.events))
        o.append('    d.parents = {%s};' % ', '.join(str(S[p]) for p in self.parents))
        o.append('    d.init = {%s};' % ', '.join('{0, %d}' % S[s] for s in self.initials(self.root)))
        o.append('    d.initialOf = {%s};' % ', '.join(str(S[self.initials(p)[0]]) for p in self.parents))
        o.append('    d.pairs = {%s};' % ', '.join('{%d, %d}' % (P[p], S[s]) for p in self.parents for s in self.children(p) if s not in self.tables))
        nE = len(self.events)

        def si(x):
            return -1 if x is None else S[x]
        o.append('    auto row = [&d](int guard, std::vector<int> act, int so, int to, int xs, int es, int e2, int tp, int ts, int hp, bool in, int sp, const char* text) {')
        o.append('      rt::Row r; r.guard = guard; r.act = act; r.srcObj = so; r.tgtObj = to; r.exitS = xs; r.entryS = es; r.entry2 = e2; r.tp = tp; r.ts = ts; r.histP = hp; r.internal = in; r.special = sp; r.text = text; d.rows.push_back(r); };')
        for r in self.allrows():
            o.append('    row(%d, {%s}, %d, %d, %d, %d, %d, %d, %d, %d, %s, %d, "%s: %s");' % (
                -1 if r.guard is None else r.guard, ', '.join(map(str, r.acts)), si(r.srcObj), si(r.tgtObj),
                si(r.exitS), si(r.entryS), si(r.entry2), -1 if r.tp is None else P[r.tp], si(r.ts),
                -1 if r.histP is None else P[r.histP], 'true' if r.internal else 'false', r.special, r.owner, r.text.replace('"', '')))
        o.append('    d.cand.resize(%d);' % (len(P) * len(S) * (nE + 1)))
        for (p, s, e), rows in self.cand.items():
            if rows:
                ei = nE if e is None else self.events.index(e)
                o.append('    d.cand[%d] = {%s};' % ((P[p] * len(S) + S[s]) * (nE + 1) + ei, ', '.join(str(r.no) for r in rows)))
        o.append('    d.defer = {%s};' % ', '.join(str(sum(1 << self.events.index(e) for e in self.defers.get(s, []))) + 'ull' for s in self.states))
        o.append('    d.absent = {%s};' % ', '.join('true' if s in self.absent else 'false' for s in self.states))
        o.append('    d.noEvent = {%s};' % ', '.join('true' if e in self.noevent else 'false' for e in self.events))
        named = {c for p in self.parents for c in self.children(p)}
        o.append('    d.unnamed = {%s};' % ', '.join('true' if s not in named else 'false' for s in self.states))
        o.append('    d.ndc = {%s};' % ', '.join('true' if s in self.ndc else 'false' for s in self.states))
        o.append('    d.ndeps = %d; d.nguards = %d; d.unexp = %s; d.history = %s; d.anonymous = %s;' % (
            self.deps, self.nguards, 'true' if self.unexp else 'false',
            'true' if any(r.histP for r in self.allrows()) else 'false',
            'true' if any(r.ev is None for r in self.allrows()) else 'false'))
        o.append('    return d; }();\n  return d;\n}')
        return '\n'.join(o)

    def emit(self, front='postfix', header='hsm/hsm.h', reg=None, pre='', full=False, use=('set', 'setforms', 'query'), also=(), cb=None, odd=False):
        """C++ TU with the machine, its driver and its registration as `reg`."""
        if cb:
            self = copy.copy(self)
            self.cb = cb
        if odd:
            self = copy.copy(self)
            self.odd = not any(r.special for r in self.allrows())
        reg = reg or self.name
        o = [pre, '#include "rt.h"', '#include "%s"' % header, '#include <new>', '#include <cstring>', 'namespace mach_%s {' % reg]
        heavy = set() if self.trivial else {e for i, e in enumerate(self.events) if i % 2}
        for i, e in enumerate(self.events):
            b = 'rt::%s<%d>' % ('HeavyEv' if e in heavy else 'Ev', i)
            if self.odd and i % 3 == 1:
                o.append('struct %s final : %s { static constexpr int vh_event = %d; using %s::%s; };' % (e, self.events[i - 1], i, self.events[i - 1], self.events[i - 1]))
            else:
                x = ' %s() = delete;' % e if self.odd else ''
                if self.odd and i % 3 == 2:
                    x += ' %s(const %s&) = default; %s& operator=(const %s&) = delete;' % (e, e, e, e)
                o.append('struct %s : %s { using %s::%s;%s };' % (e, b, b, 'HeavyEv' if e in heavy else 'Ev', x))
        done = []
        for s in self.states:
            o.append('struct %s;' % s)

        def put(s):
            if s in done:
                return
            if s in self.tables:
                for c in self.children(s):
                    put(c)
                for r in self.tables[s]:
                    for k, pp, x in (r.src, r.tgt):
                        if pp and pp != s:
                            put(pp)
            if s not in done:
                done.append(s)
                o.append(self.state_struct(s, front))
        put(self.root)
        for s in self.states:
            put(s)
        o += self.driver_cpp(reg, full, use)
        for m in also:
            o.append('namespace also_%s {' % m.name)
            o += m.driver_cpp(m.name, full, use)
            o.append('}')
        o.append('}')
        return '\n'.join(x for x in o if x) + '\n'

    def second(self, root):
        """The sub machine `root` of this machine as a machine of its own, sharing
        the state, event, guard and action types."""
        m = copy.deepcopy(self)
        m.root, m.name, m.unexp = root, self.name + '_' + root, False
        keep = []

        def reach(p):
            if p not in keep:
                keep.append(p)
                for r in m.tables[p]:
                    for k, pp, x in (r.src, r.tgt):
                        for y in (pp, x):
                            if y in m.tables:
                                reach(y)
        reach(root)
        m.tables = {p: t for p, t in m.tables.items() if p in keep}
        states, events = self.states, self.events
        ids = {r.no: r for r in self.allrows()}
        m.internals = {k: v for k, v in m.internals.items() if k in keep or any(k in m.children(p) for p in keep)}
        m.analyse()
        m.absent = [s for s in states if s not in m.states]
        m.noevent = [e for e in events if e not in m.events]
        m.states, m.events = states, events
        for n, r in enumerate(m.allrows()):
            r.no = n
        return m

    def driver_cpp(self, reg, full, use):
        o = [self.desc_cpp()]
        deps = ''.join(', const rt::Dep' if self.odd and k % 2 == 0 else ', rt::Dep' for k in range(self.deps))
        args = ', '.join('*deps[%d]' % i for i in range(self.deps))
        S, P = self.states, self.parents
        o.append('using SM = hsm::sm<%s%s>;' % (self.root, deps))
        o.append('struct Drv final : rt::Driver {')
        o.append('  void* mem = nullptr; SM* p = nullptr;')
        o.append('  void create(int pattern, const std::vector<rt::Dep*>& deps) override { (void)deps; mem = ::operator new(sizeof(SM)); if (pattern >= 0) std::memset(mem, pattern, sizeof(SM)); p = new (mem) SM%s; }'
                 % (('(%s)' % args) if args else ''))
        o.append('  void destroy() override { p->~SM(); p = nullptr; ::operator delete(mem); mem = nullptr; }')
        o.append('  void abandon() override { p = nullptr; ::operator delete(mem); mem = nullptr; }')
        new = 'q = new (m) SM%s' % (('(%s)' % args) if args else '')
        o.append('  static void* room(int pattern) { void* m = ::operator new(sizeof(SM)); if (pattern >= 0) std::memset(m, pattern, sizeof(SM)); return m; }')
        o.append('  void move(int how, int pattern, const std::vector<rt::Dep*>& deps) override {')
        o.append('    (void)how; (void)pattern; (void)deps;')
        if 'move' in use:
            o.append('    void* m = room(pattern); SM* q = nullptr;')
            o.append('    switch (how) {')
            o.append('    case 0: q = new (m) SM(std::move(*p)); break;')  # into another object
            o.append('    case 1: %s; *q = std::move(*p); break;' % new)  # onto a fresh machine
            o.append('    case 2: %s; { SM t(std::move(*p)); *p = std::move(*q); *q = std::move(t); } break;' % new)  # swapped
            o.append('    default: { std::vector<SM> v; v.push_back(std::move(*p)); v.emplace_back(%s); v.emplace_back(%s); v.erase(v.begin() + 1); q = new (m) SM(std::move(v.front())); } break;' % (args, args))
            o.append('    }')
            o.append('    destroy(); mem = m; p = q;')
        o.append('  }')
        o.append('  void assign(rt::Driver& from) override { (void)from; %s }' % ('auto& f = static_cast<Drv&>(from); *p = std::move(*f.p); f.destroy();' if 'move' in use else ''))
        o.append('  void fire(int ev, int payload, bool rv, const void** addr, rt::FireResult& r) override { switch (ev) {')
        for i, e in enumerate(self.events):
            if e in self.noevent:
                continue
            o.append('    case %d: { rt::Local<%s> l(payload, r); *addr = &l.e; r.ret = rv ? p->process_event(std::move(l.e)) : p->process_event(l.e); break; }' % (i, e))
        o.append('  } }')
        o.append('  bool is(int region, int pp, int s) override { (void)region; switch (pp * %d + s) {' % len(S))
        for i, p in enumerate(P):
            for j, s in enumerate(S):
                if not full and s not in self.children(p):
                    continue
                o.append('    case %d: return p->is(region, hsm::state<%s>, hsm::state<%s>);' % (i * len(S) + j, p, s))
        o.append('  } return false; }')
        o.append('  bool is2(int pp, int s) override { switch (pp * %d + s) {' % len(S))
        for i, p in enumerate(P):
            for j, s in enumerate(S):
                if not full:
                    continue
                o.append('    case %d: return p->is(hsm::state<%s>, hsm::state<%s>);' % (i * len(S) + j, p, s))
        o.append('  } return false; }')
        o.append('  bool is1(int s) override { switch (s) {')
        for j, s in enumerate(S):
            if not full:
                continue
            o.append('    case %d: return p->is(hsm::state<%s>);' % (j, s))
        o.append('  } return false; }')
        o.append('  bool parentIs(int s) override { switch (s) {')
        for j, s in enumerate(P if full else ()):
            o.append('    case %d: return p->parent_is(hsm::state<%s>);' % (j, s))
        o.append('  } return false; }')
        simple = [(i, p, s) for i, p in enumerate(P) for s in self.children(p) if s not in self.tables]
        o.append('  void set(int region, int pp, int s) override { switch (pp * %d + s) {' % len(S))
        for i, p, s in simple if 'set' in use or 'setforms' in use else ():
            o.append('    case %d: p->set(region, hsm::state<%s>, hsm::state<%s>); break;' % (i * len(S) + S.index(s), p, s))
        o.append('  } }')
        o.append('  void set2(int pp, int s) override { switch (pp * %d + s) {' % len(S))
        for i, p, s in simple if 'setforms' in use else ():
            o.append('    case %d: p->set(hsm::state<%s>, hsm::state<%s>); break;' % (i * len(S) + S.index(s), p, s))
        o.append('  } }')
        o.append('  void set1(int s) override { switch (s) {')
        for i, p, s in simple if 'setforms' in use else ():
            if i == 0:
                o.append('    case %d: p->set(hsm::state<%s>); break;' % (S.index(s), s))
        o.append('  } }')
        o.append('  void setDeps(const std::vector<rt::Dep*>& deps) override { (void)deps; p->set_dependency(%s); }' % args)
        o.append('  std::string status() override { return p->status(); }')
        o.append('  const rt::Desc& desc() override { return theDesc(); }')
        o.append('};')
        o.append('rt::Register reg("%s", []() -> rt::Driver* { return new Drv; });' % reg)
        return o


if __name__ == '__main__':
    import sys
    m = Machine('demo', open(sys.argv[1]).read())
    print(m.emit())
