"""Machines that cover all pairs of structural features.

Every feature has a few options; a deterministic greedy search picks option
vectors until every pair of options of two different features occurs in one of
them (covering array of strength 2), and build() turns a vector into a machine.
`fix` restricts features to the options a property is about.
"""
import itertools
from gen import Machine, SpecError

FEATURES = dict(
    regions=(1, 2, 3),
    comp=('none', 'one', 'two', 'nested', 'deep', 'second'),
    initpos=('first', 'last'),
    subinit=('first', 'last'),
    sink=('none', 'sub', 'root', 'both'),
    share=('own', 'siblings', 'root'),
    leave=('comp', 'exit', 'direct', 'both'),
    enter=('comp', 'entry', 'direct', 'history', 'mix'),
    guards=('none', 'some', 'multi', 'shared'),
    actions=('none', 'some', 'all', 'chain'),
    ee=('none', 'all', 'states', 'subs', 'sinks'),
    internal=('none', 'root', 'comp', 'simple', 'sink'),
    defer=('none', 'root', 'sub', 'sink', 'two'),
    anon=('none', 'root', 'sub', 'comp', 'loop', 'sink'),
    deps=(0, 1, 2),
    unexp=(0, 1),
    selfs=('none', 'root', 'comp', 'sub'),
    events=('own', 'shared'),
)
# options that only take part when they are asked for (`fix`)
EXTRA = dict(create=('no', 'root', 'comp', 'both'), actions=FEATURES['actions'] + ('log', 'logs'))


def valid(v):
    """False for pairs that cannot be built together."""
    if v.get('comp') == 'none':
        if v.get('leave', 'comp') != 'comp' or v.get('enter', 'comp') != 'comp' or v.get('subinit', 'first') != 'first':
            return False
        if v.get('sink') in ('sub', 'both') or v.get('share', 'own') != 'own' or v.get('selfs') in ('comp', 'sub'):
            return False
        if v.get('ee') == 'subs' or v.get('internal') == 'comp' or v.get('defer') == 'sub' or v.get('anon') in ('sub', 'comp'):
            return False
    if v.get('sink') == 'none' and (v.get('ee') == 'sinks' or v.get('internal') == 'sink' or v.get('defer') == 'sink' or v.get('anon') == 'sink'):
        return False
    if v.get('regions') == 1 and v.get('comp') == 'second':
        return False
    if v.get('create', 'no') in ('comp', 'both') and v.get('comp') == 'none':
        return False
    if v.get('create', 'no') != 'no' and v.get('deps'):
        return False
    # composite-level completion rows never come to rest inside the composite
    if v.get('anon') == 'comp' and v.get('share') == 'root':
        return False
    return True


def vectors(fix=None, limit=None):
    dom = {k: tuple(o for o in EXTRA.get(k, v) if o in fix[k]) if fix and k in fix else v for k, v in FEATURES.items()}
    if fix and 'create' in fix:
        dom['create'] = fix['create']
    names = list(dom)
    todo = set()
    for a, b in itertools.combinations(names, 2):
        for x, y in itertools.product(dom[a], dom[b]):
            if valid({a: x, b: y}):
                todo.add(((a, x), (b, y)))
    out = []
    seed = 12345

    def rnd(n):
        nonlocal seed
        seed = (seed * 1103515245 + 12345) % (1 << 31)
        return (seed >> 8) % n

    def gain(v):
        it = list(v.items())
        return sum(1 for i in range(len(it)) for j in range(i) if (it[j], it[i]) in todo or (it[i], it[j]) in todo)

    while todo and (limit is None or len(out) < limit):
        best = None
        for attempt in range(12):
            order = names[:]
            for i in range(len(order) - 1, 0, -1):
                j = rnd(i + 1)
                order[i], order[j] = order[j], order[i]
            if todo:
                p = sorted(todo, key=repr)[rnd(len(todo))]
                v = dict(p)
            for n in order:
                if n in v:
                    continue
                cand = [o for o in dom[n] if valid(dict(v, **{n: o}))]
                if not cand:
                    v = None
                    break
                k = rnd(len(cand))
                cand = cand[k:] + cand[:k]
                v[n] = max(cand, key=lambda o: sum(1 for m, x in v.items() if ((m, x), (n, o)) in todo or ((n, o), (m, x)) in todo))
            if v is None:
                continue
            v = {n: v[n] for n in names}
            g = gain(v)
            if best is None or g > best[0]:
                best = (g, v)
        if best is None or best[0] == 0:
            p = next(iter(sorted(todo, key=repr)))
            todo.discard(p)
            continue
        v = best[1]
        try:
            build('probe', v)
        except SpecError:
            # drop the pairs this vector alone would have covered, as far as the vector is unbuildable
            v['_bad'] = v.get('_bad', 0)
            todo.discard(p)
            continue
        it = list(v.items())
        for i in range(len(it)):
            for j in range(i):
                todo.discard((it[j], it[i]))
                todo.discard((it[i], it[j]))
        out.append(v)
    return out


def build(name, v):
    rows = {'M': []}
    internals = {}
    spec = []
    cnt = dict(g=0, a=0, e=0)
    lvl = {'M': 0}

    def ev(owner, k):
        # 'shared': the same few events on all levels, 'own': a block per table
        if v['events'] == 'shared':
            return 'e%d' % k
        return 'e%d' % (k + 4 * (0 if owner == 'M' else 1))

    def g():
        cnt['g'] += 1
        if v['guards'] == 'none':
            return ''
        if v['guards'] == 'shared':
            return ' [g:s]' if cnt['g'] % 2 else ''
        return ' [g]' if cnt['g'] % 3 == 1 else ''

    def a():
        cnt['a'] += 1
        if v['actions'] == 'none':
            return ''
        if v['actions'] == 'chain':
            return ' / a%d' % (1 + cnt['a'] % 4) if cnt['a'] % 2 else ''
        if v['actions'] in ('log', 'logs'):
            return ('', ' / log', ' / alog')[cnt['a'] % 3] if v['actions'] == 'log' else (' / alog', ' / log')[cnt['a'] % 2]
        return ' / a' if v['actions'] == 'all' or cnt['a'] % 2 else ''

    def add(owner, src, e, tgt, guard=None, act=None, init=False):
        rows.setdefault(owner, []).append([('*' if init else '') + src, e, g() if guard is None else guard, a() if act is None else act, tgt])

    R, comp = v['regions'], v['comp']
    # root: region 0 over A B (C), further regions over Dn En
    add('M', 'A', ev('M', 0), 'B')
    add('M', 'B', ev('M', 1), 'A')
    if v['guards'] == 'multi':
        add('M', 'A', ev('M', 0), 'A', guard=' [g]')
        add('M', 'A', ev('M', 0), 'C', guard=' [g]')
        add('M', 'C', ev('M', 1), 'A', guard='')
    if v['selfs'] == 'root':
        add('M', 'B', ev('M', 2), 'B')
    if v['sink'] in ('root', 'both'):
        add('M', 'B', ev('M', 3), 'Z')
    tops = []
    leafs = {'P': ('X', 'Y'), 'Q': ('U', 'V'), 'S': ('K', 'L')}
    if v['share'] == 'siblings':
        leafs = {'P': ('X', 'Y'), 'Q': ('Y', 'X'), 'S': ('X', 'Y')}
    elif v['share'] == 'root':
        leafs = {'P': ('A', 'Y'), 'Q': ('B', 'A'), 'S': ('Y', 'A')}
    nest = {}
    if comp in ('one', 'second'):
        tops = ['P']
    elif comp == 'two':
        tops = ['P', 'Q']
    elif comp == 'nested':
        tops, nest = ['P'], {'Q': 'P'}
    elif comp == 'deep':
        tops, nest = ['P'], {'Q': 'P', 'S': 'Q'}

    def table(p):
        x, y = leafs[p]
        t = [(x, ev(p, 0), y), (y, ev(p, 1), x)]
        if v['selfs'] == 'sub':
            t.append((x, ev(p, 1), x))
        for s, e, d in t:
            add(p, s, e, d)
        if v['sink'] in ('sub', 'both'):
            add(p, y, ev(p, 2), 'W' + (p if v['share'] == 'own' else ''))

    home = 'A' if comp != 'second' else 'D1'
    alt = 'B' if comp != 'second' else 'E1'
    # events used only for entering and leaving
    for i, p in enumerate(tops):
        x, y = leafs[p]
        en = v['enter']
        add('M', home, 'in%d' % i, {'comp': p, 'entry': 'entry(%s,%s)' % (p, y), 'direct': 'direct(%s,%s)' % (p, y),
                                    'history': 'history(%s)' % p, 'mix': p}[en])
        if en == 'mix':
            add('M', alt, 'in%d' % i, 'history(%s)' % p)
            add('M', alt, 'jn%d' % i, 'entry(%s,%s)' % (p, y))
        if v['leave'] in ('comp', 'both'):
            add('M', p, 'out', home)
        if v['leave'] in ('exit', 'both'):
            add('M', 'exit(%s,%s)' % (p, y), 'xt', alt)
        if v['leave'] == 'direct':
            add('M', 'direct(%s,%s)' % (p, y), 'out', alt)
            add('M', 'exit(%s,%s)' % (p, x), 'xt', home)
        if v['selfs'] == 'comp':
            add('M', p, 'self', p)
        if comp == 'two':
            add('M', p, 'hop', tops[1 - i] if en != 'history' else 'history(%s)' % tops[1 - i])
    for p in tops:
        table(p)
    for p, q in nest.items():
        x, y = leafs[q]
        add(q, x, 'dn', p if v['enter'] != 'history' else 'history(%s)' % p)
        add(q, p, 'up', y)
    for p in nest:
        table(p)
    for r in range(1, R):
        add('M', 'D%d' % r, ev('M', r % 3), 'E%d' % r)
        add('M', 'E%d' % r, ev('M', (r + 1) % 3), 'D%d' % r)
    # completion rows
    an = v['anon']
    if an == 'root':
        add('M', 'B', None, 'F', guard=' [g]')
        add('M', 'F', None, 'A', guard=' [g]' if v['guards'] != 'none' else '')
        add('M', 'F', ev('M', 0), 'A')
    elif an == 'loop':
        add('M', 'B', None, 'F', guard=' [g]', act=' / a')
        add('M', 'F', None, 'B', guard=' [g]', act=' / a')
        add('M', 'F', ev('M', 0), 'A')
    elif an == 'sub':
        p = tops[-1]
        add(p, leafs[p][1], None, leafs[p][0], guard=' [g]')
    elif an == 'comp':
        add('M', tops[0], None, 'F', guard=' [g]')
        add('M', 'F', ev('M', 1), 'A')
    elif an == 'sink':
        add('M', 'B', ev('M', 2) if v['selfs'] != 'root' else 'snk', 'T')
        add('M', 'A', None, 'T', guard=' [g]')
    # states that are created by a transition
    cr = v.get('create', 'no')
    if cr in ('root', 'both'):
        spec.append('ndc N')
        add('M', 'A', 'c0', 'N', guard='', act=' / create')
        add('M', 'N', 'c1', 'B')
        add('M', 'N', 'c0', 'N', guard=' [g]' if v['guards'] != 'none' else '', act=' / create')
        add('M', 'N', 'c2', 'N', act=' / reuse')
        add('M', 'B', 'c2', 'N', act=' / reuse')
        if an in ('root', 'loop', 'sink'):
            add('M', 'N', None, 'A', guard=' [g]')
        if tops:
            add('M', 'N', 'in0', {'direct': 'direct(%s,%s)', 'entry': 'entry(%s,%s)'}.get(v['enter'], 'entry(%s,%s)') % (tops[0], leafs[tops[0]][1]))
            add('M', tops[0], 'c3', 'N', guard='', act=' / create')
        if R > 1:
            spec.append('ndc O')
            add('M', 'D1', 'c0', 'O', guard='', act=' / create')
            add('M', 'O', 'c1', 'E1')
            add('M', 'O', 'c2', 'O', act=' / create')
            add('M', 'E1', 'c3', 'O', guard='', act=' / create')
    if cr in ('comp', 'both'):
        p = tops[-1]
        x, y = leafs[p]
        spec.append('ndc I')
        add(p, x, 'c0', 'I', guard='', act=' / create')
        add(p, y, 'c2', 'I', act=' / reuse')
        add(p, 'I', 'c1', y)
        add(p, 'I', 'c0', 'I', guard='', act=' / create')
        if an == 'sub':
            add(p, 'I', None, x, guard=' [g]')
        add('M', 'exit(%s,I)' % p, 'c3', 'B', act=' / a')
    # initial markers: on the first or on the last row of the initial state
    def mark(owner, s, pos):
        own = [r for r in rows[owner] if r[0] == s and (r[1] is not None or pos == 'first')]
        if not own:
            raise SpecError('no row to mark')
        (own[0] if pos == 'first' else own[-1])[0] = '*' + s
    mark('M', 'A', v['initpos'])
    for r in range(1, R):
        mark('M', 'D%d' % r, v['initpos'])
    for p in rows:
        if p != 'M':
            mark(p, leafs[p][0], v['subinit'])
    if v['initpos'] == 'last':
        # the rows of the initial state come after those of the others
        rows['M'] = [r for r in rows['M'] if r[0] != 'B'] + [r for r in rows['M'] if r[0] == 'B'] if R > 1 else \
            [r for r in rows['M'] if r[0].lstrip('*') != 'A'] + [r for r in rows['M'] if r[0].lstrip('*') == 'A']
    if v['subinit'] == 'last':
        for p in list(rows):
            if p != 'M':
                rows[p] = [r for r in rows[p] if r[0][0] != '*'] + [r for r in rows[p] if r[0][0] == '*']
    # internal rows, deferral, callbacks
    it = v['internal']
    sub = tops[0] if tops else None
    sinks = (['Z'] if v['sink'] in ('root', 'both') else []) + (['WP' if v['share'] == 'own' else 'W'] if v['sink'] in ('sub', 'both') else [])
    if it == 'root':
        internals['M'] = ['+ i0%s / a' % (' [g]' if v['guards'] != 'none' else ''), '+ %s / a' % ev('M', 2)]
    elif it == 'comp':
        internals[sub] = ['+ i0 / a', '+ i1%s' % (' [g] / a' if v['guards'] != 'none' else ' / a')]
    elif it == 'simple':
        internals['B'] = ['+ i0 / a']
        if sub:
            internals[leafs[sub][1]] = ['+ i1 [g] / a']
    elif it == 'sink':
        internals[sinks[-1]] = ['+ i0 / a', '+ %s / a' % ev('M', 1)]
    if cr != 'no' and it in ('simple', 'sink'):
        internals['N' if cr != 'comp' else 'I'] = ['+ i1 / a']
    df = v['defer']
    if df == 'root':
        spec.append('defer B: %s' % ev('M', 0))
    elif df == 'two':
        spec.append('defer A: %s %s' % (ev('M', 1), ev('M', 2) if R > 2 or it == 'root' or v['selfs'] == 'root' else ev('M', 1)))
        if 'defer A: %s %s' % (ev('M', 1), ev('M', 1)) == spec[-1]:
            spec[-1] = 'defer A: %s' % ev('M', 1)
        spec.append('defer B: %s' % (ev('M', 0)))
    elif df == 'sub':
        spec.append('defer %s: %s' % (leafs[sub][1], ev(sub, 0)))
    elif df == 'sink':
        spec.append('defer %s: %s %s' % (sinks[-1], ev('M', 0), ev('M', 1)))
    if cr in ('root', 'both'):
        spec = [s + ' c0' if s.startswith('defer B:') else s for s in spec]
    states = sorted({r[0].lstrip('*') for p in rows for r in rows[p] if '(' not in r[0]} | {r[4] for p in rows for r in rows[p] if '(' not in r[4]})
    comps = [s for s in states if s in rows]
    if v['ee'] == 'all':
        spec += ['entry *', 'exit *']
    elif v['ee'] == 'states':
        spec += ['entry ' + ' '.join(s for s in states if s not in comps), 'exit ' + ' '.join([s for s in states if s in comps] + ['A'])]
    elif v['ee'] == 'subs':
        spec += ['entry ' + ' '.join(leafs[sub] + tuple(comps)), 'exit ' + ' '.join(leafs[sub])]
    elif v['ee'] == 'sinks':
        spec += ['entry ' + ' '.join(sinks), 'exit B']
    if v['deps']:
        spec.append('deps %d' % v['deps'])
    if v['unexp']:
        spec.append('unexp')
    order = ['M'] + [p for p in rows if p != 'M']
    for p in order:
        spec.append('table %s:' % p)
        for s, e, gg, aa, t in rows[p]:
            spec.append(' %s%s%s%s = %s' % (s, ' + ' + e if e else '', gg, aa, t))
    for o, rs in internals.items():
        spec.append('internal %s:' % o)
        spec += [' ' + r for r in rs]
    return Machine(name, '\n'.join(spec), allow_conflict=True)


_cache = {}


def machines(fix=None, limit=None, prefix='cov'):
    key = (repr(sorted((fix or {}).items())), limit)
    if key not in _cache:
        _cache[key] = vectors(fix, limit)
    return [build('%s%d' % (prefix, i), v) for i, v in enumerate(_cache[key])]


if __name__ == '__main__':
    import time
    t = time.time()
    vs = vectors()
    print(len(vs), 'vectors', time.time() - t)
    for i, v in enumerate(vs[:3]):
        m = build('x', v)
        print(v, '\n', m.text, '\n', len(m.states), len(m.events), m.nguards)
