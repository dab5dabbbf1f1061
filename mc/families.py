"""The programs that are explored: machine families per property."""
import itertools
from gen import Machine
from library import LIB, big_grid, ring
import covering


# ------------------------------------------------------------------ shape family
# Every combination (source kind) x (target kind) x guard x action, packed into a
# skeleton with two composites; each row has an event of its own.
SRC = {
    'init': '*A', 'plain': 'B', 'comp': 'P', 'exit': 'exit(P,Y)', 'direct': 'direct(P,Y)',
}
TGT = {
    'plain': 'B', 'self': None, 'comp': 'Q', 'entry': 'entry(Q,V)', 'dirt': 'direct(Q,V)', 'hist': 'history(Q)',
}
SUBTGT = {
    'plain': 'Y', 'self': 'X', 'comp': 'R', 'entry': 'entry(R,V)', 'dirt': 'direct(R,V)', 'hist': 'history(R)',
}


def shapes():
    out = []
    for (sk, s), (tk, t) in itertools.product(SRC.items(), TGT.items()):
        if tk == 'self':
            if sk in ('exit', 'direct'):
                t = 'direct(P,Y)'
            else:
                t = s.lstrip('*')
        for g, a in itertools.product((False, True), (False, True)):
            out.append((sk, tk, g, a, 'M', s, t))
    for tk, t in SUBTGT.items():
        for mark in (True, False):
            for g, a in itertools.product((False, True), (False, True)):
                out.append(('subinit' if mark else 'sub', tk, g, a, 'P', '*X' if mark else 'X', t))
    return out


def row(src, ev, g, a, tgt):
    return '%s%s%s%s = %s' % (src, ' + ' + ev if ev else '', ' [g]' if g else '', ' / a' if a else '', tgt)


def shape_machines(per=14, anon=False, extra=''):
    """The rows of shapes(), `per` at a time."""
    sh = shapes()
    # spread: the same machine gets rows of different sources and targets
    n = (len(sh) + per - 1) // per
    n += 1 - n % 2  # odd: mixes guards and actions
    out = []
    for k in range(n):
        part = sh[k::n]
        m, p, q = [], [], []
        m.append('*A + r0 = P')
        m.append('B + r0 = A')
        m.append('Q + r1 = A')
        m.append('P + r1 = B')
        p.append('*X + r2 = Y')
        p.append('Y + r2 = X')
        q.append('*U + r2 = V')
        q.append('V + r2 = U')
        useR = False
        for i, (sk, tk, g, a, own, s, t) in enumerate(part):
            line = row(s, 's%02d' % i, g, a, t)
            if own == 'M':
                m.append(line)
            else:
                p.append(line)
                if 'R' in t:
                    useR = True
        spec = ['deps %d' % (k % 3)]
        ee = ['*', 'A P U V', 'B X Q', '', 'A B P Q X Y U V'][k % 5]
        xe = ['*', 'B P Y', 'A X Q', '*', ''][k % 5]
        if k % 5 == 4:
            ee, xe = '', '*'
        spec += ['entry ' + ee if ee else '', 'exit ' + xe if xe else '']
        spec.append('table M:\n ' + '\n '.join(m))
        if useR:
            p.append('R + r1 = Y')
        spec.append('table P:\n ' + '\n '.join(p))
        if any('Q' in x for x in m):
            spec.append('table Q:\n ' + '\n '.join(q))
        if useR:
            spec.append('table R:\n *U + r2 = V\n V + r2 = U')
        out.append(Machine('shape%d' % k, '\n'.join(spec) + extra))
    return out



class Job:
    """One executable: machines, explorer arguments, compile flags."""

    def __init__(self, name, tus, instances, args, cxx=(), asan=False, foot=False):
        self.name, self.tus, self.instances, self.args, self.cxx, self.asan = name, tus, instances, args, list(cxx), asan
        self.variant = 'asan' if asan else 'foot' if foot else 'plain'

    def key(self):
        return self.name


def single(m, flags, args=(), full=False, trivial=False, cb=None, odd=False, **kw):
    return Job(m.name + ('_' + cb if cb else ''), [(m.name, m, dict(full=full, odd=odd, **(dict(cb=cb) if cb else {})))], [m.name], ['--flags', flags] + list(args), **kw)


def lib(names, flags, args=(), **kw):
    out = []
    for n in names.split():
        extra = []
        if ':' in n:
            n, e = n.split(':')
            extra = e.replace('+', ' ').split()
        out.append(single(Machine(n, LIB[n]), flags, list(args) + extra, **kw))
    return out


def picks(*prefixes):
    return ' '.join(n for n in LIB if any(n.startswith(p) for p in prefixes))


NOTFLAT = ('one', 'two', 'nested', 'deep', 'second')
HZ = ['--horizons', '1,2,3']
WALK = ['--walk', '70000', '--burst', '30000']


ALL = 'CFG,RET,EE,UNX,GRD,OBJ,ID,DATA,EVT,DEP,LIVE,LEAK,EXC,CONSTR'


def pair(m, flags, args, other, kw1=None, kw2=None):
    """Differential job: the machine built in two ways."""
    a, b = m.name + '_a', m.name + '_b'
    return Job('%s_%s' % (m.name, other), [(a, m, dict(kw1 or {})), (b, m, dict(kw2 or {}))], [a, b], ['--diff'] + list(args))


GEN = dict(header='hsm/gen/hsm.h', pre='#define hsm hsm_gen', pch=False)


# one machine per property with a history of more than 2^17 operations (counters that wrap)
LONG = {'C01': 'comp2', 'C02': 'prio2', 'C03': 'anon1', 'C04': 'flat_unex', 'C05': 'comp2', 'C06': 'comp_same', 'C07': 'pseudo1', 'C08': 'hist1',
        'C09': 'anon1', 'C10': 'reg2', 'C11': 'int_comp', 'C12': 'def1', 'C13': 'dep4', 'C14': 'objects', 'C15': 'create1', 'C17': 'chain1', 'C18': 'reg2',
        'C19': 'def1', 'C24': 'def1', 'C25': 'reg2', 'C26': 'log1', 'C20': 'mix1'}
MORE_OPS = {
    'C01': ('comp2 reg_comp hist1 anon1 def1 dep_all', 'set,dep,throw'),
    'C02': ('prio_comp prio_int reg_prio prio_same prio_deps', 'set,dep,throw'),
    'C03': ('mix1 reg_defer anon1 int_comp', 'set,throw'),
    'C04': ('flat_unex def_unex dep_all dep_regions', 'set,dep,throw'),
    'C05': ('comp2 pseudo2 anon_init reg2 dep_all', 'set,dep,throw'),
    'C06': ('comp_same comp_deep reg_comp3 comp_self', 'set,throw'),
    'C07': ('pseudo1 pseudo_nested pseudo_regions', 'set,throw'),
    'C08': ('hist2 hist_regions hist_nested hist_self dep_hist', 'set,dep,throw'),
    'C09': ('anon1 anon_loop anon_comp anon_defer anon_regions prio_anon', 'set,throw'),
    'C10': ('reg2 reg_comp reg_defer hist_regions dep_regions', 'set,dep,throw'),
    'C11': ('int_comp int_simple int_hist reg_int prio_int', 'set,throw'),
    'C12': ('def1 def_row dep_defer def_hist', 'set,dep,throw'),
    'C24': ('def2 reg2 dep_defer chain1 anon_defer', 'set,dep,throw'),
    'C25': ('def2 hist_regions anon_regions reg_comp', 'set,throw'),
    'C26': ('log1 log2 log3', 'set,throw'),
}


def jobs(prop, tier):
    th = tier == 'thorough'
    base = ['--bfs', '150000' if th else '8000', '--dfs', '400000' if th else '15000', '--time', '100' if th else '6']
    walk = ['--walk', '300000' if th else '20000', '--burst', '200000' if th else '20000']
    deep = base + walk + ['--bfs-k', '3' if th else '2']
    out = []
    cfg = dict(flags='', args=[], kw={})

    def add(names, args=(), flags=None, **kw):
        k = dict(cfg['kw'])
        k.update(kw)
        out.extend(lib(names, flags or cfg['flags'], deep + cfg['args'] + list(args), **k))

    def shapes_(sel=None, args=(), **kw):
        k = dict(cfg['kw'])
        k.update(kw)
        for i, m in enumerate(shape_machines()):
            if sel is None or i in sel or th:
                out.append(single(m, cfg['flags'], base + ['--bfs-k', '1'] + cfg['args'] + list(args), **k))

    def one(m, args=(), **kw):
        out.append(single(m, cfg['flags'], deep + cfg['args'] + list(args), **kw))

    def props(flags, args=()):
        cfg['flags'], cfg['args'] = flags, list(args)

    def cov(n, args=(), flags=None, job=None, **fix):
        # machines that cover all pairs of structural features (the first n of them in the quick tier)
        fix = {k: v if isinstance(v, tuple) else (v,) for k, v in fix.items()}
        a = ['--bfs', '60000' if th else '4000', '--dfs', '60000' if th else '4000', '--time', '60' if th else '4', '--bfs-k', '2' if th else '1']
        for i, m in enumerate(covering.machines(fix, None if th else n)):
            if job:
                out.append(job(m))
            else:
                out.append(single(m, flags or cfg['flags'], a + cfg['args'] + list(args), full='Q' in (flags or cfg['flags']).split(','), cb='lambda' if i % 2 else None, odd=i % 4 > 1))

    if prop == 'C01':
        props('CFG,CONSTR')
        shapes_()
        add('flat3 ring20 comp2 comp_same comp_deep pseudo1 hist1 reg3 anon1 mix2 reg_comp reg6')
        one(Machine('ring70', ring(70)))
        one(Machine('events40', many_events(40)))
        out.append(single(Machine('big', big_grid(10, 14)), cfg['flags'], ['--bfs', '3000', '--dfs', '0', '--bfs-k', '0', '--walk', '3000', '--time', '40']))
        cov(12)
    elif prop == 'C02':
        props('GRD,ACT,CFG')
        add('prio2 prio5 prio_shared prio_int prio_comp prio_same reg_prio prio_anon prio_pseudo prio_deps grid flat3')
        one(Machine('rows12', many_rows(12)))
        add('comp_same comp_order hist2 reg4 reg_int reg_comp3 int_comp int_simple def_guard anon_loop anon_pseudo mix2')
        shapes_({0, 2, 4, 6, 8, 10, 12})
        cov(16, guards=('some', 'multi', 'shared'))
    elif prop == 'C03':
        props('RET')
        add('flat3 flat_unex grid prio2 prio_int prio_comp comp1 comp_self pseudo1 hist1 anon1 anon_regions0 anon_defer reg2 reg3 reg4 reg6 '
            'reg_comp reg_int reg_defer int_root int_comp int_simple def1 def2 def_guard def_unex def_row def_target def_comp def_hist mix1 mix2')
        cov(14)
    elif prop == 'C04':
        props('UNX,CFG')
        add('flat3 flat_unex prio_deps reg3 def_guard def_unex dep4 dep_all dep_regions dep_defer mix1')
        for n, extra in (('comp2', ''), ('comp_same', 'deps 1\n'), ('pseudo1', 'deps 3\n'), ('hist1', ''), ('int_simple', ''), ('reg_comp', ''),
                         ('anon1', ''), ('def2', ''), ('reg_defer', ''), ('int_comp', ''), ('create1', ''), ('comp_deep', ''), ('def_ping', '')):
            one(Machine(n + '_u', 'unexp\n' + extra + LIB[n].replace('deps 1\n', '')))
        cov(14, unexp=1)
    elif prop == 'C05':
        props('EE,CONSTR')
        shapes_()
        add('flat3 comp2 comp_deep comp_self pseudo2 pseudo_exit_self anon_comp anon_init anon_initg reg2 def2 int_defer hist_anon create2 chain2 mix2', flags='EE,CONSTR')
        cov(16, ee=('all', 'states', 'subs', 'sinks'))
    elif prop == 'C06':
        props('CFG,EE,ACT')
        add('comp1 comp2 comp_deep comp_deep5 comp_same reg_same comp_self comp_order comp_internal prio_comp prio_same objects_same hist_nested pseudo_nested '
            'reg_comp reg_comp3 reg_same anon_comp anon_into anon_compsrc int_comp int_two def_comp mix1')
        for k in (2, 3):
            one(Machine('comp_many%d' % k, many_composites(4 * k)))
        shapes_({0, 3, 6, 9, 12})
        add('comp_same comp_deep comp_deep5', [], flags='CFG,Q', full=True)
        for j in out[-3:]:
            j.name += '_q'
        out.append(single(Machine('big', big_grid(10, 14)), cfg['flags'], ['--bfs', '3000', '--dfs', '0', '--bfs-k', '0', '--walk', '3000', '--time', '40']))
        cov(18, comp=NOTFLAT)
    elif prop == 'C07':
        props('CFG,EE')
        add('pseudo1 pseudo2 pseudo_nested pseudo_exit_self pseudo_regions anon_pseudo prio_pseudo hist1 hist_nested objects mix1 mix2')
        shapes_()
        cov(16, comp=NOTFLAT, enter=('entry', 'direct', 'mix'), leave=('exit', 'direct', 'both'))
    elif prop == 'C08':
        props('CFG')
        add('hist1 hist2 hist3 hist_regions hist_regions3 hist_nested hist_self hist_anon hist_defer pseudo_exit_self int_hist def_hist dep_hist objects '
            'anon_pseudo mix1 mix2')
        for k in (5, 9):
            one(Machine('hist_many%d' % k, many_history(k)))
        one(Machine('hist_wide', wide_history(9)))
        one(Machine('hist_regions4', region_history(4)))
        shapes_({1, 5, 9})
        cov(16, comp=NOTFLAT, enter=('history', 'mix'))
    elif prop == 'C09':
        props('CFG,EE', HZ)
        add('anon1 anon_loop anon_bare anon_into anon_comp anon_compsrc anon_self anon_init anon_initg anon_long anon_pseudo anon_defer anon_regions anon_regions0 '
            'prio_anon hist_anon int_anon create_anon chain3 log2 mix1')
        for m in anon_shape_machines():
            one(m)
        add('anon_loop', ['--horizons', '9,20,33,70,140,300'])
        one(Machine('anon_chain', 'table M:\n *A + e0 / a = S0\n' + ''.join(' S%d%s = S%d\n' % (i, ' / a' if i % 7 == 3 else '', i + 1) for i in range(40)) + ' S40 + e1 = A'))
        cov(16, anon=('root', 'sub', 'comp', 'loop', 'sink'))
    elif prop == 'C10':
        props('CFG,EE,ACT')
        add('reg2 reg3 reg4 reg6 reg_comp reg_comp3 reg_same reg_prio reg_int reg_defer reg_pair hist_regions hist_regions3 pseudo_regions dep_regions '
            'chain_regions create_regions anon_regions anon_regions0 mix2 log3')
        one(Machine('regions10', many_regions(10)))
        one(Machine('regions3x3', grid_regions(3, 3)))
        one(Machine('regions_hist4', region_history(4)))
        add('reg2 reg_comp3 reg4', ['--ops', 'query'], flags='CFG,Q', full=True)
        for j in out[-3:]:
            j.name += '_q'
        cov(16, regions=(2, 3))
    elif prop == 'C11':
        props('CFG,EE,OBJ,ACT')
        add('int_root int_comp int_simple int_two int_hist int_defer int_anon prio_int prio_comp prio_same comp_internal reg_int mix1 mix2 anon_self anon_init '
            'objects objects_same chain2 dep_all dep4')
        one(Machine('int_hist', LIB['int_hist']), ['--ops', 'set'])
        out[-1].name += '_s'
        for m in internal_machines():
            one(m)
        cov(16, internal=('root', 'comp', 'simple', 'sink'))
    elif prop == 'C12':
        props('CFG,ACT,EVT,RET')
        add('def1 def2 def_ping def_guard def_comp def_target def_row def_unex def_events def_hist reg_defer anon_defer int_defer hist_defer dep_defer '
            'create_defer chain3 mix1 mix2 log3', ['--queue', '4'])
        for m in defer_machines():
            one(m, ['--queue', '4'])
        one(Machine('events24', many_events(24)), ['--queue', '2'])
        add('def2 def_ping', ['--ops', 'throw'], flags='CFG,ACT,EVT,RET,EXC')
        out[-1].name += '_t'
        out[-2].name += '_t'
        for n in ('def2', 'def_comp', 'reg_defer'):
            j = lib(n, cfg['flags'], base + ['--ops', 'set'])[0]
            j.name += '_s'
            out.append(j)
        cov(16, ['--queue', '3'], defer=('root', 'sub', 'sink', 'two'))
    elif prop == 'C13':
        props('DEP,ACT,CFG,UNX', ['--ops', 'dep'])
        add('dep4 dep_all dep_regions dep_defer dep_hist prio_deps flat3 flat_unex comp1 pseudo2 int_comp reg3 def_guard chain1 chain3 objects mix1 mix2 log2 anon_initg')
        for i, n in enumerate(('anon1', 'reg_comp', 'hist_nested', 'create1', 'int_defer', 'prio_comp')):
            if n == 'create1':
                continue
            one(Machine(n + '_d', 'deps %d\n' % (1 + i % 3) + LIB[n]))
        shapes_({1, 2, 4, 5})
        cov(14, deps=(1, 2))
    elif prop == 'C14':
        props('OBJ,ID,DATA,LIVE')
        add('objects objects_same flat3 comp2 comp_deep comp_same pseudo1 pseudo2 hist2 hist_nested anon_comp reg_comp reg_same int_simple int_comp def2 '
            'reg_defer dep_all create1 create2 prio_comp mix1 mix2')
        shapes_({0, 3, 5, 7, 9, 11})
        out.append(single(Machine('objects_t', LIB['objects']), 'OBJ,ID,DATA,LIVE', base + ['--ops', 'throw,set,dep']))
        cov(14, actions=('all', 'chain'), ee=('all', 'states'))
    elif prop == 'C15':
        props('EE,OBJ,ID,DATA,LIVE,EVT,LEAK,CFG')
        add('create1 create2 create_guard create_defer create_comp create_anon create_regions', ['--rv-both'])
        for m in create_machines():
            one(m)
        for n in ('create1', 'create2', 'create_comp'):
            j = lib(n, cfg['flags'] + ',EXC', base + ['--ops', 'throw'])[0]
            j.name += '_t'
            out.append(j)
        cov(16, create=('root', 'comp', 'both'), deps=0)
    elif prop == 'C16':
        ms = [m for i, m in enumerate(shape_machines()) if th or i % 2 == 0]
        ms += [Machine(n, LIB[n]) for n in ('prio_comp', 'anon_pseudo', 'int_simple', 'reg_int', 'mix1', 'chain1', 'def_comp', 'create1', 'hist_regions', 'anon_init', 'prio_int', 'anon_bare')]
        for i, m in enumerate(ms):
            a = ['--bfs', '60000' if th else '3000', '--dfs', '60000' if th else '3000', '--bfs-k', '1', '--time', '60' if th else '6', '--rv-both']
            fr = ['prefix', 'tuple']
            for f in (fr if th or i % 3 == 0 or not m.name.startswith('shape') else [fr[i % 2]]):
                out.append(pair(m, '', a, f, dict(front='postfix'), dict(front=f)))
        fr = itertools.cycle(('prefix', 'tuple'))

        def both(m):
            f = next(fr)
            return pair(m, '', a, f, dict(front='postfix', cb='lambda'), dict(front=f, cb='lambda'))
        cov(8, job=both)
    elif prop == 'C17':
        props('ACT,OBJ,EVT,DEP,EE')
        add('chain1 chain2 chain3 chain_regions', ['--rv-both'])
        for m in chain_machines():
            one(m)
        for n in ('chain1', 'chain2', 'chain3'):
            out.append(single(Machine(n, LIB[n]), cfg['flags'], base + ['--bfs-k', '1'], cb='lambda'))
            j = lib(n, cfg['flags'] + ',EXC', base + ['--ops', 'throw'])[0]
            j.name += '_t'
            out.append(j)
    elif prop == 'C18':
        props('CFG,EE,CONSTR,RET,LIVE', ['--ops', 'setforms', '--queue', '2'])
        add('flat3 comp2 comp_same comp_deep pseudo1 hist1 hist2 hist_regions anon1 anon_regions0 reg2 reg3 reg_comp reg_comp3 reg_same int_comp '
            'def2 reg_defer def_comp reg4 mix1 mix2 hist_nested')
        one(Machine('regions_hist3s', region_history(3)))
        out.append(single(Machine('objects', LIB['objects']), cfg['flags'] + ',DATA,ID', deep + cfg['args']))
        out.append(single(Machine('dep_all', LIB['dep_all']), cfg['flags'] + ',DEP', base + ['--ops', 'setforms,dep']))
        cov(12)
    elif prop == 'C19':
        props('CFG,EE,EXC,RET,EVT,UNX', ['--ops', 'throw'])
        add('flat3 flat_unex grid prio2 prio_int comp2 comp_self pseudo1 pseudo_exit_self hist1 hist2 anon1 anon_comp anon_defer anon_regions0 reg2 reg3 reg_comp '
            'reg_defer int_root int_comp def1 def2 def_throw:--bfs-k+0+--bfs+60000+--time+20+--queue+4 def_ping def_guard def_unex dep_all create1 create2 chain1 chain2 mix1 mix2')
        shapes_({0, 4, 8})
        cov(14)
    elif prop == 'C20':
        names = ('flat3 prio_comp comp2 comp_deep pseudo1 pseudo2 hist2 hist_regions hist_nested anon_comp anon_regions0 reg3 reg_comp reg_defer int_simple '
                 'def2 def_unex dep_all create1 create2 mix1 mix2')
        props(ALL)
        for n in names.split():
            m = Machine(n, LIB[n])
            a = base[:4] + ['--time', '100' if th else '5', '--ops', 'throw,set,dep,query', '--bfs-k', '1']
            if th or n in 'flat3 comp_deep pseudo2 hist_regions reg_defer dep_all create2 mix1 mix2 def_unex'.split():
                j = single(m, ALL, a + ['--walk', '5000', '--faults'], full=True, asan=True)
                j.name += '_asan'
                out.append(j)
            j = single(m, 'LIVE,LEAK,CFG', a + walk + ['--faults'], full=True)
            out.append(j)
        cov(6, job=lambda m: single(m, ALL, a + ['--walk', '3000', '--faults'], full=True, asan=True))
        j = single(Machine('mix1', LIB['mix1']), 'LEAK,LIVE', base + ['--ops', 'life,dep'])
        j.name += '_life'
        out.append(j)
    elif prop == 'C21':
        ms = [m for i, m in enumerate(shape_machines()) if th or i in (0, 3, 6, 9)]
        ms += [Machine(n, LIB[n]) for n in ('flat3 prio_comp comp_deep pseudo_nested hist_regions anon_comp anon_regions0 reg_comp3 reg_defer int_simple '
                                            'def2 dep_all create2 chain2 log2 mix1 mix2 comp_same reg_pair def_target').split()]
        a = ['--bfs', '60000' if th else '3000', '--dfs', '60000' if th else '3000', '--bfs-k', '1', '--time', '60' if th else '6', '--rv-both',
             '--ops', 'throw,set,dep,query']
        for m in ms:
            out.append(pair(m, '', a, 'gen', {}, GEN))
        cov(8, job=lambda m: pair(m, '', a, 'gen', {}, GEN))
    elif prop == 'C22':
        F = 'CFG,RET,EE,OBJ,ID,DATA,EVT,DEP,LIVE,UNX'
        for n in ('flat3 comp1 hist2 reg_comp def2 anon_defer int_comp dep_all pseudo1 create2 mix1 mix2 reg_defer').split():
            m = Machine(n, LIB[n])
            out.append(Job(n + '_x2', [(n, m, {})], [n, n], ['--flags', F] + base + ['--bfs-k', '1', '--ops', 'nest,dep,life', '--walk', '20000']))
        cov(5, job=lambda m: Job(m.name + '_x2', [(m.name, m, {})], [m.name, m.name],
                                 ['--flags', F] + base + ['--bfs-k', '0', '--ops', 'nest,dep,life', '--walk', '10000']))
        for n in ('flat_unex', 'def1', 'hist_self', 'comp1'):
            m = Machine(n, LIB[n])
            out.append(Job(n + '_x3', [(n, m, {})], [n, n, n], ['--flags', F] + base + ['--bfs-k', '0', '--ops', 'nest,life', '--walk', '20000']))
        for n, p in (('comp1', 'P'), ('comp2', 'P'), ('hist1', 'P'), ('comp_deep', 'Q'), ('int_comp', 'P'), ('objects', 'P'), ('mix2', 'Q'), ('pseudo_nested', 'R')):
            m = Machine(n, LIB[n])
            m2 = m.second(p)
            out.append(Job(n + '_with_' + p, [(n, m, dict(also=[m2]))], [n, m2.name], ['--flags', F] + base + ['--bfs-k', '1', '--ops', 'nest,dep', '--walk', '20000']))
    elif prop == 'C24':
        props('EVT,EE', ['--rv-both'])
        add('flat3 flat_unex prio_deps comp2 pseudo1 hist2 anon1 anon_defer reg2 reg3 reg_int reg_defer int_root int_comp def1 def2 def_ping def_comp def_hist '
            'def_events dep_all chain1 mix1 mix2 objects')
        for m in defer_machines()[:2]:
            one(m)
        shapes_({2, 6, 10})
        cov(12, actions=('all', 'chain'))
    elif prop == 'C25':
        props('CFG,Q,CONSTR', ['--ops', 'set'])
        add('flat3 comp2 comp_same comp_deep comp_deep5 pseudo1 hist_nested anon1 reg2 reg4 reg6 reg_comp reg_comp3 reg_same int_two def2 mix1 mix2 objects_same', full=True)
        one(Machine('regions12', many_regions(12)), full=True)
        one(Machine('regions1_11', many_regions(11)), full=True)
        cov(10)
    elif prop == 'COV':
        props(ALL)
        for m in covering.machines():
            out.append(single(m, ALL, ['--bfs', '4000', '--dfs', '4000', '--bfs-k', '1', '--time', '6']))
    elif prop == 'C26':
        props('LOG,CFG')
        add('log1 log2 log3', trivial=False)
        for m in log_machines():
            one(m)
        cov(10, actions=('log', 'logs'))
    elif prop == 'C27':
        F = ALL
        mv = base + ['--ops', 'move,dep', '--queue', '2', '--bfs-k', '1', '--walk', '20000']
        props(F)
        for n in ('flat_unex comp2 comp_deep pseudo2 hist1 hist2 hist_regions hist_nested anon_comp anon_regions0 reg3 reg_comp reg_same reg_defer reg6 int_comp '
                  'int_defer def2 def_events def_hist def_comp def_unex dep4 dep_all dep_defer dep_hist create1 create2 chain3 objects mix1 mix2').split():
            m = Machine(n, LIB[n])
            j = single(m, F, mv + ['--time', '100' if th else '4'])
            out.append(j)
            if n in 'flat_unex hist_regions reg_defer def_events dep_all create2 mix2'.split() or th:
                j = single(m, F, mv[:-2] + ['--walk', '5000', '--time', '100' if th else '5'], asan=True)
                j.name += '_asan'
                out.append(j)
        for n in 'def2 hist1 dep_all reg_defer create1'.split():
            m = Machine(n, LIB[n])
            out.append(Job(n + '_x2', [(n, m, {})], [n, n], ['--flags', F] + base + ['--bfs-k', '0', '--queue', '2', '--ops', 'move,life,dep', '--walk', '20000'], asan=n in ('dep_all', 'def2')))
        cov(8, ['--ops', 'move', '--queue', '2'])
    elif prop == 'C28':
        F = 'CFG,RET,EE,LIVE'
        args = ['--flags', F, '--bfs', '150000' if th else '3000', '--dfs', '0', '--time', '100' if th else '6', '--bfs-k', '0',
                '--ops', 'nest,dep,life,throw,set,query', '--queue', '2', '--walk', '100000' if th else '6000']
        for n in ('flat_unex comp_deep pseudo2 hist_regions hist_nested anon_comp anon_regions0 reg_comp reg_same reg_defer int_comp int_defer def2 def_events '
                  'def_hist dep_all dep_defer create2 chain3 objects prio_comp reg6 mix1 mix2').split():
            m = Machine(n, LIB[n])
            out.append(Job(n + '_t2', [(n, m, dict(full=True))], [n, n], args, foot=True))
        for n, p in (('comp2', 'P'), ('hist1', 'P'), ('int_comp', 'P'), ('objects', 'P'), ('mix2', 'Q')):
            m = Machine(n, LIB[n])
            m2 = m.second(p)
            a = [x.replace('set,query', 'set') for x in args]
            out.append(Job(n + '_with_' + p, [(n, m, dict(also=[m2]))], [n, m2.name], a, foot=True))
        cov(8, job=lambda m: Job(m.name + '_t2', [(m.name, m, dict(cb='lambda', full=True))], [m.name, m.name], args, foot=True))
    if prop in LONG:
        m = Machine(LONG[prop], LIB[LONG[prop]])
        kw = dict(full=True) if 'Q' in cfg['flags'].split(',') else {}
        j = single(m, cfg['flags'], base[:2] + ['--bfs', '300', '--dfs', '0', '--bfs-k', '0', '--time', '60', '--walk', '150000'] + cfg['args'], **kw)
        j.name += '_long'
        out.append(j)
    for n in MORE_OPS.get(prop, ('', ''))[0].split():
        # the same property when the state was reached by set(), after an exception or with exchanged dependencies
        m = Machine(n, LIB[n])
        kw = dict(full=True) if 'Q' in cfg['flags'].split(',') else {}
        j = single(m, cfg['flags'], base + ['--bfs-k', '1'] + cfg['args'] + ['--ops', MORE_OPS[prop][1], '--queue', '2'], **kw)
        j.name += '_o'
        out.append(j)
    if th and prop not in ('COV', 'C15', 'C16', 'C17', 'C20', 'C21', 'C22', 'C26', 'C27', 'C28'):
        have = {j.name for j in out}
        for n in LIB:
            if n not in have and not n.startswith('log'):
                full = 'Q' in cfg['flags'].split(',')
                a = deep + cfg['args']
                out.extend(lib(n, cfg['flags'], a, full=full))
    names = {}
    for j in out:
        names[j.name] = names.get(j.name, 0) + 1
        if names[j.name] > 1:
            j.name += '_%d' % names[j.name]
    return out


# ------------------------------------------------------------------ generated tables
def many_composites(n):
    """n sibling composites sharing leaf types, entered and left in every order."""
    o = ['entry *\nexit *\ntable M:\n *A + e0 = P0\n A + e1 = P%d' % (n - 1)]
    for i in range(n):
        o.append(' P%d + e0 = %s' % (i, 'P%d' % (i + 1) if i + 1 < n else 'A'))
        if i % 2:
            o.append(' P%d + e1 / a = A' % i)
    for i in range(n):
        x, y = ('X', 'Y') if i % 2 else ('Y', 'Z')
        o.append('table P%d:\n *%s + e2 = %s\n %s + e3 = %s' % (i, x, y, y, x))
    return '\n'.join(o)


def many_rows(n):
    """n guarded rows of one state for one event, and of one composite."""
    o = ['table M:\n *A + e0 = P']
    for i in range(n):
        o.append(' A + e1%s%s = %s' % ('' if i == 0 else ' [g]', ' / a' if i % 3 else '', ('A', 'B', 'C')[i % 3]))
    for i in range(n // 2):
        o.append(' P + e1 [g]%s = %s' % (' / a' if i % 2 else '', ('A', 'B', 'P')[i % 3]))
    o.append(' B + e0 = A\n C + e0 = A\n P + e2 = C\ntable P:\n *X + e0 = Y\n Y + e0 = X')
    return '\n'.join(o)


def many_events(n, k=5):
    """n events over a ring of k states, a few of them deferred."""
    o = ['defer S1: ' + ' '.join('e%d' % e for e in range(2, n, 7)) + '\ndefer S3: e%d' % (n - 1), 'table M:']
    for e in range(n):
        s = (e * 3) % k
        o.append(' %sS%d + e%d%s = S%d' % ('*' if e == 0 else '', s, e, ' / a' if e % 2 else '', (s + 1 + e % (k - 1)) % k))
    return '\n'.join(o)


def many_history(n):
    o = ['table M:\n *A + e0 = history(P0)']
    for i in range(n):
        o.append(' P%d + e0 = %s' % (i, 'history(P%d)' % (i + 1) if i + 1 < n else 'A'))
        if i:
            o.append(' P%d + e1 = A' % i)
    for i in range(n):
        x, y = ('X', 'Y') if i % 2 else ('Y', 'Z')
        o.append('table P%d:\n *%s + e2 = %s\n %s + e2 = %s' % (i, x, y, y, x))
    return '\n'.join(o)


def wide_history(n):
    """One composite with n sub states, in two regions."""
    o = ['table M:\n *A + e0 = history(P)\n P + e1 [g] = A\n *B + e0 [g] = history(P)\n P + e3 [g] = B\ntable P:\n *X0 + e2 = X1']
    for i in range(1, n):
        o.append(' X%d + e2 = X%d' % (i, (i + 1) % n))
    return '\n'.join(o)


def region_history(n):
    o = ['table M:']
    for i in range(n):
        o.append(' *A%d + e%d = history(P%d)\n P%d + e%d %s= A%d' % (i, i % 2, i % 3, i % 3, 2 + i, '[g] ' if i % 2 else '', i))
    for k in range(min(3, n)):
        o.append('table P%d:\n *X + e0 [g] = Y\n Y + e1 [g] = X' % k)
    return '\n'.join(o)


def many_regions(n):
    o = ['table M:']
    for i in range(n):
        o.append(' *R%d + e%d %s= S%d\n S%d + e%d = R%d' % (i, i % 3, '/ a ' if i % 2 else '', i, i, (i + 1 + i // 3) % 3, i))
    return '\n'.join(o)


def grid_regions(r, k):
    o = ['table M:']
    for i in range(r):
        for j in range(k):
            o.append(' %sR%dS%d + e%d %s/ a = R%dS%d' % ('*' if j == 0 else '', i, j, (i + j) % 3, '[g] ' if (i + j) % 2 else '', i, (j + 1) % k))
    return '\n'.join(o)


def anon_shape_machines():
    """Completion rows of every (source kind) x (target kind) x guard x action."""
    combos = []
    for sk, s in (('plain', 'B'), ('init', '*B'), ('comp', 'P'), ('exit', 'exit(P,Y)'), ('direct', 'direct(P,Y)'), ('sub', 'Y')):
        for tk, t in (('plain', 'C'), ('comp', 'Q'), ('entry', 'entry(Q,V)'), ('dirt', 'direct(Q,V)'), ('hist', 'history(Q)')):
            for g in (False, True):
                for a in (False, True):
                    combos.append((sk, s, tk, t, g, a))
    out = []
    n = 0
    # one completion row per source kind and machine; 8 machines, targets rotate
    for k in range(10):
        m = ['*A + e0 = B', 'A + e1 = P', 'A + e2 = entry(P,Y)', 'B + e2 = A', 'C + e0 = A', 'Q + e3 = A', 'P + e3 = A', 'C + e1 = history(Q)']
        p = ['*X + e0 = Y', 'Y + e1 = X']
        q = ['*U + e0 = V', 'V + e1 = U']
        skinds = [('plain', 'B'), ('exit', 'exit(P,Y)')] if k % 2 == 0 else [('plain', 'B'), ('comp', 'P')]
        if k % 5 == 3:
            skinds = [('direct', 'direct(P,Y)'), ('plain', 'B')]
        tk = [('plain', 'C'), ('comp', 'Q'), ('entry', 'entry(Q,V)'), ('dirt', 'direct(Q,V)'), ('hist', 'history(Q)')]
        for i, (sk, s) in enumerate(skinds):
            t = tk[(k + 2 * i) % 5][1]
            m.append(row(s, None, (k // 2 + i) % 2 == 0, (k // 4 + i) % 2 == 0, t))
        if k % 3 == 2 and ('comp', 'P') not in skinds:
            p.append(row('X', None, True, k % 2 == 0, 'Y'))
        out.append(Machine('anonshape%d' % k, 'entry *\nexit *\ntable M:\n %s\ntable P:\n %s\ntable Q:\n %s' % ('\n '.join(m), '\n '.join(p), '\n '.join(q))))
        n += 1
    return out


def internal_machines():
    out = []
    # the owner is the root, a composite, a nested composite, a simple root state, a simple sub state
    for k, (g, a, other) in enumerate(itertools.product((0, 1), (0, 1), (0, 1))):
        r = '%s%s' % (' [g]' if g else '', ' / a' if a else '')
        t = """entry *
exit *
%s
table M:
 *A + e0 = P
 A + e1 = B
 B + e0 %s= A
 P + e1 = A
 A + e9 / a = A
internal M:
 + e2%s
table P:
 *X + e0 = Y
 Y + e0 = R
 R + e4 = X
 %s
internal P:
 + e3%s
 + e5%s
table R:
 *U + e0 = V
 V + e0 = U
internal R:
 + e6%s
internal B:
 + e7%s
internal V:
 + e8%s
""" % ('deps 1' if other else '', '/ a ' if a else '', r, 'Y + e5 [g] / a = X' if other else 'X + e5 / a = Y', r, r, r, r, r)
        out.append(Machine('internal%d' % k, t))
    return out


def defer_machines():
    out = []
    out.append(Machine('defchain', """entry *
defer S0: e1 e2 e3
defer S1: e2 e3
defer S2: e3
defer S3: e1 e2
table M:
 *S0 + e0 = S1
 S1 + e1 / a = S2
 S1 + e0 = S2
 S2 + e2 / a = S3
 S2 + e1 / a = S2
 S2 + e0 = S3
 S3 + e3 / a = S0
 S3 + e0 = S4
 S4 + e1 / a = S4
 S4 + e2 / a = S4
 S4 + e3 / a = S4
 S4 + e0 = S0
"""))
    out.append(Machine('defdrop', """defer A: e1 e2 e3
defer B: e2
table M:
 *A + e0 / a = B
 B + e0 / a = C
 B + e3 [g] / a = B
 C + e2 / a = D
 D + e2 / a = C
 C + e0 = A
 D + e0 = A
 D + e1 / a = A
"""))
    out.append(Machine('defregs', """defer A: e1
defer B: e2
defer C2: e1 e2
table M:
 *A + e0 / a = A2
 A2 + e1 / a = A2
 A2 + e3 = A
 *B + e0 [g] / a = B2
 B2 + e2 / a = B
 *C + e3 [g] / a = C2
 C2 + e0 / a = C
"""))
    out.append(Machine('defsub', """exit *
defer X: e1 e2
defer U: e2
table M:
 *A + e0 = P
 P + e3 / a = A
 A + e1 / a = Q
 A + e2 / a = A
 Q + e3 / a = A
table P:
 *X + e0 / a = Y
 Y + e1 / a = X
 Y + e2 / a = Y
table Q:
 *U + e0 / a = Z
 Z + e2 / a = U
"""))
    out.append(Machine('defanon', """entry *
defer A: e1 e2
defer C: e2
table M:
 *A + e0 / a = B
 B [g] / a = C
 B + e1 / a = B
 C + e1 / a = D
 D / a = B
 B + e2 / a = A
"""))
    out.append(Machine('defint', """defer A: e1 e2
defer B: e2
table M:
 *A + e0 / a = B
 B + e0 / a = C
 C + e0 / a = A
internal M:
 + e1 / a
 + e2 / a
internal C:
 + e3 [g] / a
"""))
    return out


def create_machines():
    out = []
    for k in range(4):
        out.append(Machine('creates%d' % k, """entry %s
exit %s
ndc N
table M:
 *A + e0 %s/ create = N
 %s
 N + e1 / a = A
 N + e2 / reuse = N
 N + e3 / create = N
 N + e4 / a = P
 P + e1 / a = A
 A + e5 = B
 B + e0 / reuse = N
 B + e1 = A
table P:
 *X + e2 / a = Y
 Y + e2 = X
internal N:
 + e6 / a
""" % ('* ' if k % 2 else 'N', '*' if k < 2 else 'N A', '', 'A + e7 / create = N' if k % 2 else 'B + e7 / create = N')))
    return out


def chain_machines():
    out = []
    for k, kinds in enumerate((('a1', 'a2', 'a3', 'a4'), ('a5', 'a6', 'a7', 'a8'), ('n3', 'n4', 'n5', 'n6'), ('a9', 'n7', 'n8', 'a2'))):
        x = kinds
        for d in (0, 2):
            out.append(Machine('chains%d_%d' % (k, d), """deps %d
entry *
exit *
defer A: e6
table M:
 *A + e0 / %s = B
 B + e0 [g] / %s = P
 P + e1 / %s = A
 A + e1 / %s = A
 B + e6 / %s = A
 B + e2 = C
 C / %s = A
table P:
 *X + e2 / %s = Y
 Y + e2 / %s = X
internal P:
 + e3 [g] / %s
internal M:
 + e4 / %s
""" % (d, x[0], x[1], x[2], x[3], x[1], x[2], x[3], x[0], x[1], x[2])))
    return out


def log_machines():
    out = []
    for k in range(6):
        out.append(Machine('logs%d' % k, """deps %d
%s
%s
table M:
 *A + e0 %s/ %s = B
 B + e0 / %s = P
 P + e1 [g] / %s = A
 exit(P,X) + e3 / %s = B
 B + e1 / %s = B
 B + e3 / a = A
 A + e4 / %s = history(P)
 A + e5 / %s = entry(P,Y)
 B + e5 = C
 C %s/ %s = A
table P:
 *X + e2 / %s = Y
 Y + e2 [g] / a = X
internal P:
 + e6 / %s
""" % ((k % 3,) + (('entry *', 'exit *') if k % 2 else ('', '')) + ('[g] ' if k % 3 == 0 else '',) + tuple(('log', 'alog')[(i + k) % 2] for i in range(7))
       + ('' if k == 0 else '', 'log' if k % 2 else 'alog') + tuple(('log', 'alog')[(i + k // 2) % 2] for i in range(2)))))
    return out


if __name__ == '__main__':
    import sys
    for pr in ['C%02d' % i for i in range(1, 28)]:
        print(pr, len(jobs(pr, 'quick')), len(jobs(pr, 'thorough')))
