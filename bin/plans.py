"""What each property's check runs."""
import random

import windows as windows_mod

from vlib import *

ASSUME = {'*': ['the abstraction functions of the harness (reading contents through the public interface) are faithful',
                'TLC evaluates the specification correctly']}
PLANS = {}


def plan(*props):
    def deco(f):
        for p in props:
            PLANS[p] = f
        return f
    return deco


def shards(run, mode, spec, sets, base=0):
    """Random histories: each set is (label, driver args); judged by spec."""
    b = run.build()

    def one(k, label, args):
        out = os.path.join(run.tmp, '%s-%d-%d.ndjson' % (mode, base, k))
        run.drive(b, ['-mode', mode, '-seed', str(run.seed * 1000003 + base * 1009 + k)] + args, out)
        run.judge(spec, out, label=label)
        os.unlink(out)
    pmap(one, [(k, l, a) for k, (l, a) in enumerate(sets)], n=4)


def scale(run, mode, spec, kinds, prof='mix', size=0, base=0):
    """Histories with tens of thousands of entries, one line of the trace for many calls of one kind."""
    b = run.build()

    def one(k, kind):
        out = os.path.join(run.tmp, '%s-%d-%s.ndjson' % (mode, k, kind))
        run.drive(b, ['-mode', mode, '-kinds', kind, '-prof', prof, '-traces', str((4 if prof == 'held' else 1) * (1 if run.tier == 'quick' else 2)), '-steps', str(size),
                      '-seed', str(run.seed * 1000003 + base + k)], out)
        run.judge(spec, out, label='large histories of %s (%s)' % (kind, prof), heap='5g')
        os.unlink(out)
    pmap(one, [(k, kind) for k in range(1 if run.tier == 'quick' else 4) for kind in kinds], n=3)


# ---------------------------------------------------------------- tables

TAB_OPS = {'T01': {'Claim'}, 'T02': {'Release', 'Update'}, 'T03': {'FindFree', 'ClaimDyn'}, 'T04': {'ClaimRange', 'FindFreeRange'},
           'T05': {'ClaimSize', 'FindFreeSize'}, 'T06': {'Get', 'Has', 'IsFree', 'Size', 'GetAll', 'Iterate', 'IterateFree'},
           'T07': {'Claim', 'Release', 'Update', 'Get', 'Has', 'IsFree', 'FindFree', 'ClaimDyn', 'GetAll', 'GetByLabel', 'Size'},
           'T08': {'Claim', 'Release', 'Update', 'Get', 'Has', 'IsFree', 'FindFree', 'GetAll', 'GetByLabel', 'Size'},
           'T09': {'GetByLabel'}, 'T11': {'Claim', 'Release', 'Update', 'ClaimDyn', 'ClaimRange', 'ClaimSize'}}
TAB_KINDS = {'T04': 'idx', 'T05': 'idx', 'T07': 't16,t32,t64,wide', 'T08': 'ip,wide', 'T09': 't16,t32,t64,ip'}
TAB_PROFS = {'T01': 'claim,mix', 'T02': 'relupd,mix', 'T03': 'dyn,mix', 'T04': 'range,mix', 'T05': 'size,mix', 'T06': 'reads,mix',
             'T07': 'mix,dyn,reads,relupd,labels', 'T08': 'mix,dyn,reads,relupd,labels', 'T09': 'labels', 'T10': 'held', 'T11': 'refuse,mix'}


def table_part(run, prop, factor=1.0, script_n=3):
    kinds = TAB_KINDS.get(prop, 'idx,t16,t32,t64,ip')
    quick = run.tier == 'quick'
    ops = TAB_OPS.get(prop)
    if ops:
        def script():
            ed = run.edges('MC_IdTable', 'MC_IdTable' if script_n == 3 else 'MC_IdTable4')
            walks = tours(ed, lambda e: e['op'] in ops)
            path = os.path.join(run.tmp, 'script.ndjson')
            with open(path, 'w') as f:
                for w in walks:
                    f.write(json.dumps({'op': 'new', 'n': script_n}) + '\n')
                    for e in w:
                        l = {'op': e['op'], 'id': e.get('id', 0), 'size': e.get('size', 0), 'v': e['v']['d'] if 'v' in e else '',
                             'sel': e['sel']['rs'][0]['vs'][0] if 'sel' in e else ''}
                        f.write(json.dumps(l) + '\n')
            out = os.path.join(run.tmp, 'script-out.ndjson')
            run.drive(run.build(), ['-mode', 'tabscript', '-script', path, '-kinds', kinds, '-seed', str(run.seed)], out)
            run.judge('TraceTable', out, workers=4, label='every transition of MC_IdTable (n=%d) replayed on %s' % (script_n, kinds))
    else:
        script = lambda: None
    n = 4 if quick else 16
    traces = int((110 if quick else 500) * factor)
    steps = 60 if quick else 120
    rounds = 1 if quick else 3

    def rand():
        for rd in range(rounds):
            sets = [('random histories %s/%s shard %d' % (kinds, TAB_PROFS[prop], k),
                     ['-kinds', kinds, '-prof', TAB_PROFS[prop], '-traces', str(traces), '-steps', str(steps)]) for k in range(n)]
            shards(run, 'tables', 'TraceTable', sets, base=rd)
    run.build()
    jobs = [(script,), (rand,)]
    if prop != 'T11' and script_n == 3:
        ks = [k for k in kinds.split(',') if k != 'wide']
        jobs.append((lambda: scale(run, 'scaletables', 'TraceTable', ks, TAB_PROFS[prop].split(',')[0]),))
    pmap(lambda f: f(), jobs, n=3)


# ----------------------------------------------------------------- trees

TREE_OPS = {'P01': {'Claim', 'Update', 'Release', 'Get'}, 'P02': {'GetAll', 'Iterate', 'Size'}, 'P03': {'Children', 'Parents'},
            'P04': {'ClaimFree'}, 'P05': {'ClaimRange'}, 'P06': {'ReleaseByLabel'}, 'T09': {'GetByLabel'},
            'P07': {'Claim', 'Release'}, 'T11': {'Claim', 'Update', 'Release', 'ClaimRange', 'ClaimFree'}}
TREE_PROFS = {'P01': 'map,mix', 'P02': 'enum,mix', 'P03': 'hier,mix', 'P04': 'free,fill', 'P05': 'range,mix', 'P06': 'bylab,mix',
              'P07': 'clone', 'T09': 'labels', 'T10': 'held', 'T11': 'refuse,mix,fill'}
# (configuration, spread over the real width?) per property
TREE_MODELS = {'P01': [('', True), ('Out', True)], 'P02': [('', True), ('', False)], 'P03': [('', True), ('Out', False)], 'P04': [('', False), ('Out', False)],
               'P05': [('Out', False), ('', False)], 'P06': [('ValsS', True), ('', True)], 'P07': [('', True)], 'T09': [('ValsS', True), ('', True)], 'T11': [('Out', False)]}
TREE_MODELS_T = {'P01': [('Vals', True), ('Deep', True), ('Deep', False)], 'P02': [('Deep', True)], 'P03': [('Deep', True)], 'P04': [('Deep', False)],
                 'P05': [('Deep', False)], 'P06': [('Vals', True)], 'P07': [('Deep', True)], 'T09': [('Vals', True)], 'T11': [('Deep', False)]}
SMALL = {'': (2, 2), 'Out': (3, 1), 'Vals': (2, 2), 'ValsS': (2, 1), 'Deep': (3, 2)}


def tree_script(run, cfg, prop, k, sparse):
    w, n = SMALL[cfg]
    ops = TREE_OPS[prop]
    ed = run.edges('MC_PrefixTree', 'MC_PrefixTree' + cfg)
    for x in ed:
        if x['e']['op'] == 'ClaimFree':      # the answer is up to the tree: claim and release again
            x['to'] = x['from']
    seen, uniq = set(), []
    for x in ed:
        h = json.dumps(x, sort_keys=True)
        if h not in seen:
            seen.add(h)
            uniq.append(x)
    walks = tours(uniq, lambda e: e['op'] in ops)
    path = os.path.join(run.tmp, 'tscript-%d.ndjson' % k)
    with open(path, 'w') as f:
        for w_ in walks:
            f.write(json.dumps({'op': 'new', 'w': w, 'n': n}) + '\n')
            for e in w_:
                l = {'op': e['op'], 'p': e.get('p', ''), 'v': e['v']['l'][0][1] if 'v' in e else '', 'a': e.get('a', ''), 'b': e.get('b', ''),
                     'bad': e.get('kind') == 'malformed', 'sel': e['sel']['rs'][0]['vs'][0] if 'sel' in e else '', 'undo': e['op'] == 'ClaimFree'}
                f.write(json.dumps(l) + '\n')
    def one(width):
        out = os.path.join(run.tmp, 'tscript-%d-%s-out.ndjson' % (k, width))
        args = ['-mode', 'treescript', '-script', path, '-kinds', width, '-seed', str(run.seed)]
        if sparse:
            args.append('-sparse')
        if prop == 'P07':
            args.append('-clones')
        run.drive(run.build(), args, out)
        run.judge('TraceTree', out, label='every transition of MC_PrefixTree%s replayed on tree%s%s' % (cfg, width, ' (spread)' if sparse else ''))
        os.unlink(out)
    pmap(one, [('16',), ('32',), ('64',)], n=3)


def tree_part(run, prop, factor=1.0):
    quick = run.tier == 'quick'
    jobs = []
    models = TREE_MODELS.get(prop, [])
    if not quick:
        models = models + TREE_MODELS_T.get(prop, [])
    for k, (cfg, sparse) in enumerate(models):
        jobs.append((lambda cfg=cfg, k=k, sparse=sparse: tree_script(run, cfg, prop, k, sparse),))
    if prop == 'P07':
        jobs.append((lambda: run.mc('MC_PrefixTree', 'MC_PrefixTreeClone'),))
    n = 3 if quick else 12
    traces = int((66 if quick else 400) * factor)
    steps = 50 if quick else 90

    def rand():
        for rd in range(1 if quick else 3):
            sets = [('random tree histories %s shard %d' % (TREE_PROFS[prop], k),
                     ['-kinds', '16,32,64', '-prof', TREE_PROFS[prop], '-traces', str(traces), '-steps', str(steps)]) for k in range(n)]
            shards(run, 'trees', 'TraceTree', sets, base=100 + rd)
    jobs.append((rand,))
    if prop == 'P05':
        jobs.append((lambda: shards(run, 'trees', 'TraceTree', [('every range of a window of ids, shard %d' % k,
            ['-kinds', '16,32,64', '-prof', 'window', '-traces', '12' if quick else '60', '-steps', '16' if quick else '24']) for k in range(2 if quick else 6)], base=700),))
    if prop != 'T11':
        size = 3000 if prop == 'T10' else 45000 if quick else 60000
        jobs.append((lambda: scale(run, 'scaletrees', 'TraceTree', ['16', '32', '64'], TREE_PROFS[prop].split(',')[0], size),))
    run.build()
    pmap(lambda f: f(), jobs, n=3)


@plan('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07')
def trees(run):
    tree_part(run, run.prop)


@plan('P08')
def multitree(run):
    quick = run.tier == 'quick'
    run.build()

    def script(cfg, w, k):
        ed = run.edges('MC_Patricia', 'MC_Patricia' + cfg)
        walks = tours(ed, lambda e: True)
        path = os.path.join(run.tmp, 'mscript-%d.ndjson' % k)
        with open(path, 'w') as f:
            for wk in walks:
                f.write(json.dumps({'Op': 'new', 'W': w}) + '\n')
                for e in wk:
                    f.write(json.dumps({'Op': e['op'], 'Id': e['id'], 'F': e.get('f', ''), 'D': e['v']['d']}) + '\n')

        def one(width):
            out = os.path.join(run.tmp, 'mscript-%d-%s-out.ndjson' % (k, width))
            run.drive(run.build(), ['-mode', 'multiscript', '-script', path, '-kinds', width, '-seed', str(run.seed), '-clones'], out)
            run.judge('TraceMulti', out, label='every transition of MC_Patricia%s replayed on Tree[T], %s-bit ids' % (cfg, width))
            os.unlink(out)
        pmap(one, [('16',), ('32',), ('64',)], n=3)

    def rand():
        for rd in range(1 if quick else 4):
            sets = [('random Tree[T] histories %s shard %d' % (pr, k), ['-kinds', '16,32,64', '-prof', pr, '-traces', '90' if quick else '300', '-steps', '70' if quick else '120'])
                    for k, pr in enumerate(['mix,set,wide', 'mix', 'wide'] * (1 if quick else 3))]
            shards(run, 'multi', 'TraceMulti', sets, base=200 + rd)
    jobs = [(lambda: script('', 2, 0),), (lambda: script('Lists', 1, 1),), (rand,),
            (lambda: scale(run, 'scalemulti', 'TraceMulti', ['16', '32', '64'], size=45000 if quick else 70000),)]
    if not quick:
        jobs.append((lambda: script('Lists2', 2, 2),))
        jobs.append((lambda: run.mc('MC_Patricia', 'MC_Patricia3', workers=4, heap='6g'),))
    pmap(lambda f: f(), jobs, n=3)


@plan('T09', 'T10', 'T11')
def both(run):
    pmap(lambda f: f(), [(lambda: table_part(run, run.prop, factor=0.7),), (lambda: tree_part(run, run.prop, factor=0.7),)], n=2)
    if run.tier == 'thorough' and run.prop != 'T10':
        table_part(run, run.prop, script_n=4, factor=0.2)


@plan('T01', 'T02', 'T03', 'T04', 'T05', 'T06', 'T07', 'T08')
def tables(run):
    table_part(run, run.prop)
    if run.tier == 'thorough':
        table_part(run, run.prop, script_n=4, factor=0.2)


# -------------------------------------------------------- ids, ranges, sets

@plan('I01', 'I03', 'I04')
def ids(run):
    quick = run.tier == 'quick'
    run.build()

    def part(label, args, k):
        out = os.path.join(run.tmp, 'ids-%d.ndjson' % k)
        run.drive(run.build(), ['-mode', 'ids', '-seed', str(run.seed * 7919 + k)] + args, out)
        run.judge('TraceId', out, label=label)
        os.unlink(out)
    jobs = [(lambda: run.mc('MC_Bits', 'MC_Bits4'),), (lambda: run.mc('MC_Bits'),)]
    if run.prop == 'I01':
        n = '16' if quick else '40'
        for k, w in enumerate(['16', '32', '64']):
            jobs.append((lambda w=w, k=k: part('all ranges of small windows, %s-bit' % w, ['-kinds', w, '-prof', 'small', '-traces', n], k),))
            for q in range(1 if quick else 6):
                jobs.append((lambda w=w, k=k, q=q: part('random ranges, prefixes, masks, texts, %s-bit' % w,
                                                        ['-kinds', w, '-prof', 'cover', '-traces', '700' if quick else '4000'], 10 + 10 * q + k),))
    elif run.prop == 'I04':
        for k, w in enumerate(['16', '32', '64']):
            for q in range(1 if quick else 6):
                jobs.append((lambda w=w, k=k, q=q: part('entries and id fragments, %s-bit' % w,
                                                        ['-kinds', w, '-prof', 'entries', '-traces', '1500' if quick else '8000'], 10 + 10 * q + k),))
                jobs.append((lambda w=w, k=k, q=q: part('ids left alone, %s-bit' % w,
                                                        ['-kinds', w, '-prof', 'arith,cover,relate', '-traces', '200' if quick else '1000'], 15 + 10 * q + k),))
    else:
        for k, w in enumerate(['16', '32', '64']):
            jobs.append((lambda w=w, k=k: part('boundary ids and range relations, %s-bit' % w,
                                               ['-kinds', w, '-prof', 'unary,relate', '-traces', '400' if quick else '3000'], k),))
            for q in range(1 if quick else 6):
                jobs.append((lambda w=w, k=k, q=q: part('random ids, %s-bit' % w, ['-kinds', w, '-prof', 'arith', '-traces', '500' if quick else '3000'], 10 + 10 * q + k),))
    pmap(lambda f: f(), jobs, n=4)


@plan('I02')
def idsets(run):
    quick = run.tier == 'quick'
    run.build()

    def script(cfg, cells, tag):
        ed = run.edges('MC_IdSet', cfg)
        walks = tours(ed, lambda e: True, limit=40)
        path = os.path.join(run.tmp, 'sscript%s.ndjson' % tag)
        with open(path, 'w') as f:
            for wk in walks:
                f.write(json.dumps({'Op': 'new', 'K': cells}) + '\n')
                for e in wk:
                    f.write(json.dumps({'Op': e['op'], 'X': e['x'], 'Y': e['y']}) + '\n')
                f.write(json.dumps({'Op': 'Build'}) + '\n')

        def one(width):
            out = os.path.join(run.tmp, 'sscript%s-%s-out.ndjson' % (tag, width))
            run.drive(run.build(), ['-mode', 'setscript', '-script', path, '-kinds', width, '-seed', str(run.seed)], out)
            run.judge('TraceIdSet', out, label='every transition of %s replayed, %s-bit' % (cfg, width))
            os.unlink(out)
        pmap(one, [('16',), ('32',), ('64',)], n=3)

    def lists(cfg, count):
        """Pairs of lists of ranges MC_Merge enumerates, each added and removed in a builder of its own."""
        ed = run.edges('MC_Merge', cfg)
        random.Random(run.seed * 31 + len(ed)).shuffle(ed)
        ed = ed[:count]
        path = os.path.join(run.tmp, 'lists-%s.ndjson' % cfg)
        with open(path, 'w') as f:
            for e in ed:
                f.write(json.dumps({'Op': 'lists', 'In': e['in'], 'Out': e['out'], 'N': e['n']}) + '\n')

        def one(width):
            out = os.path.join(run.tmp, 'lists-%s-%s-out.ndjson' % (cfg, width))
            run.drive(run.build(), ['-mode', 'setscript', '-script', path, '-kinds', width, '-seed', str(run.seed)], out)
            run.judge('TraceIdSet', out, label='%d lists of %s, %s-bit' % (len(ed), cfg, width))
            os.unlink(out)
        pmap(one, [('16',), ('32',), ('64',)], n=3)

    def rand():
        for rd in range(1 if quick else 4):
            sets = [('random builder histories %s' % pr, ['-kinds', '16,32,64', '-prof', pr, '-traces', '70' if quick else '250', '-steps', '40' if quick else '60'])
                    for pr in ['mix', 'mix,free', 'pairs'] * (1 if quick else 3)]
            sets.append(('builder histories of hundreds of ranges', ['-kinds', '16,32,64', '-prof', 'many', '-traces', '3' if quick else '12', '-steps', '300' if quick else '800']))
            shards(run, 'idsets', 'TraceIdSet', sets, base=300 + rd)
    jobs = [(lambda: script('MC_IdSet', 3, 'a'),), (rand,), (lambda: lists('MC_Merge', 2000),), (lambda: lists('MC_Merge5', 400 if quick else 4000),)]
    if not quick:
        jobs.append((lambda: lists('MC_Merge8', 12000),))
        jobs.append((lambda: script('MC_IdSet4', 4, 'b'),))
    pmap(lambda f: f(), jobs, n=3)


# ------------------------------------------------------------ concurrency

LIN, DEAD = 'Invariant Linearizable is violated', 'Deadlock reached'
# the designs of RWImpl: (configuration, what TLC must say; None: no error)
DESIGN = {'X01': [('one', None), ('pieces', LIN)], 'X02': [('one', None), ('window', LIN)], 'X03': [('two', None), ('window', LIN)],
          'X04': [('nested', DEAD), ('leak', DEAD), ('liveS', None)], 'X05': [('bare', 'Invariant NoRace is violated'), ('one', None)]}
DESIGN_T = {'X01': [('oneT', None), ('twoT', None), ('window', LIN)], 'X02': [('oneT', None), ('one3', None)], 'X03': [('one3', None), ('two3', None)],
            'X04': [('liveOne', None), ('liveOneT', None), ('liveTwo', None)], 'X05': [('two', None)]}


def design(run):
    ds = DESIGN[run.prop] + (DESIGN_T[run.prop] if run.tier != 'quick' else [])
    pmap(lambda cfg, exp: run.mc('RWImpl', 'RWImpl_' + cfg, workers=2, expect=exp), ds, n=2)


IDX_ONLY = {'ClaimRange', 'FindFreeRange', 'ClaimSize', 'FindFreeSize', 'Iterate', 'IterateFree'}
WINDOWS = {'X01': ['tab3'], 'X02': ['cover', 'chain', 'range'], 'X03': ['tab2'], 'X04': []}


def windows_same(run, cfg):
    """The committed scenarios are the ones TLC finds."""
    if windows_mod.generate(cfg, workers=4) != open(windows_mod.path(cfg)).read():
        raise CheckError('spec/windows-%s.ndjson is not what Windows_%s gives' % (cfg, cfg))
    run.log('scenarios of Windows_%s generated again' % cfg)


def windows(run, cfgs, want, count, salt):
    """Scenarios of Windows.tla, some of each kind: which call of the first thread, which of the second."""
    r = random.Random(run.seed * 7907 + salt)
    kinds = {}
    for cfg in cfgs:
        for l in open(os.path.join(SPEC, 'windows-%s.ndjson' % cfg)):
            w = json.loads(l)
            if want(w['x']['op'], {c['op'] for c in [w['x']] + w['o']}):
                kinds.setdefault((cfg, w['x']['op'], tuple(c['op'] for c in w['o'])), []).append(l)
    picked, ks = [], sorted(kinds)
    for k in ks:
        r.shuffle(kinds[k])
    while len(picked) < count and ks:
        r.shuffle(ks)
        picked += [kinds[k].pop() for k in ks]
        ks = [k for k in ks if kinds[k]]
    picked = picked[:count]
    r.shuffle(picked)
    path = os.path.join(run.tmp, 'windows-%d.ndjson' % salt)
    with open(path, 'w') as f:
        f.writelines(picked)
    return path


@plan('X01', 'X02', 'X03', 'X04')
def concurrent(run):
    quick = run.tier == 'quick'
    _, coop = run.instrumented()
    jobs = []
    prof = 'dyn' if run.prop == 'X03' else 'all'
    kinds = {'X01': ['idx', 't16', 't32', 't64', 'ip'], 'X02': [], 'X03': ['idx', 't16', 't32', 't64'], 'X04': ['idx', 't16', 't32', 't64', 'ip']}[run.prop]
    widths = [] if run.prop == 'X01' else ['16', '32', '64']
    rounds = 1 if quick else 8
    n = {'X01': 480, 'X02': 420, 'X03': 200, 'X04': 220}[run.prop] if quick else 600
    for rd in range(rounds):
        args = ['-prof', prof, '-traces', str(n), '-budget', '60' if quick else '300', '-random', ('10' if quick else '40') if coop else '60']
        for k in widths:
            jobs.append(('conctrees', k, args, 'LinTree', 'tree%s' % k, run.seed * 1009 + rd * 101 + int(k)))
        for j, k in enumerate(kinds):
            jobs.append(('conctables', k, args, 'LinTable', k, run.seed * 1009 + rd * 101 + j))
    if run.prop != 'X04':
        def want(kind):
            lacks = {'idx': {'GetByLabel'}, 'ip': IDX_ONLY | {'ClaimDyn'}}.get(kind, IDX_ONLY)
            return lambda x, ops: (run.prop != 'X03' or x in ('ClaimDyn', 'ClaimSize', 'ClaimFree')) and not ops & lacks
        args = ['-budget', '60' if quick else '300', '-random', ('4' if quick else '20') if coop else '40', '-script']
        for j, k in enumerate(widths):
            path = windows(run, ['cover', 'chain', 'range'], lambda x, ops: run.prop != 'X03' or x == 'ClaimFree', (200 if run.prop == 'X03' else 500) if quick else 4000, j)
            jobs.append(('wintrees', k, args + [path], 'LinTree', 'tree%s, scenarios of Windows' % k, run.seed * 1009 + j))
        for j, k in enumerate(kinds):
            path = windows(run, ['tab2', 'tab3'], want(k), 400 if quick else 4000, 10 + j)
            jobs.append(('wintables', k, args + [path], 'LinTable', k + ', scenarios of Windows', run.seed * 1009 + 10 + j))
    one = lambda mode, k, a, mod, what, seed: run.concurrent(['-mode', mode, '-kinds', k] + a, mod, 'schedules of %s (%s)' % (what, prof), seed)
    pmap(lambda f: f(), [(lambda: design(run),), (lambda: pmap(one, jobs, n=8),)]
         + [(lambda c=c: windows_same(run, c),) for c in ([] if quick else WINDOWS[run.prop])], n=3)


@plan('X05')
def races(run):
    quick = run.tier == 'quick'
    binary, sites = run.access_build()
    jobs = []
    for rd in range(1 if quick else 8):
        args = ['-prof', 'all', '-traces', '300' if quick else '600', '-budget', '60' if quick else '300',
                '-random', ('6' if quick else '30') if sites else '60', '-points', '30' if quick else '120']
        for k in ['16', '32', '64']:
            jobs.append(('conctrees', k, args, 'tree' + k, run.seed * 1013 + rd * 103 + int(k)))
        for j, k in enumerate(['idx', 't16', 't32', 't64', 'ip']):
            jobs.append(('conctables', k, args, k, run.seed * 1013 + rd * 103 + j))
    one = lambda mode, k, a, what, seed: run.accesses(binary, sites, ['-mode', mode, '-kinds', k] + a, 'accesses of ' + what, seed)
    pmap(lambda f: f(), [(lambda: design(run),), (lambda: pmap(one, jobs, n=8),)], n=2)
