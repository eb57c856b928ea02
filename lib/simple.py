"""C24 and C25: sequential specifications replayed on the code."""
import json, os, random
from core import tours
import tracker


def run(c, mode, mc, trace, models, edge_cfgs, quick, thorough, budget, consts='', more=()):
    """models: (name, cfg); edge_cfgs: (tag, program header, cfg); quick/thorough: (shards, traces, steps)."""
    exe = c.build()
    jobs = [lambda n=n, k=k: c.model(mc, k, n) for n, k in models]

    def programs(tag, head, cfg):
        g, root = c.edges(mc, cfg, '%s transitions %s' % (mc, tag), workers=1)
        progs, done, total = tours(g, root, random.Random(c.seed), budget)
        c.notes['model_transitions_' + tag] = total
        c.notes['model_transitions_replayed_' + tag] = done

        def part(i):
            if not progs[i::2]:
                return
            pf, tf = c.path('%s%d.prog' % (tag, i)), c.path('%s%d.ndjson' % (tag, i))
            with open(pf, 'w') as f:
                for p in progs[i::2]:
                    f.write(json.dumps(dict(head, Ops=[dict(Op=o, A=list(a)) for o, a in p])) + '\n')
            c.drive(exe, mode, tf, ['-prog', pf, '-seed', c.seed])
            c.validate(trace, c.pid, tf, 'programs from the model (%s)' % tag, consts=consts)
            os.remove(tf)
        c.parallel([lambda: part(0), lambda: part(1)])
    jobs += [lambda e=e: programs(*e) for e in edge_cfgs]

    shards, n, steps = quick if c.quick else thorough

    def rand(i):
        tf = c.path('rand%d.ndjson' % i)
        args = ['-n', n, '-steps', steps, '-seed', c.seed * 1000 + i]
        c.drive(exe, mode, tf, args)
        c.validate(trace, c.pid, tf, 'random programs', replay=args, consts=consts)
        os.remove(tf)
    jobs += [lambda i=i: rand(i) for i in range(shards)]
    c.parallel(jobs + [lambda m=m: m(c, exe) for m in more])


def props(c):
    q = c.quick

    def cfg(nk, nv, types, edges=False):
        return '\n'.join(['SPECIFICATION Spec', 'VIEW view', 'INVARIANTS OneType',
                          'ACTION_CONSTRAINT Edges' if edges else 'PROPERTIES SetGet Gone Local Taken Pure',
                          'CONSTANTS NK = %d NV = %d TypeSet = {%s} PrintEdges = %s' % (nk, nv, types, 'TRUE' if edges else 'FALSE'),
                          'CHECK_DEADLOCK FALSE']) + '\n'
    run(c, 'props', 'PropsMC', 'PropsTrace',
        [('PropsMC 2 keys', cfg(2, 2, '1, 2, 4') if q else cfg(2, 2, '1, 2, 3, 4, 7')), ('PropsMC 1 key, all types', cfg(1, 2, '1, 2, 3, 4, 5, 6, 7'))],
        [('one_key', dict(N=1), cfg(1, 2, '1, 2, 3, 4, 5, 6, 7', True)), ('two_keys', dict(N=2), cfg(2, 1, '1, 4, 7', True))],
        (3, 250, 80), (12, 800, 120), 40000 if q else 200000)


def routes(c):
    q = c.quick

    def cfg(nx, twins, maxlen, styles, edges=False):
        b = lambda x: 'TRUE' if x else 'FALSE'
        return '\n'.join(['SPECIFICATION Spec', 'VIEW view', 'CONSTRAINT Bound', 'INVARIANTS Known Agree',
                          'ACTION_CONSTRAINT Edges' if edges else 'PROPERTIES Sums Versions Views',
                          'CONSTANTS NX = %d Twins = %s MaxLen = %d Styles = %s PrintEdges = %s' % (nx, b(twins), maxlen, b(styles), b(edges)),
                          'CHECK_DEADLOCK FALSE']) + '\n'
    run(c, 'routes', 'RoutesMC', 'RoutesTrace',
        [('RoutesMC 3 tracks', cfg(3, True, 4 if q else 6, False)), ('RoutesMC names and colours', cfg(1 if q else 2, False, 1 if q else 2, True))],
        [('sets', dict(N=3, X=1), cfg(3, True, 3, False, True)), ('styles', dict(N=1, X=0), cfg(1, False, 2, True, True))],
        (3, 200, 80), (12, 600, 120), 30000 if q else 120000)


def settings(c):
    """C18."""
    import re
    from core import Broken, known
    q = c.quick
    exe = c.build()
    # recorded findings are named in square brackets in the known-findings file
    names = sorted(set(re.findall(r'\[(\w+)\]', ' '.join(known('C18')))))
    consts = 'CONSTANT Findings = {%s}' % ', '.join('"%s"' % n for n in names)

    def cases():
        cfg = '\n'.join(['SPECIFICATION Spec', 'INVARIANTS Within Stable Kept Listed',
                         'CONSTANTS Wide = %s PrintCases = TRUE' % ('FALSE' if q else 'TRUE'), 'CHECK_DEADLOCK FALSE']) + '\n'
        out = c.model('SettingsMC', cfg, 'SettingsMC: every combination of boundary values', workers=1)
        cs = [(m.group(1), [int(x) for x in m.group(2).split(',')])
              for m in re.finditer(r'^<<"CASE", "(\w+)", <<([-\d, ]+)>>>>$', out, re.M)]
        if len(cs) < 100:
            raise Broken('no cases')
        c.notes['combinations'] = len(cs)
        random.Random(c.seed).shuffle(cs)

        def part(i):
            pf, tf = c.path('case%d.prog' % i), c.path('case%d.ndjson' % i)
            mine = cs[i::3]
            with open(pf, 'w') as f:
                for k in range(0, len(mine), 60):
                    f.write(json.dumps(dict(Ops=[dict(Op=n, A=a) for n, a in mine[k:k + 60]])) + '\n')
            c.drive(exe, 'settings', tf, ['-prog', pf, '-seed', c.seed])
            c.validate('SettingsTrace', c.pid, tf, 'combinations of boundary values', consts=consts)
        c.parallel([lambda i=i: part(i) for i in range(3)])

    def gens():
        tf = c.path('gens.ndjson')
        c.drive(exe, 'settings', tf, ['-prof', 'gen'])
        c.validate('SettingsTrace', c.pid, tf, 'generator options', consts=consts)

    def rand(i):
        tf = c.path('rand%d.ndjson' % i)
        args = ['-n', 150 if q else 800, '-steps', 40, '-seed', c.seed * 1000 + i]
        c.drive(exe, 'settings', tf, args)
        c.validate('SettingsTrace', c.pid, tf, 'histories of trackers', consts=consts, replay=args)
        os.remove(tf)
    c.parallel([cases, gens] + [lambda i=i: rand(i) for i in range(3 if q else 10)])


def values(c):
    """C08."""
    q = c.quick

    def cfg(np, ng, top, edges=False):
        return '\n'.join(['SPECIFICATION Spec', 'VIEW look' if edges else 'VIEW view', 'INVARIANTS InRange' + ('' if edges else ' Modes'),
                          'ACTION_CONSTRAINT Edges' if edges else 'PROPERTIES Fixed Apart',
                          'CONSTANTS NP = %d NG = %d Top = %d Tol = 0 PrintEdges = %s' % (np, ng, top, 'TRUE' if edges else 'FALSE'),
                          'CHECK_DEADLOCK FALSE']) + '\n'
    run(c, 'values', 'ValuesMC', 'ValuesTrace',
        [('ValuesMC', cfg(3, 2, 2)), ('ValuesMC 3 copies', cfg(2, 3, 2))] + ([] if q else [('ValuesMC 3 values', cfg(3, 3, 1))]),
        [('uses', {}, cfg(3, 2, 1, True)), ('ends', {}, cfg(2, 3, 1, True))],
        (3, 250, 80), (12, 800, 120), 20000 if q else 80000, consts='CONSTANTS Top = 1000000 Tol = 1',
        more=[lambda c, exe: tracker.randoms(c, exe, 'C08', (2, 80, 60) if q else (8, 250, 90)),
              lambda c, exe: spread(c, exe, 'spread', 3 if q else 20)])


def spread(c, exe, what, n):
    """How values drawn at random are spread over their range (C08, C03)."""
    tf = c.path('spread.ndjson')
    args = ['-prof', what, '-n', n, '-seed', c.seed]
    c.drive(exe, 'values', tf, args)
    c.validate('ValuesTrace', c.pid, tf, 'values drawn', consts='CONSTANTS Top = 1000000 Tol = 1', replay=args)


def randoms(c):
    """C20."""
    import re
    from core import Broken
    q = c.quick
    exe = c.build()

    def cases():
        cfg = 'SPECIFICATION Spec\nINVARIANTS Clamped Order Listed\nCHECK_DEADLOCK FALSE\n'
        out = c.model('RandomsMC', cfg, 'RandomsMC: every combination of boundary values', workers=1)
        cs = [(m.group(1), [int(x) for x in m.group(2).split(',')])
              for m in re.finditer(r'^<<"CASE", "(\w+)", <<([-\d, ]+)>>>>$', out, re.M)]
        if len(cs) < 100:
            raise Broken('no cases')
        c.notes['combinations'] = len(cs)
        rng = random.Random(c.seed)
        cs = cs * (1 if q else 6)
        rng.shuffle(cs)

        def part(i):
            pf, tf = c.path('case%d.prog' % i), c.path('case%d.ndjson' % i)
            mine = cs[i::3]
            with open(pf, 'w') as f:
                for k in range(0, len(mine), 40):
                    f.write(json.dumps(dict(Ops=[dict(Op=n, A=a) for n, a in mine[k:k + 40]])) + '\n')
            c.drive(exe, 'randoms', tf, ['-prog', pf, '-seed', c.seed])
            c.validate('RandomsTrace', c.pid, tf, 'combinations of boundary values')
        c.parallel([lambda i=i: part(i) for i in range(3)])

    def rand(i):
        tf = c.path('rand%d.ndjson' % i)
        args = ['-n', 20 if q else 60, '-steps', 60 if q else 200, '-seed', c.seed * 1000 + i]
        c.drive(exe, 'randoms', tf, args)
        c.validate('RandomsTrace', c.pid, tf, 'countries, sizes, cities, concurrent use', replay=args)
        os.remove(tf)
    c.parallel([cases] + [lambda i=i: rand(i) for i in range(2 if q else 10)])


def codec(c):
    """C12."""
    import re
    from core import known
    q = c.quick
    names = sorted(set(re.findall(r'\[(\w+)\]', ' '.join(known('C12')))))
    consts = 'CONSTANT Findings = {%s}' % ', '.join('"%s"' % n for n in names)

    def cfg(r, t, n, shapes, vals, nm, col, edges=False, keys='1'):
        return '\n'.join(['SPECIFICATION Spec', 'VIEW view', 'INVARIANTS Again Commute Kept Fresh',
                          'ACTION_CONSTRAINT Edges' if edges else 'PROPERTIES Empties Encoded',
                          'CONSTANTS Keys = {%s} MaxR = %d MaxT = %d MaxN = %d Shapes = {%s} Vals = {%s} Names = {%s} Cols = {%s} PrintEdges = %s'
                          % (keys, r, t, n, shapes, vals, nm, col, 'TRUE' if edges else 'FALSE'),
                          'CHECK_DEADLOCK FALSE']) + '\n'
    run(c, 'codec', 'CodecMC', 'CodecTrace',
        [('CodecMC sets', cfg(2, 2, 9, '1, 3', '', '', '') if q else cfg(3, 2, 12, '1, 3', '', '', '')),
         ('CodecMC styles', cfg(1, 1, 3, '2', '1, 11, 21', '4', '1', keys='1, 2') if q else cfg(1, 2, 4, '2', '11, 21', '4', '1'))],
        [('sets', {}, cfg(2, 2, 8, '1, 3', '', '', '', True) if q else cfg(3, 2, 9, '1, 3', '', '', '', True)),
         ('styles', {}, cfg(1, 1, 3, '5', '1, 17, 28', '2, 6', '2', True)),
         ('values', {}, cfg(1, 1, 3, '5', '1, 2, 3, 5, 11, 12, 13, 15, 21, 23, 25, 27', '', '', True))],
        (3, 250, 60), (10, 1500, 80), 40000 if q else 100000, consts=consts)


def imports(c):
    """C23."""
    import re
    from core import Broken
    q = c.quick
    exe = c.build()
    cfg = '\n'.join(['SPECIFICATION Spec', 'INVARIANTS Agrees Rules Printed', 'PROPERTY Ends',
                     'CONSTANT Wide = %s' % ('FALSE' if q else 'TRUE'), 'CHECK_DEADLOCK FALSE']) + '\n'
    out = c.model('ImportMC', cfg, 'ImportMC: every document of the grammar', workers=1)
    docs = sorted((m.group(1), json.loads(m.group(2))) for m in re.finditer(r'^<<"DOC", "(\w+)", (".*")>>$', out, re.M))
    if len(docs) < 1000:
        raise Broken('no documents')
    c.notes['documents'] = len(docs)

    def part(i):
        pf, tf = c.path('docs%d' % i), c.path('docs%d.ndjson' % i)
        with open(pf, 'w') as f:
            for kind, d in docs[i::4]:
                f.write('["%s",%s]\n' % (kind, d))
        args = ['-in', pf, '-n', 4 if q else 40, '-seed', c.seed * 100 + i]
        c.drive(exe, 'imports', tf, args)
        c.validate('ImportTrace', c.pid, tf, 'documents of the grammar, written in different ways')
        os.remove(tf)
    c.parallel([lambda i=i: part(i) for i in range(4)])


def decoders(c):
    """C13."""
    import re
    from core import Broken
    q = c.quick
    exe = c.build()

    def struct():
        cfg = '\n'.join(['SPECIFICATION Spec', 'INVARIANTS Untouched Clean Strict Useful Listed',
                         'CONSTANT Width = %d' % (2 if q else 3), 'CHECK_DEADLOCK FALSE']) + '\n'
        out = c.model('DecodersMC', cfg, 'DecodersMC: every damage of one part of a document', workers=1)
        cs = re.findall(r'^"CASE (\w+ \S+ \w+)"$', out, re.M)
        if len(cs) < 1000:
            raise Broken('no cases')
        c.notes['damages_of_one_part'] = len(cs)
        random.Random(c.seed).shuffle(cs)
        n = 3 if q else 8

        def part(i):
            # each part has all the single cases of its share, and pairs and triples of these
            pf, tf = c.path('part%d' % i), c.path('part%d.ndjson' % i)
            with open(pf, 'w') as f:
                f.write('\n'.join(cs[i::n]) + '\n')
            args = ['-prof', 'struct', '-in', pf, '-n', 2500 if q else 30000, '-seed', c.seed * 100 + i]
            c.drive(exe, 'faults', tf, args)
            c.validate('DecodersTrace', c.pid, tf, 'parts of documents damaged, alone and in twos and threes')
            os.remove(tf)
        c.parallel([lambda i=i: part(i) for i in range(n)])

    def rand(i):
        tf = c.path('rand%d.ndjson' % i)
        args = ['-n', 6000 if q else 50000, '-seed', c.seed * 1000 + i]
        c.drive(exe, 'faults', tf, args)
        c.validate('DecodersTrace', c.pid, tf, 'bytes and nodes of documents damaged at random', replay=args)
        os.remove(tf)
    c.parallel([struct] + [lambda i=i: rand(i) for i in range(4 if q else 10)])


def missed(c, exe):
    """C10: several users tick one tracker at once."""
    q = c.quick

    def impl(n, users, lens, ticks):
        cfg = '\n'.join(['SPECIFICATION Spec', 'INVARIANTS One Conserved', 'PROPERTIES Refines',
                         'CONSTANTS Procs = {%s} Users = {%s} Lens = {%s} MaxTicks = %d' % (
                             ', '.join('"p%d"' % i for i in range(n)), ', '.join('"u%d"' % i for i in range(users)), lens, ticks),
                         'CHECK_DEADLOCK FALSE']) + '\n'
        c.model('MissedImpl', cfg, 'MissedImpl %d tickers, %d users, %d ticks each' % (n, users, ticks))

    def rand(i):
        tf = c.path('storm%d.ndjson' % i)
        args = ['-n', 12 if q else 150, '-steps', 12, '-seed', c.seed * 1000 + i]
        c.drive(exe, 'storm', tf, args)
        c.validate('MissedTrace', c.pid, tf, 'storms of ticks', replay=args)
        os.remove(tf)
    c.parallel([lambda: impl(2, 1, '1, 2', 2), lambda: rand(0), lambda: rand(1)] +
               ([] if q else [lambda: impl(3, 1, '1, 2', 2), lambda: impl(2, 2, '1, 4', 4)]))
