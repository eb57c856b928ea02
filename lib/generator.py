"""Checks decided with Generator.tla: what a running generator delivers."""
import json, os, random
from core import tours

INV = 'MayInTodo TodoIsRest NoOverlap BadUnreported NoDuplicates NextBound'
ACT = 'AllReported OrderKept TickFixed NextAfterPackets NextAtMostOne ErrorsMatch SilentAfter'


def cfg(ops, trackers=3, size=2, cb=(1, 1, 1), ticks=2, maxops=5, whole=False, mode='inv'):
    b = lambda x: 'TRUE' if x else 'FALSE'
    l = {'inv': ['SPECIFICATION Spec', 'VIEW view', 'INVARIANTS ' + INV, 'PROPERTIES ' + ACT],
         'live': ['SPECIFICATION FairSpec', 'INVARIANTS ' + INV, 'PROPERTIES Closes TickEnds'],
         'edges': ['SPECIFICATION Spec', 'VIEW look', 'INVARIANTS NoOverlap', 'ACTION_CONSTRAINT Edges']}[mode]
    l = list(l) + ['CONSTANTS Trackers = {%s} Size = %d CbP = %s CbN = %s CbE = %s' % (
        ','.join(map(str, range(trackers))), size, b(cb[0]), b(cb[1]), b(cb[2])),
        ' Ops = {%s} MaxTicks = %d MaxOps = %d Whole = %s PrintEdges = %s' % (
            ','.join('"%s"' % o for o in ops), ticks, maxops, b(whole), b(mode == 'edges')), 'CHECK_DEADLOCK FALSE']
    return '\n'.join(l) + '\n'


def icfg(ops, trackers=2, size=2, w=1, cb=(1, 1, 1), ticks=1, maxops=3, live=False):
    """A model of the goroutines (GeneratorImpl): what they do is what Generator allows."""
    b = lambda x: 'TRUE' if x else 'FALSE'
    return '\n'.join([
        'SPECIFICATION ' + ('FairSpec' if live else 'Spec'), 'INVARIANTS NoBlank Notified NoBlockedReply Gone',
        'PROPERTIES Refines' + (' Closes TickEnds' if live else ''),
        'CONSTANTS Trackers = {%s} Size = %d W = %d CbP = %s CbN = %s CbE = %s MaxTicks = %d MaxOps = %d Ops = {%s}' % (
            ','.join(map(str, range(trackers))), size, w, b(cb[0]), b(cb[1]), b(cb[2]), ticks, maxops, ','.join('"%s"' % o for o in ops)),
        'CHECK_DEADLOCK FALSE']) + '\n'


IMPL = {
    'C14': (dict(ops=['att', 'det'], trackers=3, size=3, w=2, cb=(1, 0, 0), maxops=4),
            [dict(ops=['att', 'det'], trackers=3, size=2, w=1, cb=(1, 0, 0), ticks=2, maxops=5),
             dict(ops=['att', 'det'], trackers=4, size=4, w=2, cb=(1, 0, 0), ticks=1, maxops=5),
             dict(ops=['att'], trackers=5, size=3, w=2, cb=(1, 0, 0), ticks=1, maxops=5, live=True)]),
    'C16': (dict(ops=['att', 'close'], trackers=2, size=1, w=2, live=True),
            [dict(ops=['att', 'bad', 'close'], trackers=2, size=1, w=2, ticks=2, live=True),
             dict(ops=['att', 'close'], trackers=4, size=4, w=2, maxops=5, live=True)]),
    'C21': (dict(ops=['att', 'close'], trackers=1, size=1, w=1, cb=(1, 1, 0), ticks=3, maxops=2, live=True),
            [dict(ops=['att', 'det', 'close'], trackers=2, size=1, w=2, cb=(1, 1, 0), ticks=2, live=True),
             dict(ops=['att', 'close'], trackers=1, size=1, w=2, cb=(1, 1, 0), ticks=5, maxops=2, live=True)]),
    'C22': (dict(ops=['att', 'bad'], trackers=2, size=2, w=1, cb=(1, 0, 1), ticks=2, maxops=4),
            [dict(ops=['att', 'bad'], trackers=4, size=4, w=2, cb=(1, 0, 1), maxops=5),
             dict(ops=['att', 'bad', 'close'], trackers=3, size=2, w=1, ticks=2, maxops=4),
             dict(ops=['att', 'bad', 'close'], trackers=3, size=3, w=2, cb=(1, 0, 1), live=True)]),
}

# inv, live: models checked; edges: models whose transitions are replayed, with the callbacks set
PLAN = {
    'C14': dict(q=dict(inv=[dict(ops=['att', 'det'], maxops=6, cb=(1, 0, 0), ticks=3)],
                       live=[dict(ops=['att', 'det'], trackers=2, size=1, cb=(1, 0, 0), ticks=2, maxops=4)],
                       edges=[(dict(ops=['att', 'det'], trackers=3, cb=(1, 0, 0), ticks=3, maxops=6), 1, 700)]),
                t=dict(inv=[dict(ops=['att', 'det'], maxops=8, cb=(1, 0, 0), ticks=3)],
                       edges=[(dict(ops=['att', 'det'], trackers=3, cb=(1, 0, 0), ticks=3, maxops=6), 1, 20000)])),
    'C16': dict(q=dict(inv=[dict(ops=['close', 'att'], trackers=2, maxops=4, ticks=2)],
                       live=[dict(ops=['close', 'att', 'bad'], trackers=2, size=1, maxops=4, cb=(1, 1, 1)),
                             dict(ops=['close', 'att', 'bad'], trackers=2, size=1, maxops=4, cb=(0, 1, 0))],
                       edges=[(dict(ops=['close', 'att', 'bad'], trackers=2, cb=(1, 1, 1), ticks=2, maxops=4), 1, 600),
                              (dict(ops=['close', 'att'], trackers=1, cb=(0, 1, 0), ticks=3, maxops=3), 1, 100)]),
                t=dict(inv=[dict(ops=['close', 'att', 'det', 'bad'], trackers=2, maxops=6, ticks=3)],
                       edges=[(dict(ops=['close', 'att', 'bad', 'det'], trackers=2, cb=(1, 1, 1), ticks=2, maxops=5), 1, 15000),
                              (dict(ops=['close', 'att', 'bad'], trackers=2, cb=(0, 1, 1), ticks=3, maxops=4), 1, 3000),
                              (dict(ops=['close', 'att'], trackers=1, cb=(0, 0, 0), ticks=3, maxops=3), 1, 100)])),
    'C21': dict(q=dict(inv=[dict(ops=['att'], trackers=2, maxops=2, cb=(1, 1, 0), ticks=5, size=1)],
                       live=[dict(ops=['att', 'close'], trackers=2, size=1, maxops=3, cb=(1, 1, 0), ticks=3)],
                       edges=[(dict(ops=['att', 'det'], trackers=2, cb=(1, 1, 0), ticks=4, maxops=3), 1, 500),
                              (dict(ops=['att'], trackers=1, cb=(0, 1, 0), ticks=4, maxops=2), 1, 100)]),
                t=dict(inv=[dict(ops=['att', 'det', 'bad'], trackers=2, maxops=4, cb=(1, 1, 1), ticks=5, size=1)],
                       edges=[(dict(ops=['att', 'det', 'bad'], trackers=2, cb=(1, 1, 1), ticks=4, maxops=4), 1, 15000),
                              (dict(ops=['att', 'det'], trackers=2, cb=(0, 1, 0), ticks=5, maxops=4), 1, 2000)])),
    'C22': dict(q=dict(inv=[dict(ops=['att', 'bad'], maxops=5, cb=(1, 0, 1), ticks=2, size=1)],
                       live=[dict(ops=['att', 'bad', 'close'], trackers=2, size=1, maxops=4, cb=(1, 0, 1))],
                       edges=[(dict(ops=['att', 'bad'], trackers=2, cb=(1, 0, 1), ticks=3, maxops=5), 1, 500),
                              (dict(ops=['att', 'bad'], trackers=2, cb=(1, 0, 0), ticks=3, maxops=4), 1, 150),
                              (dict(ops=['att', 'bad'], trackers=2, cb=(0, 0, 1), ticks=3, maxops=4), 1, 150)]),
                t=dict(inv=[dict(ops=['att', 'bad', 'det'], maxops=5, cb=(1, 0, 1), ticks=2, size=2)],
                       edges=[(dict(ops=['att', 'bad', 'det'], trackers=2, cb=(1, 1, 1), ticks=3, maxops=6), 1, 12000),
                              (dict(ops=['att', 'bad'], trackers=2, cb=(1, 0, 0), ticks=3, maxops=5), 1, 3000),
                              (dict(ops=['att', 'bad'], trackers=2, cb=(0, 0, 1), ticks=3, maxops=5), 1, 3000)])),
    'C10': dict(q=dict(inv=[], live=[], edges=[]), t=dict()),
}
# random runs: processes, runs in each, actions in each
RUNS = {'quick': dict(C14=(4, 45, 30), C16=(4, 55, 0), C21=(4, 45, 24), C22=(4, 45, 24), C10=(5, 1, 0)),
        'thorough': dict(C14=(12, 330, 40), C16=(12, 420, 0), C21=(12, 330, 30), C22=(12, 330, 30), C10=(10, 5, 0))}


def body(c, prop=None, exe=None):
    prop = prop or c.pid
    exe = exe or c.build()
    tier = 'quick' if c.quick else 'thorough'
    plan = dict(PLAN[prop]['q'], **({} if c.quick else PLAN[prop]['t']))
    jobs = []
    for mode in ('inv', 'live'):
        for k, q in enumerate(plan[mode]):
            jobs.append(lambda mode=mode, q=q, k=k: c.model('GeneratorMC', cfg(mode=mode, **q), 'GeneratorMC/%s %s %d' % (prop, mode, k + 1)))

    if prop in IMPL:
        for k, q in enumerate([IMPL[prop][0]] + ([] if c.quick else IMPL[prop][1])):
            jobs.append(lambda q=q, k=k: c.model('GeneratorImpl', icfg(**q), 'GeneratorImpl/%s %d' % (prop, k + 1)))

    def programs(k, q, p, budget):
        g, root = c.edges('GeneratorMC', cfg(mode='edges', whole=True, **dict(q, size=9)), 'GeneratorMC/%s transitions %d' % (prop, k + 1), workers=1)
        progs, done, total = tours(g, root, random.Random(c.seed + k), budget * 4, maxlen=40)
        c.notes['model_transitions_%d' % (k + 1)] = total
        c.notes['model_transitions_replayed_%d' % (k + 1)] = done
        quiet = {'tick', 'taken', 'done', 'cut', 'ret', 'init'}
        cb = q['cb']
        docs = []
        for pr in progs:
            ops = [dict(Op=o, A=list(a)) for o, a in pr if o not in quiet]
            docs.append(json.dumps(dict(P=cb[0], N=cb[1], E=cb[2], Ops=ops)))
        docs = sorted(set(docs))
        random.Random(c.seed).shuffle(docs)
        docs = docs[:max(8, budget // 10)]
        n = min(4, len(docs))

        def part(i):
            pf, tf = c.path('gp%d_%d' % (k, i)), c.path('gpt%d_%d.ndjson' % (k, i))
            open(pf, 'w').write('\n'.join(docs[i::n]) + '\n')
            c.drive(exe, 'gen', tf, ['-prof', prop, '-prog', pf, '-seed', c.seed])
            c.explain('GeneratorTrace', prop, tf, 'control sequences from the model')
            os.remove(tf)
        c.parallel([lambda i=i: part(i) for i in range(n)])

    for k, (q, p, budget) in enumerate(plan['edges']):
        jobs.append(lambda k=k, q=q, p=p, b=budget: programs(k, q, p, b))
    shards, n, steps = RUNS[tier][prop]

    def rand(i):
        tf = c.path('gr%d.ndjson' % i)
        args = ['-prof', prop, '-n', n, '-steps', steps, '-seed', c.seed * 1000 + i]
        c.drive(exe, 'gen', tf, args)
        c.explain('GeneratorTrace', prop, tf, 'runs', replay=args)
        os.remove(tf)
    jobs += [lambda i=i: rand(i) for i in range(shards)]
    c.parallel(jobs)
