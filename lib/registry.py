"""C15, decided with Registry.tla."""
import json, os, random
from core import tours


def cfg(ng, nx, rest, edges=False):
    b = lambda x: 'TRUE' if x else 'FALSE'
    return '\n'.join(['SPECIFICATION Spec', 'VIEW view', 'INVARIANTS Single Agree',
                      'ACTION_CONSTRAINT Edges' if edges else 'PROPERTIES Refused Frees OneAtMost Views',
                      'CONSTANTS NG = %d NX = %d Restores = %s PrintEdges = %s' % (ng, nx, b(rest), b(edges)), 'CHECK_DEADLOCK FALSE']) + '\n'


def body(c):
    exe = c.build()
    q = c.quick
    jobs = [lambda: c.model('RegistryMC', cfg(2, 3, True), 'RegistryMC 2 generators, 3 trackers'),
            lambda: c.model('RegistryMC', cfg(2, 4, not q), 'RegistryMC 2 generators, 4 trackers')]

    def programs(ng, nx, rest, budget):
        tag = '%d_%d%s' % (ng, nx, '_restores' if rest else '')
        g, root = c.edges('RegistryMC', cfg(ng, nx, rest, True), 'RegistryMC transitions %d %d' % (ng, nx), workers=1)
        progs, done, total = tours(g, root, random.Random(c.seed), budget)
        c.notes['model_transitions_' + tag] = total
        c.notes['model_transitions_replayed_' + tag] = done

        def part(i):
            pf, tf = c.path('rp%s_%d' % (tag, i)), c.path('rpt%s_%d.ndjson' % (tag, i))
            if not progs[i::2]:
                return
            with open(pf, 'w') as f:
                for p in progs[i::2]:
                    f.write(json.dumps(dict(NG=ng, NX=nx, Ops=[dict(Op=o, A=list(a)) for o, a in p])) + '\n')
            c.drive(exe, 'registry', tf, ['-prog', pf, '-seed', c.seed])
            c.explain('RegistryTrace', c.pid, tf, 'programs from the model')
            os.remove(tf)
        c.parallel([lambda: part(0), lambda: part(1)])

    jobs.append(lambda: programs(2, 3, False, 30000 if q else 200000))
    jobs.append(lambda: programs(2, 2, True, 10000 if q else 200000))
    if not q:
        jobs.append(lambda: programs(2, 3, True, 200000))
    for i in range(4 if q else 16):
        def rand(i=i):
            tf = c.path('rr%d.ndjson' % i)
            args = ['-n', 80 if q else 300, '-steps', 14 if q else 25, '-seed', c.seed * 1000 + i]
            c.drive(exe, 'registry', tf, args)
            c.explain('RegistryTrace', c.pid, tf, 'concurrent histories', replay=args)
            os.remove(tf)
        jobs.append(rand)

    def bouts(i):
        tf = c.path('rc%d.ndjson' % i)
        args = ['-prof', 'contention', '-n', 1200 if q else 12000, '-seed', c.seed * 1000 + i]
        c.drive(exe, 'registry', tf, args)
        c.explain('RegistryTrace', c.pid, tf, 'calls at the same moment', replay=args)
        os.remove(tf)
    jobs += [lambda i=i: bouts(i) for i in range(2 if q else 8)]
    c.parallel(jobs)
