"""C17, decided with Readers.tla."""
import json, os, random
from core import tours


def cfg(nr, mw, mr, edges=False):
    return '\n'.join(['SPECIFICATION Spec', 'VIEW look' if edges else 'VIEW view', 'INVARIANTS Whole' if not edges else '',
                      'ACTION_CONSTRAINT Edges' if edges else 'PROPERTIES Monotone Current',
                      'CONSTANTS NReaders = %d MaxWrites = %d MaxReads = %d PrintEdges = %s' % (nr, mw, mr, 'TRUE' if edges else 'FALSE'),
                      'CHECK_DEADLOCK FALSE']) + '\n'


def body(c):
    q = c.quick
    exe = c.build()
    jobs = [lambda: c.model('ReadersMC', cfg(2, 2, 2), 'ReadersMC 2 readers'),
            lambda: c.model('ReadersMC', cfg(2, 3, 2) if q else cfg(3, 2, 2), 'ReadersMC more')]

    def programs():
        g, root = c.edges('ReadersMC', cfg(2, 2, 2, True), 'ReadersMC transitions', workers=1)
        progs, done, total = tours(g, root, random.Random(c.seed), 12000 if q else 40000, maxlen=30)
        c.notes['model_transitions'] = total
        c.notes['model_transitions_replayed'] = done
        random.Random(c.seed).shuffle(progs)

        def part(i):
            pf, tf = c.path('cp%d' % i), c.path('cpt%d.ndjson' % i)
            if not progs[i::3]:
                return
            with open(pf, 'w') as f:
                for p in progs[i::3]:
                    f.write(json.dumps(dict(Ops=[dict(Op=o, A=list(a)) for o, a in p])) + '\n')
            c.drive(exe, 'conc', tf, ['-prog', pf, '-seed', c.seed])
            c.explain('ReadersTrace', c.pid, tf, 'interleavings from the model')
            os.remove(tf)
        c.parallel([lambda i=i: part(i) for i in range(3)])

    jobs.append(programs)

    def rand(i, binary, n, steps, tag):
        tf = c.path('cr%s%d.ndjson' % (tag, i))
        args = ['-n', n, '-steps', steps, '-seed', c.seed * 1000 + i]
        c.drive(binary, 'conc', tf, args)
        c.explain('ReadersTrace', c.pid, tf, 'concurrent readers' + tag, replay=args)
        os.remove(tf)
    jobs += [lambda i=i: rand(i, exe, 60 if q else 250, 60 if q else 80, '') for i in range(3 if q else 10)]

    def raced():
        b = c.build(race=True)
        c.parallel([lambda i=i: rand(100 + i, b, 24 if q else 120, 40 if q else 60, ' (race detector)') for i in range(1 if q else 4)])
    jobs.append(raced)
    c.parallel(jobs)
