"""Checks decided with Tracker.tla."""
import json, os, random
from core import Broken, tours

CAT = [([1400, 0, 2400], [0, 0, 0]), ([2700], [0]), ([1800, 3900], [1, 0]), ([600], [0]),
       ([700, 1300, 2100], [0, 1, 0]), ([0], [0])]
ROUTES = [[0, 1], [2], [3, 4], [], [5, 0]]

INV = 'PositionExists OnSegment Odometers OfflineBounds UniqueRoutes UniqueSensors'
ACT = ('JumpExact JumpTotal OfflineStands OfflineCounts OfflineCauses Forward LapOnlyAtEnd StepExact '
       'MoveExact ChangeRestarts TimeExact')


def cfg(ops, rs, ticks, jumps=(500,), omin=1, omax=1, skip=0, bmin=0, ct=100, kt=False, kb=False,
        maxcd=12000, maxpend=0, maxdur=100000, edges=False, live=False):
    st = lambda x: '{' + ', '.join('"%s"' % i if isinstance(i, str) else str(i) for i in x) + '}'
    b = lambda x: 'TRUE' if x else 'FALSE'
    l = ['SPECIFICATION ' + ('FairSpec' if live else 'Spec'), 'CONSTRAINT Bound']
    if live:
        l += ['PROPERTIES Laps']
    elif edges:
        l += ['VIEW look', 'ACTION_CONSTRAINT Edges', 'INVARIANTS UniqueRoutes']
    else:
        l += ['VIEW view', 'INVARIANTS ' + INV + (' BatteryBound' if kb else ''), 'PROPERTIES ' + ACT]
    l += ['CONSTANTS Ops = ' + st(ops), ' RouteSet = ' + st(rs), ' Ticks = ' + st(ticks), ' Jumps = ' + st(jumps),
          ' OMin = %d OMax = %d Skip = %d BMin = %d Ct = %d' % (omin, omax, skip, bmin, ct),
          ' KeepTime = %s KeepBattery = %s MaxCd = %d MaxPend = %d MaxDur = %d PrintEdges = %s' % (b(kt), b(kb), maxcd, maxpend, maxdur, b(edges)),
          'CHECK_DEADLOCK FALSE']
    return '\n'.join(l) + '\n'


# The explored models: q is used by the quick tier, t (when given) changes it for the thorough tier.
MODELS = {
    'C01': dict(q=dict(ops=['next', 'jump', 'mvS', 'addR'], rs=[0, 2], ticks=[10], jumps=[500, 1400, 4800, 99999], maxcd=6000),
                t=dict(rs=[0, 1, 2], maxcd=9000)),
    'C02': dict(q=dict(ops=['next', 'addR', 'nxt'], rs=[0, 1, 2], ticks=[10, 20], maxcd=9000),
                t=dict(rs=[0, 1, 2, 4], ticks=[10, 20, 30])),
    'C03': dict(q=dict(ops=['next', 'addR', 'off', 'nxt', 'mvTid'], rs=[0, 1], ticks=[10], omin=0, omax=3, maxcd=9000),
                t=dict(rs=[0, 1, 2], omax=5)),
    'C04': dict(q=dict(ops=['next', 'addR', 'jump', 'rmT'], rs=[0, 1], ticks=[10],
                       jumps=[999, 1000, 1400, 3799, 3800, 6500, 6499, 10000, 99999], maxcd=9000),
                t=dict(rs=[0, 1, 4])),
    'C05': dict(q=dict(ops=['next', 'addR', 'mvS', 'mvTid', 'nxt', 'prv', 'off'], rs=[0, 1], ticks=[10], maxcd=5000),
                t=dict(rs=[0, 1, 2])),
    'C06': dict(q=dict(ops=['next', 'addR', 'addR2', 'rmR', 'rmT', 'rstR', 'rstN'], rs=[0, 1, 3], ticks=[10], maxcd=6000),
                t=dict(rs=[0, 1, 2, 3])),
    'C07': dict(q=dict(ops=['next', 'addR', 'rmT', 'upd', 'jump', 'off', 'addS', 'rmS'], rs=[0, 3], ticks=[10], jumps=[2000], maxcd=4000),
                t=dict(rs=[0, 1, 3], jumps=[1400, 2000])),
    'C09': dict(q=dict(ops=['next', 'addR', 'off'], rs=[1], ticks=[10, 20], kb=True, bmin=2000, ct=10, omin=1, omax=2, maxcd=8000),
                t=dict(rs=[0, 1], ticks=[10, 20, 35])),
    'C10': dict(q=dict(ops=['next', 'busy', 'addR', 'off'], rs=[1], ticks=[5, 10, 17], kt=True, maxcd=2800, maxpend=2, maxdur=60),
                t=dict(rs=[0], ticks=[4, 5, 10, 17], maxcd=2800, maxpend=2, maxdur=60)),
    'C11': dict(q=dict(ops=['next', 'addR', 'jump', 'fork', 'off', 'rmT', 'mvTid'], rs=[0, 2], ticks=[10], jumps=[1400, 2000], maxcd=4000),
                t=dict(rs=[0, 1, 2])),
    'C19': dict(q=dict(ops=['next', 'addS', 'rmS', 'rstS', 'addR', 'upd'], rs=[0], ticks=[10], maxcd=9000),
                t=dict(rs=[0, 1])),
}
# Randomly generated programs: shards, traces per shard, steps per trace.
SIZE = {'quick': (3, 110, 60), 'thorough': (24, 250, 90)}
EDGE_BUDGET = {'quick': 20000, 'thorough': 120000}


def body(c, exe=None):
    prop = c.pid
    exe = exe or c.build()
    tier = 'quick' if c.quick else 'thorough'
    m = MODELS[prop]
    q = dict(m['q'], **({} if c.quick else m.get('t', {})))

    def explore():
        c.model('TrackerMC', cfg(**q), 'TrackerMC/' + prop, workers=4)

    def live():
        c.model('TrackerMC', cfg(ops=['next', 'addR'], rs=[0, 1, 2], ticks=[20], maxcd=99999, live=True, omin=0, omax=2),
                'TrackerMC/laps', workers=2)

    def programs():
        e = dict(q, edges=True)
        e['omin'] = e.get('omax', 1)
        g, root = c.edges('TrackerMC', cfg(**e), 'TrackerMC/%s transitions' % prop, workers=1)
        progs, done, total = tours(g, root, random.Random(c.seed), EDGE_BUDGET[tier])
        c.notes['model_transitions'] = total
        c.notes['model_transitions_replayed_on_the_code'] = done
        c.notes['exhaustive'] = done == total
        k = 3 if c.quick else 8
        cc = dict(Omin=e['omin'], Omax=e['omin'], Skip=q.get('skip', 0), Spd=1000, Ct=q.get('ct', 100) if q.get('kb') else 32400, Bmin=q.get('bmin', 0))

        def shard(i):
            pf, tf = c.path('prog%d' % i), c.path('progt%d.ndjson' % i)
            with open(pf, 'w') as f:
                for p in progs[i::k]:
                    f.write(json.dumps(dict(Cfg=cc, Cat=[dict(Len=a, Gap=b) for a, b in CAT], Rts=ROUTES,
                                            Ops=[dict(Op=o, A=list(a)) for o, a in p])) + '\n')
            if not progs[i::k]:
                return
            c.drive(exe, 'tracker', tf, ['-prof', prop, '-prog', pf, '-seed', c.seed])
            c.validate('TrackerTrace', prop, tf, 'programs from the model', workers=2)
            os.remove(tf)
        c.parallel([lambda i=i: shard(i) for i in range(k)])

    jobs = [explore, programs, lambda: randoms(c, exe, prop, SIZE[tier])]
    if prop == 'C02':
        jobs.append(live)
    if prop == 'C03':
        import simple
        jobs.append(lambda: simple.spread(c, exe, 'offline', 20 if c.quick else 200))
    c.parallel(jobs)


def randoms(c, exe, prop, size):
    """Random programs on real trackers."""
    shards, n, steps = size

    def rand(i):
        tf = c.path('trand%d.ndjson' % i)
        args = ['-prof', prop, '-n', n, '-steps', steps, '-seed', c.seed * 1000 + i]
        c.drive(exe, 'tracker', tf, args)
        c.validate('TrackerTrace', prop, tf, 'random programs', workers=2, replay=args)
        os.remove(tf)
    c.parallel([lambda i=i: rand(i) for i in range(shards)])
