"""Shared machinery of the checks: building the driver, running it and TLC,
turning explored transitions into programs, evidence and verdicts."""
import collections, concurrent.futures as cf, hashlib, json, os, random, re, shutil
import signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GPSGEN_REPO', '/repo')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Broken(Exception):
    """The check cannot give an answer."""


class Violation(Exception):
    def __init__(self, info):
        super().__init__('violation')
        self.info = info


def sh(cmd, timeout, cwd=None, env=None, stdin=None):
    """Runs a command in its own process group; on time-out ends the group."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, '', ''


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.deadline = self.t0 + (600 if self.quick else 850)
        self.dir = tempfile.mkdtemp(prefix='vcheck-%s-' % pid)
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = 0
        self.ops = collections.Counter()
        self.samples, self.models, self.notes = [], [], {}
        self.slots = threading.BoundedSemaphore(8)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def left(self):
        return max(5, self.deadline - time.time())

    def path(self, name):
        return os.path.join(self.dir, name)

    # -- the driver -------------------------------------------------------
    def build(self, race=False):
        src = self.path('harness')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'harness'), src)
            mod = os.path.join(src, 'go.mod')
            t = open(mod).read()
            t2 = re.sub(r'=> \S+', '=> ' + REPO, t)
            if t2 != t:
                open(mod, 'w').write(t2)
        binary = self.path('driver-race' if race else 'driver')
        env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off',
                   GONOSUMDB='*', GONOSUMCHECK='1')
        rc, out, err = sh(['go', 'build'] + (['-race'] if race else []) + ['-o', binary, '.'], 800, cwd=src, env=env)
        if rc != 0:
            raise Broken('the driver does not build against %s:\n%s%s' % (REPO, out, err))
        return binary

    def drive(self, binary, mode, out, args, timeout=None, env=None):
        cmd = [binary, mode, '-out', out] + [str(a) for a in args]
        e = dict(os.environ, GOMAXPROCS='8', GOTRACEBACK='all', GORACE='halt_on_error=1 exitcode=66')
        if env:
            e.update(env)
        t = timeout or self.left()
        with self.slots:
            rc, o, err = sh(cmd, t, cwd=self.dir, env=e)
        if rc == 0:
            return
        info = dict(kind='driver', mode=mode, args=[str(a) for a in args], rc=rc, stderr=err[-20000:])
        if rc is None:
            raise Broken('the driver (%s) did not end in %d s' % (' '.join(map(str, args)), t))
        lib = 'mmadfox/go-gpsgen' in err and ('panic' in err or 'fatal error' in err or 'DATA RACE' in err)
        if lib and 'panic: harness:' not in err:
            info['what'] = 'the library crashed the process'
            raise Violation(info)
        raise Broken('driver failed (rc %s): %s' % (rc, err[-3000:]))

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=2, mem='3g', timeout=None, extra=()):
        """Runs TLC in a private copy of the specification."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        for f in os.listdir(os.path.join(VERIF, 'spec')):
            if f.endswith('.tla'):
                os.symlink(os.path.join(VERIF, 'spec', f), os.path.join(d, f))
        open(os.path.join(d, 'run.cfg'), 'w').write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, workers), '-Xmx' + mem, '-Xss64m',
               '-Djava.io.tmpdir=' + d, '-cp', TLA, 'tlc2.TLC', '-config', 'run.cfg', '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-fp', '0'] + list(extra) + [module + '.tla']
        t = timeout or self.left()
        with self.slots:
            rc, out, err = sh(cmd, t, cwd=d, env=e)
        shutil.rmtree(d, ignore_errors=True)
        if rc is None:
            raise Broken('TLC on %s did not end in %d s' % (module, t))
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ' ,').replace(' ,', ','))
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return rc, out + err, gen, dist

    def model(self, module, cfg, name, workers=4, mem='6g', timeout=None, extra=()):
        """Exhaustive checking of a model.  Its own invariants must hold."""
        rc, out, gen, dist = self.tlc(module, cfg, workers=workers, mem=mem, timeout=timeout, extra=extra)
        if rc != 0:
            raise Broken('model %s: TLC says (rc %d)\n%s' % (name, rc, out[-4000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append(dict(model=name, module=module, distinct_states=dist, states_generated=gen))
        return out

    def validate(self, module, prop, trace, name, workers=2, mem='3g', consts='', replay=None):
        """Checks recorded executions against the specification."""
        lines = [l for l in open(trace) if l.strip()]
        if not lines:
            raise Broken('no trace was recorded (%s)' % name)
        cfg = 'SPECIFICATION Spec\nINVARIANT Conforms\nCONSTANT Prop = "%s"\n%s\nCHECK_DEADLOCK FALSE\n' % (prop, consts)
        rc, out, gen, dist = self.tlc(module, cfg, env={'TRACES': trace}, workers=workers, mem=mem)
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += len(lines)
            self.count(lines)
        if rc == 0:
            return
        st = re.findall(r'(?:/\\ )?\btid = (\d+)', out)
        ll = re.findall(r'(?:/\\ )?\bl = (\d+)', out)
        if not st or not ll:
            raise Broken('TLC on %s failed (rc %s)\n%s' % (name, rc, out[-5000:]))
        tid, l = int(st[-1]), int(ll[-1])
        doc = json.loads(lines[tid - 1])
        steps = doc.get('steps', [])
        bad = 'Invariant Conforms is violated' in out
        # on an evaluation error the printed state is the one before the step
        k = l if bad else min(l + 1, len(steps))
        info = dict(kind='trace', module=module, run=name, trace=tid, step=k,
                    what='the step is not allowed by the specification' if bad else
                         'the observation is outside the domain of the specification',
                    tlc=out[-6000:] if not bad else '', replay=replay,
                    operations=[{a: b for a, b in s.items() if a != 'o'} for s in steps[:k]],
                    before=steps[k - 2].get('o') if k >= 2 else None,
                    after=steps[k - 1].get('o') if 1 <= k <= len(steps) else None,
                    header={a: b for a, b in doc.items() if a != 'steps'})
        raise Violation(info)

    def explain(self, module, prop, trace, name, replay=None, workers=2, consts=''):
        """Every recorded execution must be explained to its end."""
        lines = [l for l in open(trace) if l.strip()]
        if not lines:
            raise Broken('no trace was recorded (%s)' % name)
        conf = 'SPECIFICATION Spec\nINVARIANTS Done How\nCONSTANTS Prop = "%s" Show = %s\n' + consts + '\nCHECK_DEADLOCK FALSE\n'
        rc, out, gen, dist = self.tlc(module, conf % (prop, 'FALSE'), env={'TRACES': trace}, workers=workers, mem='3g')
        done = {int(x) for x in re.findall(r'<<"DONE", (\d+)>>', out)}
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += len(lines)
            self.count(lines)
        if rc != 0:
            st, ll = re.findall(r'(?:/\\ )?\btid = (\d+)', out), re.findall(r'(?:/\\ )?\bl = (\d+)', out)
            if not st or not ll or 'evaluat' not in out:
                raise Broken('TLC on %s failed (rc %s)\n%s' % (name, rc, out[-5000:]))
            doc = json.loads(lines[int(st[-1]) - 1])
            k = int(ll[-1])
            raise Violation(dict(kind='run', module=module, run=name, trace=int(st[-1]), step=k + 1, tlc=out[-6000:],
                                 what='the observation is outside the domain of the specification',
                                 operations=doc['steps'][k:k + 1], before=doc['steps'][max(0, k - 40):k], replay=replay))
        missing = sorted(set(range(1, len(lines) + 1)) - done)
        if not missing:
            return
        one = self.path('one-%s.ndjson' % os.path.basename(trace))
        open(one, 'w').write(lines[missing[0] - 1])
        rc, out, _, _ = self.tlc(module, conf % (prop, 'TRUE'), env={'TRACES': one}, workers=2)
        if rc != 0 or '"DONE"' in out:
            raise Broken('TLC does not agree with itself on %s' % name)
        at = max(int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out))
        doc = json.loads(lines[missing[0] - 1])
        steps = doc['steps']
        bad = steps[at] if at < len(steps) else {}
        raise Violation(dict(kind='run', module=module, run=name, trace=missing[0], step=at + 1,
                             what='nothing the specification allows explains the execution beyond this event',
                             operations=[bad], before=steps[max(0, at - 40):at],
                             header={k: v for k, v in doc.items() if k not in ('steps', 'kinds')},
                             replay=replay))

    def count(self, lines):
        for ln in lines:
            d = json.loads(ln)
            for s in d.get('steps', []):
                self.ops['%s/%s' % (s.get('op'), s.get('r', ''))] += 1
        if len(self.samples) < 3:
            d = json.loads(lines[len(lines) // 2])
            ops = [{a: b for a, b in s.items() if a not in ('o', 'ff')} for s in d.get('steps', [])[:12]]
            self.samples.append(dict(first_operations=ops) if ops else d)

    # -- programs from explored transitions ---------------------------------
    def edges(self, module, cfg, name, workers=4, mem='4g'):
        out = self.model(module, cfg, name, workers=workers, mem=mem)
        return parse_edges(out)

    # -- ending -------------------------------------------------------------
    def parallel(self, jobs):
        """Runs thunks side by side; the first violation wins over errors."""
        viol, errs = None, []
        with cf.ThreadPoolExecutor(max_workers=16) as ex:
            for f in cf.as_completed([ex.submit(j) for j in jobs]):
                try:
                    f.result()
                except Violation as v:
                    viol = viol or v
                except Broken as b:
                    errs.append(b)
        if viol:
            raise viol
        if errs:
            raise errs[0]

    def evidence(self, violations):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or [dict(models=self.models)], models=self.models,
                   operations=dict(sorted(self.ops.items())))
        cov.update(self.notes)
        doc = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                   assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)

    def replay_file(self, info):
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s-%d.json' % (self.pid, self.tier, self.seed))
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, repo=REPO, **info), open(p, 'w'), indent=1)
        return p


ASSUMPTIONS = ['the driver observes the code through its public API only',
               'TLC evaluates the specification correctly',
               'rounding: lengths are compared in millimetres with a tolerance of a few millimetres']

EDGE = re.compile(r'^<<"EDGE", "(\w*)", (-?\d+), <<"(\w+)", <<([-\d, ]*)>>>>, "(\w+)", (-?\d+)>>$')


def parse_edges(out):
    g, root, seen = collections.defaultdict(list), None, set()
    for ln in out.splitlines():
        m = EDGE.match(ln)
        if not m:
            continue
        frm, a, op, args, kind, b = m.groups()
        if frm == 'init':
            root = a
        key = (a, op, args, b)
        if key in seen:
            continue
        seen.add(key)
        g[a].append((op, tuple(int(x) for x in args.split(',')) if args.strip() else (), kind, b))
    if root is None:
        raise Broken('no transition was printed by TLC')
    return g, root


def tours(g, root, rng, budget, maxlen=70):
    """Programs that together take every transition, as far as the budget goes."""
    for v in g.values():
        rng.shuffle(v)
    todo = {n: list(range(len(v))) for n, v in g.items()}
    total = sum(len(v) for v in g.values())
    done, progs, steps = 0, [], 0
    # distance from root, for restarts towards unfinished nodes
    par, order, q = {root: None}, [root], collections.deque([root])
    while q:
        a = q.popleft()
        for i, e in enumerate(g.get(a, ())):
            if e[3] not in par:
                par[e[3]] = (a, i)
                order.append(e[3])
                q.append(e[3])
    nodes = [n for n in order if g.get(n)]
    rng.shuffle(nodes)
    pos = 0

    def path_to(n):
        p = []
        while par[n] is not None:
            a, i = par[n]
            p.append((a, i))
            n = a
        return p[::-1]

    def near(n, limit):
        seen, q = {n: None}, collections.deque([n])
        while q and len(seen) < limit:
            a = q.popleft()
            if todo.get(a):
                p = []
                while seen[a] is not None:
                    b, i = seen[a]
                    p.append((b, i))
                    a = b
                return p[::-1]
            for i, e in enumerate(g.get(a, ())):
                if e[3] not in seen:
                    seen[e[3]] = (a, i)
                    q.append(e[3])
        return None

    while steps < budget and pos < len(nodes):
        while pos < len(nodes) and not todo[nodes[pos]]:
            pos += 1
        if pos >= len(nodes):
            break
        prog, cur = [], root

        def take(a, i):
            nonlocal done
            if i in todo[a]:
                todo[a].remove(i)
                done += 1
            e = g[a][i]
            prog.append((e[0], e[1]))
            return e[3]
        for a, i in path_to(nodes[pos]):
            cur = take(a, i)
        while len(prog) < maxlen:
            if todo.get(cur):
                cur = take(cur, todo[cur][-1])
                continue
            p = near(cur, 400)
            if not p or len(prog) + len(p) > maxlen:
                break
            for a, i in p:
                cur = take(a, i)
        progs.append(prog)
        steps += len(prog)
    return progs, done, total


def run(pid, body):
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, tier, seed)
    try:
        body(c)
        c.evidence(0)
        for ln in known(pid):
            print('KNOWN-FINDING: property=%s %s' % (pid, ln))
        print('OK property=%s states=%d traces=%d wall=%.1fs' % (pid, c.states, c.traces, time.time() - c.t0))
        return 0
    except Violation as v:
        c.evidence(1)
        p = c.replay_file(v.info)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        for k in ('run', 'trace', 'step', 'what'):
            if v.info.get(k) is not None:
                print('  %s: %s' % (k, v.info[k]))
        if v.info.get('operations'):
            print('  operation: %s' % json.dumps(v.info['operations'][-1])[:400])
        if v.info.get('stderr'):
            print(v.info['stderr'][-1500:])
        return 1
    except Broken as b:
        print('ERROR property=%s: %s' % (pid, b))
        return 2
    finally:
        c.close()


def known(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    res = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\w+) (.*)', ln)
            if m and m.group(1) == pid:
                res.append(m.group(2).strip())
    return res
