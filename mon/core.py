"""Runs jobs in worker processes, collects their event logs, keeps the counters
of a check and turns them into a verdict and an evidence file."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY3 = '/opt/venv/bin/python'
BUILD = os.path.join(VERIF, 'build')
NPROC = min(8, os.cpu_count() or 1)
#: CPU seconds a worker may spend without recording an event.  Ordinary
#: messages take milliseconds, the slowest ones (60 KB through pure Python
#: bit packing on Jython) a few seconds.
CPU_LIMIT = 150
WALL_LIMIT = 780


class Broken(Exception):
    """The code under test failed where nothing can be decided without it."""


class Inconclusive(Exception):
    pass


def environ(jy):
    env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'HOME': os.environ.get('HOME', '/root'), 'LANG': 'C.UTF-8',
           'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONHASHSEED': '0', 'VERIF_REPO': REPO}
    if jy:
        env['JYTHONPATH'] = '/opt/jylib'
    return env


def command(interp):
    if interp == 'jy':
        # as /usr/bin/jython does it, plus limits
        return ['java', '-Xmx2g', '-Xss16m', '-XX:+UseSerialGC', '-jar',
                '/usr/share/java/jython.jar', '-Dpython.home=/usr/share/jython',
                '-Dpython.executable=/usr/bin/jython', '-B',
                os.path.join(HERE, 'worker.py')]
    script = 'toolworker.py' if interp == 'tool' else 'worker.py'
    return [PY3, '-B', '-W', 'ignore', os.path.join(HERE, script)]


def tree_cpu(pid):
    """CPU seconds used by pid and its children (jython is a shell script)."""
    total = 0.0
    todo = [pid]
    tick = os.sysconf('SC_CLK_TCK')
    while todo:
        p = todo.pop()
        try:
            f = open('/proc/%d/stat' % p).read().rsplit(')', 1)[1].split()
            total += (int(f[11]) + int(f[12])) / float(tick)
            for t in os.listdir('/proc/%d/task' % p):
                kids = open('/proc/%d/task/%s/children' % (p, t)).read().split()
                todo += [int(k) for k in kids]
        except (OSError, IndexError, ValueError):
            pass
    return total


def kill_tree(proc):
    try:
        os.killpg(proc.pid, 9)
    except OSError:
        pass
    proc.wait()


class Shard(object):
    def __init__(self, interp, jobs, scratch, n, env=None):
        self.jobs = jobs
        self.inp = os.path.join(scratch, 'in%d.json' % n)
        self.out = os.path.join(scratch, 'out%d.jsonl' % n)
        self.log = os.path.join(scratch, 'log%d' % n)
        with open(self.inp, 'w') as f:
            json.dump([j for _, j in jobs], f)
        open(self.out, 'w').close()
        e = environ(interp == 'jy')
        e.update(env or {})
        self.size, self.cpu, self.hung = 0, 0.0, False
        with open(self.log, 'wb') as log:
            self.p = subprocess.Popen(
                command(interp) + [self.inp, self.out], stdin=subprocess.DEVNULL,
                stdout=log, stderr=subprocess.STDOUT, env=e, cwd=scratch,
                start_new_session=True)

    def poll(self):
        """True when finished."""
        if self.p.poll() is not None:
            return True
        size = os.path.getsize(self.out)
        cpu = tree_cpu(self.p.pid)
        if size != self.size:
            self.size, self.cpu = size, cpu
        elif cpu - self.cpu > CPU_LIMIT:
            self.hung = True
            kill_tree(self.p)
            return True
        return False


def run_jobs(interp, jobs, shards=NPROC, env=None):
    """[(job, [events])] in the order of `jobs`.  A job that stopped making
    progress has {'hang': 1} as its last event."""
    scratch = tempfile.mkdtemp(prefix='verif-')
    try:
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('cost', 1))
        bins = [[0, []] for _ in range(max(1, min(shards, len(jobs))))]
        for i in order:
            b = min(bins, key=lambda x: x[0])
            b[0] += jobs[i].get('cost', 1)
            b[1].append((i, jobs[i]))
        todo = [Shard(interp, sorted(b[1], key=lambda t: t[0]), scratch, n, env)
                for n, b in enumerate(bins) if b[1]]
        live = list(todo)
        start = time.time()
        while live:
            time.sleep(0.15)
            live = [s for s in live if not s.poll()]
            if live and time.time() - start > WALL_LIMIT:
                for s in live:
                    kill_tree(s.p)
                raise Inconclusive('workers did not finish in %d s' % WALL_LIMIT)
        result = [None] * len(jobs)
        rerun = []
        for s in todo:
            events = [[] for _ in s.jobs]
            ended = [False] * len(s.jobs)
            with open(s.out) as f:
                for line in f:
                    if not line.endswith('\n'):
                        break
                    e = json.loads(line)
                    if 'end' in e:
                        ended[e['j']] = True
                    else:
                        events[e['j']].append(e)
            for k, (i, job) in enumerate(s.jobs):
                if not ended[k] and all(ended[:k]):
                    if s.hung:
                        events[k].append({'hang': 1, 'i': len(events[k])})
                    elif s.p.returncode:
                        with open(s.log, 'rb') as f:
                            log = f.read()[-3000:].decode('latin-1')
                        # killed from outside, or brought down by what it ran
                        kind = Inconclusive if s.p.returncode == -9 else Broken
                        raise kind('worker ended with %r in %r\n%s' % (
                            s.p.returncode, job.get('tag') or job['kind'], log))
                    result[i] = (job, events[k])
                elif ended[k]:
                    result[i] = (job, events[k])
                else:
                    rerun.append(i)      # behind a hang: not executed
                    result[i] = (job, None)
            for e in sum(events, []):
                if 'fatal' in e and REPO + '/' not in e['fatal'] \
                        and 'compressor' not in e['fatal']:
                    raise Inconclusive('worker failed: ' + e['fatal'])
        return [r for r in result if r[1] is not None]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Run(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known_seen = []
        self.rule = ''
        self.assumptions = []
        self.known = load_known()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    def peak(self, name, v):
        self.counters[name] = max(self.counters.get(name, v), v)

    def case(self, key, nontrivial=True):
        """One evaluated case; `key` identifies it."""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(repr(key).encode('utf-8', 'replace'),
                                              digest_size=8).digest())

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            s = json.loads(json.dumps(s, default=repr))
            text = json.dumps(s)
            if len(text) > 1500:
                s = text[:1500] + '...'
            self.samples.append(s)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def require(self, name, minimum=1):
        """The monitor must have seen this, or the run decided nothing."""
        if self.counters.get(name, 0) < minimum:
            raise Inconclusive('only %d of %s observed, %d needed'
                               % (self.counters.get(name, 0), name, minimum))

    def finish(self):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': 'exploration',
              'coverage': {'evaluations': self.evaluations,
                           'distinct_nontrivial': len(self.distinct),
                           'rule': self.rule, 'samples': self.samples,
                           'observed': self.counters},
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for line in self.known_seen:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, line))
        if not self.violations:
            print('%s %s seed=%d: held on %d cases (%d distinct) in %.1f s; observed %s'
                  % (self.pid, self.tier, self.seed, self.evaluations,
                     len(self.distinct), time.time() - self.t0,
                     json.dumps(self.counters, sort_keys=True)))
            return 0
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for n, (what, replay) in enumerate(self.violations[:5]):
            path = os.path.join(rdir, '%s-%d.json' % (self.pid, n))
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'what': what, 'tier': self.tier,
                           'seed': self.seed, 'replay': replay}, f, indent=1,
                          default=repr)
            print('%s: %s' % (self.pid, what[:1200]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if len(self.violations) > 5:
            print('... and %d more' % (len(self.violations) - 5))
        return 1


def load_known():
    """{id: text} of the findings recorded as known (not of the fixed ones)."""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                w = line.split()
                if len(w) > 2 and w[0] == 'known:' and w[2].startswith('id='):
                    out[w[2][3:]] = line
    return out
