"""Runs jobs against the comparison tool ($VERIF_REPO's compare_compressors.py and
lib/) and records what it saw.  No oracle here.

  toolworker.py JOBS.json OUT.jsonl"""
import importlib
import io
import json
import os
import runpy
import shutil
import signal
import sys
import tempfile
import traceback
import types
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
OUT = None


def emit(rec):
    OUT.write(json.dumps(rec) + '\n')
    OUT.flush()


# -- a clock that only the stand-in codecs move ------------------------------------
CPU = [0.0, 0.0, 0.0]       # user, system, elapsed


def spend(seconds):
    CPU[0] += seconds * 0.75
    CPU[1] += seconds * 0.25
    CPU[2] += seconds * 2


def stand_in_clock():
    import time
    CPU[:] = [11.0, 5.0, 100.0]
    os.times = lambda: os.times_result((CPU[0], CPU[1], 7 * CPU[2], 9 * CPU[2], CPU[2]))
    time.process_time = time.thread_time = lambda: CPU[0] + CPU[1]
    time.process_time_ns = time.thread_time_ns = lambda: int((CPU[0] + CPU[1]) * 1e9)
    time.perf_counter = time.monotonic = lambda: CPU[2]
    try:
        import resource
        real = resource.getrusage

        def getrusage(who):
            t = list(real(who))
            t[0], t[1] = CPU[:2]
            return resource.struct_rusage(t)
        resource.getrusage = getrusage
    except ImportError:
        pass


# -- stand-in codecs ------------------------------------------------------------
LOG = []


def make_stub(name, spec):
    """A codec that records each call, emits a number of bytes that depends on all
    it was told, and returns the headers changed as `spec` says."""
    import compressor

    class Processor(compressor.BaseProcessor):
        def __init__(self, options, is_request, params):
            compressor.BaseProcessor.__init__(self, options, is_request, params)
            self.num = len(LOG)
            self.calls = 0
            LOG.append(['new', self.num, name, bool(is_request), list(params)])

        def compress(self, in_headers, host):
            self.calls += 1
            n = (sum(len(k) + len(v) for k, v in in_headers.items()) * spec['mul']
                 + self.calls * spec['inc']) % spec['mod'] + spec['min']
            cost = (n * 7 + self.calls) % 9 * 0.25
            spend(cost)
            LOG.append(['c', self.num, dict(in_headers), host, n, cost])
            self.last = dict(in_headers)
            if spec.get('str'):
                return 'x' * n
            return b'x' * n

        def decompress(self, compressed):
            LOG.append(['d', self.num, len(compressed)])
            spend(3.5)
            if spec.get('none'):
                raise NotImplementedError
            key = json.dumps([self.is_request, self.calls])
            out = dict(self.last)
            for op in spec['ops'].get(key, []):
                out = mutate(out, op)
            LOG.append(['r', self.num, dict(out)])
            return out
    Processor.__module__ = 'compressor.' + name
    m = types.ModuleType('compressor.' + name)
    m.Processor = Processor
    return m


def mutate(h, op):
    h = dict(h)
    what, arg = op[0], op[1:]
    names = sorted(h)
    name = names[arg[0] % len(names)] if names and arg else None
    sep = ';' if name == 'cookie' else '\0'
    if what == 'drop' and name:
        del h[name]
    elif what == 'add':
        h[arg[1]] = arg[2]
    elif what == 'set' and name:
        h[name] = arg[1]
    elif what == 'append' and name:
        h[name] += arg[1]
    elif what == 'upper' and name:
        h[name] = h[name].swapcase()
    elif what == 'rename' and name:
        h[name + arg[1]] = h.pop(name)
    elif what == 'swap' and len(names) > 1:
        o = names[(arg[0] + 1) % len(names)]
        h[name], h[o] = h[o], h[name]
    elif what == 'reverse' and name:
        h[name] = sep.join(reversed(h[name].split(sep)))
    elif what == 'less' and name:
        p = h[name].split(sep)
        h[name] = sep.join(p[1:] or p)
    elif what == 'more' and name:
        h[name] += sep + arg[1]
    elif what == 'twice' and name:
        h[name] += sep + h[name].split(sep)[0]
    elif what == 'blank' and name:
        h[name] = sep.join(' ' + x + '  ' for x in h[name].split(sep))
    elif what == 'empty':
        h = {}
    elif what == 'move' and len(names) > 1:     # a value under another name as well
        o = names[(arg[0] + 1) % len(names)]
        h[o] = h[o] + (';' if o == 'cookie' else '\0') + h[name].split(sep)[0]
    return h


# -- jobs -------------------------------------------------------------------------
def forked(job, body):
    """body() in a child with its own working directory and standard streams."""
    d = tempfile.mkdtemp(prefix='tool-', dir=os.getcwd())
    try:
        for name, text in sorted(job.get('files', {}).items()):
            with open(os.path.join(d, name), 'w', encoding='utf-8') as f:
                f.write(text)
        before = set(os.listdir(d))
        io_dir = tempfile.mkdtemp(prefix='io-', dir=os.getcwd())
        pid = os.fork()
        if pid == 0:
            code = 70
            try:
                os.setsid()
                signal.alarm(150)       # a job takes a fraction of a second
                if os.environ.get('VERIF_NO_LOCALE'):
                    import locale
                    locale.setlocale = lambda *a: None
                os.chdir(job.get('cwd') or d)
                for fd, n in ((1, 'out'), (2, 'err')):
                    f = os.open(os.path.join(io_dir, n), os.O_WRONLY | os.O_CREAT, 0o600)
                    os.dup2(f, fd)
                sys.stdout = io.TextIOWrapper(os.fdopen(1, 'wb', closefd=False),
                                              encoding='utf-8', errors='replace')
                sys.stderr = io.TextIOWrapper(os.fdopen(2, 'wb', closefd=False),
                                              encoding='utf-8', errors='replace')
                try:
                    res = body(d)
                    code = 0
                except SystemExit as e:
                    res = None
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except BaseException:
                    traceback.print_exc()
                    res, code = None, 71
                with open(os.path.join(io_dir, 'res'), 'w') as f:
                    json.dump({'res': res, 'log': LOG}, f)
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
        _, st = os.waitpid(pid, 0)
        try:
            os.killpg(pid, 9)       # codec processes left behind
        except OSError:
            pass
        rec = {'status': os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1}
        for n in ('out', 'err'):
            with open(os.path.join(io_dir, n), 'rb') as f:
                rec[n] = f.read().decode('utf-8', 'replace')
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            rec['hang'] = 1
        if os.path.exists(os.path.join(io_dir, 'res')):
            rec.update(json.load(open(os.path.join(io_dir, 'res'))))
        rec['made'] = {}
        for n in sorted(set(os.listdir(d)) - before):
            with open(os.path.join(d, n), 'rb') as f:
                rec['made'][n] = f.read().decode('utf-8', 'replace')
        shutil.rmtree(io_dir, ignore_errors=True)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def job_cli(job):
    def body(d):
        del LOG[:]
        for name, spec in job.get('stubs', {}).items():
            sys.modules['compressor.' + name] = make_stub(name, spec)
        if job.get('stubs'):
            stand_in_clock()
        sys.argv = ['compare_compressors.py'] + [a.replace('@DIR@', d)
                                                 for a in job['argv']]
        runpy.run_path(os.path.join(REPO, 'compare_compressors.py'), run_name='__main__')
    return forked(job, body)


def job_har(job):
    def body(d):
        from lib import harfile
        if job.get('locale'):           # as the tool does at its start
            import locale
            os.environ['LOCPATH'] = job['locale']
            locale.setlocale(locale.LC_ALL, 'en_US')
        a, b = harfile.read_har_file(os.path.join(d, sorted(job['files'])[0]))
        return [a, b]
    return forked(job, body)


def job_streams(job):
    def body(d):
        m = importlib.import_module('lib.streamifiers.' + job['name'])
        ss = m.Streamifier(list(job['procs'])).streamify(
            [(dict(a), dict(b)) for a, b in job['messages']])
        return [[s.name, s.msg_type, [[h, host] for h, host in s.messages],
                 list(s.procs)] for s in ss]
    return forked(job, body)


def job_codec(job):
    """Plain sessions of a real codec: sizes of what it emits."""
    def body(d):
        class Options(object):
            verbose, debug, baseline = 0, False, 'http1'
        out = []
        for s in job['sessions']:
            m = importlib.import_module('compressor.' + s['codec'])
            p = m.Processor(Options(), s['req'], list(s['params']))
            out.append([len(p.compress(dict(h), host)) for h, host in s['messages']])
        return out
    return forked(job, body)


def job_psl(job):
    from publicsuffix import PublicSuffixList
    psl = PublicSuffixList()
    return {'res': [psl.get_public_suffix(h) for h in job['hosts']]}


KINDS = {'psl': job_psl, 'cli': job_cli, 'har': job_har, 'streams': job_streams, 'codec': job_codec}


def main():
    global OUT
    jobs = json.load(open(sys.argv[1]))
    OUT = open(sys.argv[2], 'w')
    for m in ('compressor', 'lib.harfile', 'lib.streamifiers.public_suffix'):
        try:                            # children inherit them
            importlib.import_module(m)
        except Exception:
            pass
    for j, job in enumerate(jobs):
        try:
            rec = KINDS[job['kind']](job)
            rec['j'] = j
            emit(rec)
        except Exception:
            emit({'j': j, 'fatal': 'toolworker ' + traceback.format_exc()[-1500:]})
        emit({'j': j, 'end': 1})
    OUT.close()
    os._exit(0)


main()
