"""The C++ encoder, its bit bucket, Huffman code and text parser, built from
/repo with sanitizers and driven by mon/cpp/driver.cc."""
import heapq
import os
import random
import re
import shutil
import struct
import subprocess
import tempfile
import time
import zlib
from concurrent.futures import ThreadPoolExecutor

import core
import gen
import refdec
import reference
import sess

REGISTRY = {}
DIRS = ('delta', 'delta_bohe')


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


# -- building and running -----------------------------------------------------------
INC = ['-include', 'cstdint', '-include', 'cmath', '-include', 'array']
SAN = ['clang++', '-g', '-O1', '-std=c++11', '-w', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=undefined', '-D_GLIBCXX_DEBUG', '-fno-omit-frame-pointer']
PLAIN = ['g++', '-g', '-gdwarf-4', '-O1', '-std=c++11', '-w', '-D_GLIBCXX_ASSERTIONS']


class Build(object):
    """Binaries {(dir, kind): path} of the C++ sources as they are now."""
    def __init__(self, kinds=('san',), dirs=DIRS):
        self.tmp = tempfile.mkdtemp(prefix='verif-cpp-')
        self.bin = {}
        jobs = []
        for d in dirs:
            src = os.path.join(core.REPO, 'compressor', d)
            for kind in kinds:
                cc = PLAIN if kind == 'plain' else SAN
                flags = cc + INC + ['-I', src, '-I',
                                    os.path.join(core.REPO, 'compressor', 'spdy3')]
                main = [os.path.join(core.HERE, 'cpp', 'driver.cc')]
                if kind == 'sample':
                    main = [os.path.join(src, 'spdy4_headers_sample.cc'),
                            os.path.join(core.HERE, 'cpp', 'clock.cc')]
                files = main + [
                    os.path.join(src, f) for f in
                    ('spdy4_headers_codec.cc', 'header_freq_tables.cc', 'utils.cc')]
                objs = []
                for f in files:
                    o = os.path.join(self.tmp, '%s-%s-%s.o' % (d, kind,
                                                               os.path.basename(f)))
                    objs.append(o)
                    jobs.append(flags + ['-c', f, '-o', o])
                self.bin[d, kind] = (flags[:1] + [x for x in flags if 'sanitize' in x]
                                     + objs + ['-lz', '-o'],
                                     os.path.join(self.tmp, '%s-%s' % (d, kind)))
        try:
            with ThreadPoolExecutor(core.NPROC) as ex:
                list(ex.map(self.cc, jobs))
                list(ex.map(self.cc, [a + [b] for a, b in self.bin.values()]))
        except BaseException:
            self.close()
            raise
        self.bin = {k: b for k, (a, b) in self.bin.items()}

    def cc(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           cwd=self.tmp)
        if p.returncode:
            raise core.Inconclusive('the C++ sources do not compile: %s'
                                    % p.stdout.decode('latin-1')[-1500:])

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


HUNG = []


def execute(build, key, mode, lines, files=None, timeout=150, valgrind=False,
            said=None, argv=None, clock=None):
    """(answers, failure or None): one answer per line; `failure` says how the
    program ended if it did not answer everything."""
    if HUNG:                    # the verdict is known: do not wait as long again
        timeout = min(timeout, 20)
    tmp = tempfile.mkdtemp(prefix='run-', dir=build.tmp)
    try:
        inp = os.path.join(tmp, 'in.txt')
        with open(inp, 'w') as f:
            f.write(''.join(x + '\n' for x in lines))
        for name, (text, mode_bits) in (files or {}).items():
            with open(os.path.join(tmp, name), 'wb') as f:
                f.write(text)
            os.chmod(os.path.join(tmp, name), mode_bits)
        env = core.environ(False)
        env.update({'ASAN_OPTIONS': 'detect_leaks=1:exitcode=97:abort_on_error=0:'
                    'hard_rss_limit_mb=3500:quarantine_size_mb=48:'
                    'allocator_release_to_os_interval_ms=200:detect_stack_use_after_return=1',
                    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=97'})
        cmd = [build.bin[key]] + ([mode, inp] if argv is None else argv)
        if clock:
            env['VERIF_CLOCK'] = clock
        if valgrind:
            cmd = ['valgrind', '--error-exitcode=97', '--leak-check=full',
                   '--errors-for-leak-kinds=definite', '-q',
                   '--trace-children=no'] + cmd
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.DEVNULL, cwd=tmp, env=env,
                             start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            core.kill_tree(p)
            out, err = p.communicate()
            hung = True
            HUNG.append(key)
        out = out.decode('latin-1').split('\n')
        err = err.decode('latin-1')
        if said is not None:
            said.append(err)
        answers = [x for x in out if x]
        ok = answers and (answers[-1] == 'done' or argv is not None)
        if ok and argv is None:
            answers.pop()
        if p.returncode and ok and 'LeakSanitizer has encountered a fatal error' in err:
            return answers, None            # no leak detection in this environment
        if hung:
            return answers, 'no answer in %d s' % timeout
        if p.returncode or not ok:
            return answers, 'ended with %d: %s' % (p.returncode, digest(err))
        return answers, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def digest(err):
    keep = [x for x in err.split('\n')
            if re.search(r'ERROR|runtime error|Error:|Assert|SUMMARY|uninit|Invalid|lost|'
                         r'^\s+#[0-4] |==.*(at|by) 0x|Oops|logic error', x)]
    return ' | '.join(x.strip()[:180] for x in (keep or err.split('\n')[-6:]))[:1500]


def parallel(f, items):
    with ThreadPoolExecutor(core.NPROC) as ex:
        return list(ex.map(f, items))


def hx(s):
    if isinstance(s, str):
        s = s.encode('latin-1')
    return s.hex() or '-'


def unhx(s):
    return b'' if s == '-' else bytes.fromhex(s)


# -- sessions of the encoder ----------------------------------------------------------
class Session(object):
    """Commands for one encoder and what has to come of them."""
    def __init__(self, sid, r, n, hostile=False):
        self.sid, self.r, self.hostile = sid, r, hostile
        self.req = r.random() < .5
        self.profile = r.choice(['web', 'web', 'tiny', 'churn', 'churn', 'wide', 'ranges',
                                 'groups', 'lengths', 'mixed', 'alternate'])
        self.g = gen.Gen(r.getrandbits(32), self.profile, self.req, latin1=True)
        self.state = r.choice([-1, -1, -1, 0, 1, 100, 1000, 2000, 4000, 10000, 200000])
        self.vals = r.choice([-1, -1, -1, 0, 1, 10, 64, 65, 66, 70, 80, 128, 300, 5000])
        self.cmds = [('new',)]
        self.ngroups = r.choice([1, 1, 1, 2, 5, 40])
        for i in range(n):
            if r.random() < .02:
                self.cmds.append(('limits', r.choice([-1, 0, 500, 3000, 65536]),
                                  r.choice([-1, 0, 64, 70, 100, 1024])))
            self.cmds.append(('frame', self.stream(), r.choice(
                [1, 1, r.randint(1, self.ngroups)]) if self.ngroups > 1 else 1,
                r.choice([0, 1]), r.choice([0, 1]), self.items()))
        self.cmds.append(('end',))

    def stream(self):
        r = self.r
        return r.choice([1, 1, 3, 5, 1234, 0x7fff, 0x10000, 0x7fff7fff,
                         r.getrandbits(31) & ~0x8000])

    def items(self):
        h, host = self.g.message()
        items = []
        for k, v in h.items():
            for part in v.split('\0'):
                items.append((k, part))
        r = self.r
        if r.random() < .08:
            items.append(('cookie', '; '.join(
                self.g.word(1, 3) + '=' + self.g.word(0, 4) for _ in range(
                    r.randint(1, 8))) + r.choice(['', ';', '; ', ';  '])))
        if r.random() < .03:
            items.append((r.choice(['', 'x\0y', '\xff\xfe', 'a: b']),
                          r.choice(['', '\0', '\r\n', '\xff' * 9])))
        if self.hostile:
            if r.random() < .1 and items:
                items += [r.choice(items) for _ in range(r.randint(1, 4))]
            if r.random() < .01:
                items.append(('big', chr(r.randint(0, 255)) * r.choice([5000, 20000, 60000, 70000])))
            if r.random() < .01:
                items += [('k%d' % r.randint(0, 9999), 'v%d' % i)
                          for i in range(r.randint(250, 900))]
            r.shuffle(items)
            return items
        if r.random() < .015:
            # more operations of one kind than a count byte holds, or just as many
            n = r.choice([254, 255, 256, 257, 300, 509, 510, 511, 512, 600, 800])
            some = sorted(r.sample(range(1000), n)) if r.random() < .5 else range(n)
            k, same = r.choice('abc'), r.random() < .3
            how = r.choice(['names', 'values', 'cookie'])
            if how == 'names':
                items += [('%s-%d' % (k, i), 'v' if same else '%x' % i) for i in some]
            elif how == 'values':
                items += [(k, '%s%x' % ('' if same else 'v', i)) for i in some]
            else:
                items.append(('cookie', '; '.join('%s%d=%x' % (k, i, i) for i in some)))
            r.shuffle(items)
        seen, out = set(), []
        for k, v in items:
            cs = crumbs(k, v)
            if len(set(cs)) == len(cs) and not seen & set(cs):
                seen.update(cs)
                out.append((k, v))
        return out

    def lines(self):
        for c in self.cmds:
            if c[0] == 'new':
                yield 'new %d %s %d %d' % (self.sid, 'req' if self.req else 'res',
                                           self.state, self.vals)
            elif c[0] == 'limits':
                yield 'limits %d %d %d' % (self.sid, c[1], c[2])
            elif c[0] == 'end':
                yield 'end %d' % self.sid
            else:
                yield 'frame %d %d %d %d %d %d %s' % (
                    self.sid, c[1], c[2], c[3], c[4], len(c[5]),
                    ' '.join(hx(k) + ' ' + hx(v) for k, v in c[5]))

    def tag(self):
        return {'profile': self.profile, 'request': self.req, 'state': self.state,
                'vals': self.vals, 'groups': self.ngroups, 'frames': len(self.cmds) - 2}


def crumbs(k, v):
    """A cookie with separators travels as one field per crumb."""
    if k != 'cookie' or ';' not in v:
        return [(k, v)]
    parts = v.split(';')
    out = [parts[0]] + [p.lstrip(' ') for p in parts[1:]]
    # spaces at the very end are no crumb
    if not out[-1]:
        out.pop()
    return [(k, p) for p in out]


def weave(r, sessions):
    """The commands of several sessions, interleaved: [(session, number, line)]"""
    queues = [(s, list(enumerate(s.lines()))) for s in sessions]
    out = []
    while queues:
        k = r.randrange(len(queues))
        s, q = queues[k]
        for _ in range(r.randint(1, 6)):
            if q:
                n, line = q.pop(0)
                out.append((s, n, line))
        if not q:
            queues.pop(k)
    return out


def default_entries():
    """The static entries are constants of the format; their list is read once
    from the source."""
    if 'defaults' not in reference._consts:
        text = open(os.path.join(core.REPO, 'compressor', 'delta',
                                 'spdy4_headers_codec.cc')).read()
        body = re.search(r'spdy4_default_dict\[\]\[2\] = \{(.*?)\n\};', text, re.S)
        reference._consts['defaults'] = re.findall(r'\{"([^"]*)", "([^"]*)"\}',
                                                   body.group(1)) if body else None
    d = reference._consts['defaults']
    if not d:
        raise core.Inconclusive('the list of default entries was not found')
    return d


class IdStore(object):
    def __init__(self):
        self.free, self.last = set(), 0

    def get(self):
        if self.free:
            i = min(self.free)
            self.free.discard(i)
            return i
        self.last += 1
        return self.last


class Entry(object):
    __slots__ = ('k', 'v', 'id', 'lru')

    def __init__(self, k, v):
        self.k, self.v, self.id, self.lru = k, v, None, False


class Receiver(object):
    """Mirrors the encoder's table from the frames alone (and, for the order of
    eviction, from the order of the fields)."""
    def __init__(self, codes, state, vals):
        self.codes = codes
        self.maxlen = max(len(c) for c in codes)
        self.size, self.nvals = 0, 0
        self.max_size, self.max_vals = 64 * 1024, 1024
        self.kids, self.eids = IdStore(), IdStore()
        self.keys = {b'': [0, 0, 0]}           # key -> [index, entries, pins]
        self.by_id, self.lru, self.groups = {}, {}, {}
        self.evicted = 0
        for k, v in default_entries():
            k, v = k.encode(), v.encode()
            self.key(k)
            self.add(k, v, None)
        self.base = self.size
        self.limits(state, vals)
        self.touched = {}
        self.ops, self.long_runs = {}, 0

    def limits(self, state, vals):
        if state >= 0:
            self.max_size = state
        if vals >= 0:
            self.max_vals = vals

    def key(self, k):
        if k not in self.keys:
            self.space(len(k), 0)
            self.keys[k] = [self.kids.get(), 0, 0]
            self.size += len(k)

    def add(self, k, v, group):
        self.keys[k][2] += 1
        self.space(len(v), 1)
        self.keys[k][2] -= 1
        e = Entry(k, v)
        self.keys[k][1] += 1
        self.nvals += 1
        self.size += len(v)
        e.id = self.eids.get()
        self.by_id[e.id] = e
        if group is not None:
            e.lru = True
            self.touched[e] = 1
            group[k, v] = e
        return e

    def space(self, n, vals):
        while self.nvals + vals > self.max_vals and self.pop():
            pass
        while self.size + n > self.max_size and self.pop():
            pass

    def pop(self):
        if not self.lru:
            return False
        e = next(iter(self.lru))
        del self.lru[e]
        self.evicted += 1
        for g in self.groups.values():
            if g.get((e.k, e.v)) is e:
                del g[e.k, e.v]
        self.eids.free.add(e.id)
        del self.by_id[e.id]
        self.size -= len(e.v)
        self.nvals -= 1
        rec = self.keys[e.k]
        rec[1] -= 1
        if rec[1] == 0 and rec[2] == 0:
            self.kids.free.add(rec[0])
            self.size -= len(e.k)
            del self.keys[e.k]
        return True

    def touch(self, e):
        if e.lru:
            self.lru.pop(e, None)
            self.touched.pop(e, None)
            self.touched[e] = 1

    def frame(self, c, wire):
        """Raises refdec.Bad unless the frame turns the group into the fields."""
        _, stream, gid, end, _, items = c
        want = [(a.encode('latin-1'), b.encode('latin-1')) for k, v in items
                for a, b in crumbs(k, v)]
        group = self.groups.setdefault(gid, {})
        pinned = [k for k, _ in want if k in self.keys]
        for k in pinned:
            self.keys[k][2] += 1
        self.touched = {}
        for kv in want:
            if kv in group:
                self.touch(group[kv])
        if len(wire) < 8:
            raise refdec.Bad('a frame of %d bytes' % len(wire))
        length, flags, sid, kind = struct.unpack('<HBIB', wire[:8])
        if (length, flags, sid, kind) != (0, 1 if end else 0, stream | 0x8000, 8) \
                and (length, flags, sid, kind) != (0, 0 if end else 0, stream | 0x8000, 8):
            raise refdec.Bad('frame header %s for stream %d' % (wire[:8].hex(), stream))
        toggles, clones, kvs = self.parse(wire[8:])
        ons, seen = [], set()
        for i in toggles:
            if i in seen:
                raise refdec.Bad('entry %d is toggled twice' % i)
            seen.add(i)
            e = self.by_id.get(i)
            if e is None:
                raise refdec.Bad('toggle of entry %d, which does not exist' % i)
            if group.get((e.k, e.v)) is e:
                del group[e.k, e.v]
            elif (e.k, e.v) in group:
                raise refdec.Bad('the field %r is switched on twice' % ((e.k, e.v),))
            else:
                ons.append(e)
        place = {kv: n for n, kv in enumerate(want)}
        ons.sort(key=lambda e: place.get((e.k, e.v), -1))
        for e in ons:
            group[e.k, e.v] = e
            self.touch(e)
        names = {rec[0]: k for k, rec in self.keys.items()}
        todo = []
        for i, v in clones:
            if i not in names:
                raise refdec.Bad('clone of name %d, which does not exist' % i)
            todo.append((names[i], v))
            self.keys[names[i]][2] += 1
        for k, v in todo:
            if (k, v) in group:
                raise refdec.Bad('%r is stored although it is on' % ((k, v),))
            self.add(k, v, group)
            self.keys[k][2] -= 1
        for k, v in kvs:
            self.key(k)
            if (k, v) in group:
                raise refdec.Bad('%r is stored although it is on' % ((k, v),))
            self.add(k, v, group)
        if sorted(group) != sorted(want):
            lost = sorted(set(want) - set(group))
            more = sorted(set(group) - set(want))
            raise refdec.Bad('the fields become others: lost %.300r, added %.300r'
                             % (lost, more))
        for k in pinned:
            self.keys[k][2] -= 1
        self.space(0, 0)
        self.lru.update(self.touched)
        return want

    def parse(self, body):
        bits = refdec.Bits(body)
        toggles, clones, kvs = [], [], []
        stage, prev = 0, None
        order = {2: 0, 3: 1, 0: 2, 1: 3, 4: 4}

        def u16():
            bits.align()
            lo, hi = bits.get(8), bits.get(8)
            return lo | hi << 8

        def string():
            return bits.huff(self.codes, self.maxlen).encode('latin-1')
        while bits.left() >= 8 or (bits.i % 8 == 0 and bits.left()):
            bits.align()
            if not bits.left():
                break
            op, count = bits.get(8), bits.get(8)
            if op not in order or not count:
                raise refdec.Bad('operation %d, %d times' % (op, count))
            if order[op] < stage:
                raise refdec.Bad('operation %d out of order' % op)
            if prev == (op, 255):       # one kind, cut after 255
                self.long_runs += 1
            prev = op, count
            stage = order[op]
            self.ops[op] = self.ops.get(op, 0) + count
            for _ in range(count):
                if op == 2:
                    toggles.append(u16())
                elif op == 3:
                    a, b = u16(), u16()
                    if a > b:
                        raise refdec.Bad('toggle range %d-%d' % (a, b))
                    toggles += range(a, b + 1)
                elif op == 0:
                    i = u16()
                    clones.append((i, string()))
                elif op == 1:
                    k = string()
                    kvs.append((k, string()))
                else:
                    raise refdec.Bad('ephemeral field')
        return toggles, clones, kvs


def shards(run, name, count, per, frames, hostile):
    """[(seed, [Session])] of `count` sessions, `per` to a program."""
    out = []
    for i in range(0, count, per):
        seed = sess.seed_of(run.seed, name, i)
        r = random.Random(seed)
        out.append((seed, [Session(k, random.Random(r.getrandbits(64)),
                                   r.randint(2, frames), hostile)
                           for k in range(per)]))
    return out


def replay_of(key, mode, lines, n=None):
    if n is not None:
        lines = lines[:n + 1]
    return {'kind': 'cpp', 'dir': key[0], 'mode': mode, 'build': key[1],
            'lines': lines if sum(map(len, lines)) < 3000000 else lines[-50:]}


@prop('P23')
def p23(run):
    run.rule = ('a case is one frame of the C++ encoder, decoded by the receiver; distinct '
                'by its bytes and fields; non-trivial if it has operations')
    run.assumptions += ['every field occurs once per frame',
                        'at most 60000 entries', 'stream ids without bit 15']
    with Build() as b:
        codes = {}
        for d in DIRS:
            tabs, bad = execute(b, (d, 'san'), 'huff', ['table request', 'table response'])
            if bad:
                run.violation('the Huffman tables of %s: %s' % (d, bad),
                              replay_of((d, 'san'), 'huff', ['table request',
                                                             'table response']))
                return
            for name, line in zip((True, False), tabs):
                codes[d, name] = {code_bits(x): i for i, x in
                                  enumerate(line.split(' ')[1:])}
        work = [(DIRS[n % 2], x) for n, x in enumerate(
            shards(run, 'cpp', run.n(160, 2400), 5, run.n(60, 150), False))]

        def go(item):
            d, (seed, sessions) = item
            plan = weave(random.Random(seed), sessions)
            lines = [p[2] for p in plan]
            return d, plan, lines, execute(b, (d, 'san'), 'codec', lines)
        for d, plan, lines, (answers, bad) in parallel(go, work):
            judge_frames(run, d, plan, lines, answers, bad, codes)
    if not run.violations:
        run.require('frames', 2000)
        run.require('evictions', 1000)
        run.require('runs_over_255', 20)
        for op in range(4):
            run.require('op%d' % op, 100)


def code_bits(x):
    f, n, h = x.split(':')
    return bin(int.from_bytes(b'\1' + unhx(h), 'big'))[3:][:int(n)]


def judge_frames(run, d, plan, lines, answers, bad, codes):
    key = (d, 'san')
    recv = {}
    for n, ((s, k, line), ans) in enumerate(zip(plan, answers)):
        c = s.cmds[k]
        w = ans.split(' ')
        if w[0] != c[0]:
            run.violation('%s: %r answered by %r' % (d, line[:80], ans[:80]),
                          replay_of(key, 'codec', lines, n))
            return
        if c[0] == 'new':
            recv[s.sid] = Receiver(codes[d, s.req], s.state, s.vals)
            if int(w[1]) != recv[s.sid].base:
                run.violation('%s: a new encoder accounts for %s bytes, its entries are %d'
                              % (d, w[1], recv[s.sid].base),
                              replay_of(key, 'codec', lines, n))
                return
        elif c[0] == 'limits':
            recv[s.sid].limits(c[1], c[2])
        elif c[0] == 'frame':
            rx = recv[s.sid]
            before = rx.evicted
            wire = unhx(w[3])
            try:
                want = rx.frame(c, wire)
            except refdec.Bad as e:
                run.violation('%s %r: frame %d cannot be decoded: %s'
                              % (d, s.tag(), k, e), replay_of(key, 'codec', lines, n))
                return
            run.count('frames')
            run.count('evictions', rx.evicted - before)
            run.case((d, w[3], c[5]), len(wire) > 8)
            size = int(w[1])
            mine = sum(len(a) + len(v) for a, v in want)
            if size != rx.size or size > max(rx.max_size, rx.base + mine):
                run.violation('%s %r: after frame %d the encoder accounts for %d bytes, its '
                              'table holds %d, the limit is %d'
                              % (d, s.tag(), k, size, rx.size, rx.max_size),
                              replay_of(key, 'codec', lines, n))
                return
            if c[4] and (int(w[2]) + 7) // 8 != len(wire):
                run.violation('%s: a frame of %d bytes is said to have %s bits'
                              % (d, len(wire), w[2]), replay_of(key, 'codec', lines, n))
                return
            run.peak('peak_entries', len(rx.by_id))
            run.sample({'session': s.tag(), 'entries': len(rx.by_id), 'state': size})
    for rx in recv.values():
        for op, n in rx.ops.items():
            run.count('op%d' % op, n)
        run.count('runs_over_255', rx.long_runs)
    if bad:
        n = min(len(answers), len(lines) - 1)
        run.violation('%s: %s at %r' % (d, bad, lines[n][:120]),
                      replay_of(key, 'codec', lines, n))


# -- memory safety ---------------------------------------------------------------------
TEXTS = [b'', b'\n', b':', b': ', b'a', b'a:', b'a: ', b'a:b', b':a: b', b'a: b', b'a: b\n',
         b'a: b\n\n', b'a: b\n\nc: d\n\n', b'\n\n\n\n\n', b'\0\n\0: \0', b'a: b\r\n\r\n',
         b'x: ' + b'y' * 5000]


def fuzz_text(r):
    x = r.random()
    if x < .2:
        return r.choice(TEXTS)
    if x < .4:
        return bytes(r.choice(b'a: \n\n:b\0\xff') for _ in range(r.randint(0, 60)))
    t = bytearray(text_of(r, 3)[0])
    for _ in range(r.randint(0, 4)):
        if t:
            k = r.randrange(len(t))
            t[k:k + r.randint(0, 2)] = bytes([r.choice(b'\n: \0\xff:')])
    return bytes(t)


@prop('P14')
def p14(run):
    run.rule = ('a case is one call into the C++ sources under the sanitizers; distinct by '
                'its operands; non-trivial unless it is a query')
    run.assumptions += ['ASan, LeakSanitizer and UBSan of clang 18, the debug mode of '
                        'libstdc++ and valgrind report what they are documented to report']
    with Build(('san', 'plain')) as b:
        work = []
        for n, x in enumerate(shards(run, 'mem', run.n(96, 1400), 4, run.n(40, 120), True)):
            seed, sessions = x
            plan = weave(random.Random(seed), sessions)
            work.append(((DIRS[n % 2], 'san'), 'codec', [p[2] for p in plan], {}))
        for n, x in enumerate(shards(run, 'val', run.n(8, 80), 1, run.n(14, 40), True)):
            plan = weave(random.Random(x[0]), x[1])
            lines = [p[2] for p in plan if len(p[2]) < 20000]
            work.append(((DIRS[n % 2], 'plain'), 'codec', lines, {}))
        for n in range(run.n(16, 160)):
            r = random.Random(sess.seed_of(run.seed, 'memtext', n))
            lines = ['%s %s' % (r.choice(['stream', 'stream', 'twice']), hx(fuzz_text(r)))
                     for _ in range(run.n(200, 400))]
            kind = 'plain' if n % 8 > 5 else 'san'
            if kind == 'plain':
                lines = lines[:60]
            work.append(((DIRS[n % 2], kind), 'text', lines, {}))
        for n in range(run.n(12, 120)):
            r = random.Random(sess.seed_of(run.seed, 'membits', n))
            work.append(((DIRS[n % 2], 'san'), 'bits', bits_script(r, run.n(1500, 4000))[0],
                         {}))
            work.append(((DIRS[n % 2], 'plain' if n % 4 == 3 else 'san'), 'huff',
                         huff_script(r, 2 if n % 4 == 3 else 4, 30), {}))
            work.append(((DIRS[n % 2], 'plain' if n % 4 == 2 else 'san'), 'spdy3',
                         [x[0] for x in spdy3_script(r, 40)], {}))

        def go(item):
            key, mode, lines, files = item
            return item, execute(b, key, mode, lines, files, timeout=600,
                                 valgrind=key[1] == 'plain')
        for (key, mode, lines, _), (answers, bad) in parallel(go, work):
            for line in lines[:len(answers)]:
                run.case((mode, line), not line.startswith('show'))
            run.count('%s_%s' % (mode, 'valgrind' if key[1] == 'plain' else 'sanitized'),
                      len(answers))
            if bad:
                n = min(len(answers), len(lines) - 1)
                run.violation('%s/%s: %s at or before %r' % (key[0], mode, bad,
                                                             lines[n][:120]),
                              replay_of(key, mode, lines))
            if mode == 'codec':
                run.sample({'commands': [x[:100] for x in lines[:3]]})
    if not run.violations:
        for m in ('codec', 'bits', 'huff', 'text', 'spdy3'):
            run.require(m + '_sanitized', 100)
        run.require('codec_valgrind', 50)


# -- bit bucket and Huffman --------------------------------------------------------------
class BitModel(object):
    """A queue of bits with a read position; aligned stores pad with zeros."""
    def __init__(self):
        self.s, self.i = '', 0

    def by(self):
        return bytes(int(self.s[k:k + 8].ljust(8, '0'), 2)
                     for k in range(0, len(self.s), 8))

    def put(self, data, n=None):
        bits = ''.join('{0:08b}'.format(c) for c in data)
        self.s += bits if n is None else bits[:n]

    def pad(self):
        self.s += '0' * (-len(self.s) % 8)

    def show(self):
        text = ''.join(('|' if k % 8 == 0 else '') + c for k, c in enumerate(self.s))
        return '%d %d %d %d %s %s [%d,%d]' % (
            len(self.s), self.i, self.i >= len(self.s), (len(self.s) + 7) // 8,
            self.by().hex() or '-', text, len(self.s), len(self.s) % 8)


def pack(bits):
    return bytes(int(bits[k:k + 8].ljust(8, '0'), 2) for k in range(0, len(bits), 8))


def bits_script(r, n):
    lines, want = [], []
    m = BitModel()
    bias = r.choice([.35, .5, .7])
    while len(lines) < n:
        x = r.random()
        if len(m.s) > 4000 or x < .02:
            op = r.choice(['clear', 'fresh'])
            m = BitModel()
            lines.append(op)
            want.append(op)
            continue
        if x < .12:
            lines.append('show')
            want.append('show ' + m.show())
            continue
        if r.random() < bias:
            op = r.choice(['bit', 'bit', 's8', 's16', 's32', 'bits', 'bits', 'bits', 'bytes',
                           'a8', 'a16', 'a32', 'av'])
            if op == 'bit':
                v = r.choice([0, 1, 1])
                m.s += str(v)
                line = 'bit %d' % v
            elif op in ('bits', 'bytes', 'av'):
                k = r.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 24, r.randint(1, 100)])
                if op != 'bits':
                    k = (k + 7) // 8 * 8
                data = bytes(r.choice([0, 255, r.randint(0, 255)])
                             for _ in range((k + 7) // 8))
                if op == 'av':
                    m.pad()
                if r.random() < .03:
                    k, data = 0, b''
                m.put(data, k)
                line = 'bits %d %s' % (k, hx(data)) if op == 'bits' else '%s %s' % (
                    op, hx(data))
            else:
                w = int(op[1:])
                v = r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), r.getrandbits(w)])
                data = v.to_bytes(w // 8, 'big' if op[0] == 's' else 'little')
                if op[0] == 'a':
                    m.pad()
                m.put(data)
                line = '%s %d' % (op, v)
            lines.append(line)
            want.append(op)
            continue
        op = r.choice(['get', 'get', 'get', 'getbit', 'word', 'seek', 'consume', 'overread'])
        left = len(m.s) - m.i
        if op == 'get':
            k = min(left, r.choice([0, 1, 3, 7, 8, 9, 16, 31, r.randint(0, 90), left]))
            if k < 0:
                continue
            lines.append('get %d' % k)
            want.append('get ' + hx(pack(m.s[m.i:m.i + k])))
            m.i += k
        elif op == 'getbit':
            if left <= 0:
                continue
            lines.append(op)
            want.append('getbit ' + m.s[m.i])
            m.i += 1
        elif op == 'word':
            k = r.choice([0, 1, 5, 8, 17, 31, 32])
            w = r.getrandbits(32)
            if left < 0:
                continue
            got = m.s[m.i:m.i + k].ljust(k, '0')
            lines.append('word %d %d' % (w, k))
            want.append('word %d' % ((w << k | int(got or '0', 2)) & 0xffffffff))
        elif op == 'seek':
            k = r.randint(0, len(m.s))
            lines.append('seek %d' % k)
            want.append('seek')
            m.i = k
        elif op == 'consume':
            if left <= 0:
                continue
            k = r.randint(0, left)
            lines.append('consume %d' % k)
            want.append('consume')
            m.i += k
        elif r.random() < .02 and left >= 0:
            lines.append('overread %d' % (left + r.choice([1, 2, 7, 8, 9, 64])))
            want.append('overread refused')
    return lines, want


def random_table(r):
    kind = r.choice(['flat', 'random', 'skewed', 'fib', 'zeros', 'one', 'big', 'mixed',
                     'rare'])
    if kind == 'flat':
        t = [r.choice([0, 1, 7])] * 257
    elif kind == 'random':
        t = [r.randint(0, 1000) for _ in range(257)]
    elif kind == 'skewed':
        t = [int(4e9 / (k + 1) ** r.uniform(1, 6)) for k in range(257)]
    elif kind == 'fib':                 # as deep as 32 bit weights can make it
        t, a, b = [], 1, 1
        for k in range(257):
            t.append(min(a, 0xfffffff0))
            a, b = (b, a + b) if b < 0xf0000000 else (a, b)
    elif kind == 'rare':
        n = r.randint(2, 256)
        t = [r.choice([1, 1, 2, r.randint(1, 9)]) for _ in range(n)] + [0] * (257 - n)
    elif kind == 'zeros':
        t = [r.choice([0, 0, 0, 0, r.randint(1, 50)]) for _ in range(257)]
    elif kind == 'one':
        t = [0] * 257
        t[r.randrange(257)] = r.randint(1, 0xffffffff)
    elif kind == 'big':
        t = [r.choice([0, 1, 0xffffffff, r.getrandbits(32)]) for _ in range(257)]
    else:
        t = [2 ** r.randint(0, 31) for _ in range(257)]
    if kind != 'skewed' or r.random() < .5:
        r.shuffle(t)
    return t


def huff_script(r, tables, texts):
    lines = []
    for k in range(tables):
        x = r.random()
        if x < .25:
            name = r.choice(['request', 'response'])
            lines.append('table ' + name)
        else:
            lines.append('table %s %s' % (
                'again' if x > .85 and k else 'given', ' '.join(map(str, random_table(r)))))
        for _ in range(texts):
            n = r.choice([0, 1, 2, 5, 20, 20, 100])
            alpha = r.choice(['abcdefghij/.-=;0123456789', ''.join(map(chr, range(256)))])
            text = ''.join(r.choice(alpha) for _ in range(n))
            eof = r.choice([0, 1])
            limit = r.choice([0, 1, 2]) if eof else 1
            lines.append('code %d %d %d %d %s' % (r.choice([0, 0, 1, 3, 7, 8, 13]), eof, limit,
                                                  r.choice([0, 0, 1, 8, 40, 41]), hx(text)))
    return lines


def best_cost(freqs):
    """Cost of an optimal prefix code for the frequencies."""
    q = [(f, 0) for f in freqs]
    heapq.heapify(q)
    total = 0
    while len(q) > 1:
        a, b = heapq.heappop(q)[0], heapq.heappop(q)[0]
        total += a + b
        heapq.heappush(q, (a + b, 0))
    return total


def check_table(line, given):
    """{symbol: bits} of a table the driver printed, or a complaint."""
    parts = line.split(' ')[1:]
    if len(parts) != 257:
        return 'a table of %d codes' % len(parts)
    freqs = [int(p.split(':')[0]) for p in parts]
    if given is not None and freqs != given:
        return 'driver error'
    codes = [code_bits(p) for p in parts]
    if any(not c or len(c) > 32 for c in codes):
        return 'a code of no or more than 32 bits'
    order = sorted(codes)
    for a, b in zip(order, order[1:]):
        if b.startswith(a):
            return 'the code %s is a prefix of %s' % (a, b)
    if sum(2 ** (32 - len(c)) for c in codes) != 2 ** 32:
        return 'the code is not complete'
    cost = sum(f * len(c) for f, c in zip(freqs, codes))
    best = best_cost(freqs)
    if cost != best and max(map(len, codes)) < 30 and best < 2 ** 50:
        # a longer code may have been cut to 32 bits by scaling the weights
        if optimal_depth(freqs) <= 32:
            return 'the code costs %d, an optimal one %d' % (cost, best)
    by_len = sorted(range(257), key=lambda s: (len(codes[s]), s))
    if [codes[s] for s in by_len] != sorted(codes):
        return 'the code is not canonical'
    return freqs, codes


def optimal_depth(freqs):
    """Depth of the deepest optimal code (ties broken towards depth)."""
    q = [(f, -0, n) for n, f in enumerate(freqs)]
    heapq.heapify(q)
    n = len(q)
    while len(q) > 1:
        a, b = heapq.heappop(q), heapq.heappop(q)
        heapq.heappush(q, (a[0] + b[0], min(a[1], b[1]) - 1, n))
        n += 1
    return -q[0][1]


@prop('P15')
def p15(run):
    run.rule = ('a case is one call of BitBucket or one string coded; distinct by the calls '
                'before it; non-trivial unless it is a query')
    with Build() as b:
        work = []
        for n in range(run.n(64, 640)):
            r = random.Random(sess.seed_of(run.seed, 'bits', n))
            lines, want = bits_script(r, run.n(1500, 3000))
            work.append((DIRS[n % 2], 'bits', lines, want))
        for n in range(run.n(64, 640)):
            r = random.Random(sess.seed_of(run.seed, 'huff', n))
            lines = huff_script(r, 5, run.n(40, 60))
            if n < 4:
                lines = ['table request', 'table response'] + lines
            work.append((DIRS[n % 2], 'huff', lines, None))

        def go(item):
            return item, execute(b, (item[0], 'san'), item[1], item[2])
        for (d, mode, lines, want), (answers, bad) in parallel(go, work):
            key = (d, 'san')
            if mode == 'bits':
                for n, (line, w, a) in enumerate(zip(lines, want, answers)):
                    run.count('bit_calls')
                    run.count(w.split(' ')[0] + '_calls')
                    if w != a:
                        run.violation('%s: BitBucket %r answers %.200r instead of %.200r'
                                      % (d, line[:80], a, w),
                                      replay_of(key, mode, lines, n))
                        break
                run.case((d, tuple(lines)))
                run.evaluations += len(answers) - 1
                run.sample({'calls': lines[:6], 'answers': answers[:6]})
            else:
                judge_huff(run, key, lines, answers)
            if bad:
                n = min(len(answers), len(lines) - 1)
                run.violation('%s: %s at %r' % (d, bad, lines[n][:120]),
                              replay_of(key, mode, lines, n))
    if not run.violations:
        run.require('bit_calls', 10000)
        run.require('strings', 2000)
        run.require('tables', 100)
        run.require('overread_calls', 10)


def judge_huff(run, key, lines, answers):
    codes = None
    for n, (line, ans) in enumerate(zip(lines, answers)):
        w, a = line.split(' '), ans.split(' ')
        bad = None
        if w[0] == 'table':
            given = list(map(int, w[2:])) or None
            res = check_table(ans, given)
            if isinstance(res, str):
                bad = res
            else:
                codes = res[1]
                run.count('tables')
                run.peak('longest_code', max(map(len, codes)))
        else:
            lead, eof, limit, tail = map(int, w[1:5])
            text = unhx(w[5])
            bits = ''.join('01'[k & 1] for k in range(lead)) + ''.join(
                codes[c] for c in text) + (codes[256] if eof else '')
            run.case((key[0], n, line))
            run.count('strings')
            used = 0
            if len(a) != 5 or int(a[1]) != len(bits) or unhx(a[2]) != pack(bits):
                bad = 'encoding %.200r gives %.300r' % (text, ans)
            else:
                if len(bits) > lead and (eof or text):
                    used = len(bits)
                if unhx(a[3]) != text:
                    bad = '%.200r decodes to %.200r' % (text, unhx(a[3]))
                # the decoder looks at most one word ahead
        if bad:
            run.violation('%s: %r: %s' % (key[0], line[:100], bad),
                          replay_of(key, 'huff', lines, n))
            return False
    return True


# -- header text -----------------------------------------------------------------------
def text_of(r, n, odd=True):
    """(text, requests, responses)"""
    frames = []
    for _ in range(2 * n):
        f = []
        for _ in range(r.choice([0, 1, 1, 2, 5, 12]) if odd else r.randint(1, 9)):
            k = r.choice([':host', ':path', 'a', 'x-a', 'Cookie', 'date', ':a', 'x y', '\xe9',
                          'k' * r.randint(1, 300)])
            v = r.choice(['', ' ', 'b', 'a: b', ': ', 'x:y', '12:00:00', ' lead', 'trail ',
                          '\r', '\xff\0', 'v' * r.randint(1, 700)])
            f.append((k, v))
        frames.append(f)
    text = ''.join(''.join('%s: %s\n' % kv for kv in f) + '\n' for f in frames)
    return text.encode('latin-1'), frames[0::2], frames[1::2]


def parse_frames(words):
    """[requests, responses] as the driver prints them"""
    it = iter(words)
    out = []
    for _ in range(2):
        fs = []
        for _ in range(int(next(it))):
            fs.append([(unhx(next(it)).decode('latin-1'), unhx(next(it)).decode('latin-1'))
                       for _ in range(int(next(it)))])
        out.append(fs)
    return out


def trim(frames, n):
    """The frames, without empty ones past the n that there are."""
    rest = frames[n:]
    return frames[:n] + [f for f in rest if f]


@prop('P16')
def p16(run):
    run.rule = ('a case is one text of requests and responses parsed, from a stream, a file '
                'or the output of a child process; distinct by its bytes; non-trivial if it '
                'has fields')
    run.assumptions += ['frames that are empty at the very end of a text are not counted']
    with Build() as b:
        work = []
        for n in range(run.n(48, 480)):
            r = random.Random(sess.seed_of(run.seed, 'text', n))
            lines, want, files = [], [], {'harfile_translator.py':
                                          (b'#!/bin/sh\nexec cat "$1"\n', 0o755)}
            for k in range(run.n(120, 250)):
                how = r.choice(['stream', 'stream', 'stream', 'file', 'har', 'bad', 'twice'])
                text, req, res = text_of(r, r.choice([1, 1, 2, 5, 20]))
                if how == 'har':
                    if k % 4:
                        how = 'stream'
                line = None
                if how == 'bad':
                    text, line = break_line(r, text)
                    if text is None:
                        continue
                    how = r.choice(['bad stream', 'bad stream', 'bad file', 'bad har'])
                    if how == 'bad har' and k % 2:
                        how = 'bad file'
                op = how.split()[-1]
                if op in ('file', 'har'):
                    name = 'f%d' % k
                    files[name] = (text, 0o644)
                    lines.append(op + ' ' + hx(name))
                else:
                    lines.append(op + ' ' + hx(text))
                want.append((how, req, res, text, line))
            work.append((DIRS[n % 2], lines, want, files))

        def go(item):
            said = []
            done = execute(b, (item[0], 'san'), 'text', item[1], item[3], said=said)
            return item, done, said[0].split('\n@@@@text\n')[1:]
        for (d, lines, want, files), (answers, bad), said in parallel(go, work):
            key = (d, 'san')
            for n, ((how, req, res, text, line), ans) in enumerate(zip(want, answers)):
                w = ans.split(' ')
                rep = replay_of(key, 'text', ['stream ' + hx(text)])
                run.case((how, text), bool(any(req) or any(res)))
                run.count(how)
                if how.startswith('bad'):
                    if w[1] != '0':
                        run.violation('%s: %s: a line without a separator is accepted: %.200r'
                                      % (d, how, text), rep)
                    elif line not in said[n]:
                        run.violation('%s: %s: the refusal does not name the line %.200r: '
                                      '%.300r' % (d, how, line, said[n]), rep)
                    continue
                if how == 'twice':
                    if w[1] == '1':
                        run.violation('%s: vectors with frames in them are not refused' % d,
                                      rep)
                    continue
                got = parse_frames(w[2:])
                if w[1] != '1':
                    run.violation('%s: %s: a text is refused: %.300r' % (d, how, text), rep)
                    break
                # an empty request at the end cannot be told from the end
                for name, a, g in (('request', req, got[0]), ('response', res, got[1])):
                    while a and not a[-1]:
                        a = a[:-1]
                    g = trim(g, len(a))
                    if a != g:
                        k = next((i for i, (x, y) in enumerate(zip(a, g)) if x != y),
                                 min(len(a), len(g)))
                        run.violation('%s: %s: %d %ss become %d, number %d %.300r becomes '
                                      '%.300r' % (d, how, len(a), name, len(g), k,
                                                  a[k:k + 1], g[k:k + 1]), rep)
                        break
                    run.count('frames', len(a))
                    run.count('fields', sum(map(len, a)))
                run.sample({'text': text[:120].decode('latin-1'), 'how': how})
            if bad:
                n = min(len(answers), len(lines) - 1)
                run.violation('%s: %s at %r' % (d, bad, lines[n][:200]),
                              replay_of(key, 'text', lines, n))
    if not run.violations:
        for k in ('stream', 'file', 'har', 'twice', 'bad stream', 'bad file', 'bad har'):
            run.require(k, 50)
        run.require('fields', 5000)


def break_line(r, text):
    """The text with one line that has no separator, and the line, or None twice."""
    lines = text.decode('latin-1').split('\n')
    full = [k for k, x in enumerate(lines) if x]
    if not full:
        return None, None
    k = r.choice(full)
    name = lines[k].split(':', 2)[0] or 'x'
    lines[k] = r.choice([name, ':' + name, name + ':', name + ':x', ' ', name + ':  '[:2],
                         ':', name + '=y', name + ':x: y'])
    x = lines[k]
    p = x.find(':', 1)
    if p >= 0 and x[p + 1:p + 2] == ' ':
        return None, None
    return '\n'.join(lines).encode('latin-1'), x


# -- SPDY/3 of the sample program ---------------------------------------------------------
def spdy3_script(r, n):
    """[(line, session, leading bytes, fields)]"""
    out = []
    g = gen.Gen(r.getrandbits(32), r.choice(['web', 'churn', 'lengths', 'mixed']),
                r.random() < .5, latin1=True)
    for _ in range(n):
        s = r.choice([1, 1, 2, 3])
        lead = bytes(r.randint(0, 255) for _ in range(r.choice([0, 0, 3, 20])))
        x = r.random()
        if x < .05:
            items = []
        elif x < .1:
            items = [('x', ''.join(chr(r.randint(0, 255)) for _ in range(
                r.choice([1000, 1000, 20000, 65000, 70000, 200000]))))]
        else:
            items = [(k, p) for k, v in g.message()[0].items() for p in v.split('\0')]
        line = '%d %s %d %s' % (s, hx(lead), len(items),
                                ' '.join(hx(k) + ' ' + hx(v) for k, v in items))
        out.append((line, s, lead, items))
    return out


@prop('P24')
def p24(run):
    run.rule = ('a case is one frame of the SPDY/3 formatter of the sample program, '
                'inflated; distinct by its fields; non-trivial if it has any')
    z = reference.zdict()
    with Build() as b:
        work = []
        for n in range(run.n(48, 480)):
            r = random.Random(sess.seed_of(run.seed, 'spdy3', n))
            work.append((DIRS[n % 2], spdy3_script(r, run.n(60, 150))))

        def go(item):
            return item, execute(b, (item[0], 'san'), 'spdy3', [x[0] for x in item[1]])
        for (d, script), (answers, bad) in parallel(go, work):
            key = (d, 'san')
            lines = [x[0] for x in script]
            inflate = {}
            for n, ((line, s, lead, items), ans) in enumerate(zip(script, answers)):
                out = unhx(ans.split(' ')[1])
                rep = replay_of(key, 'spdy3', lines, n)
                what = spdy3_frame(out, lead, items, inflate.setdefault(
                    s, zlib.decompressobj(zdict=z)))
                run.case((line,), bool(items))
                run.count('frames')
                if what:
                    run.violation('%s: SPDY/3 frame %d: %s' % (d, n, what), rep)
                    break
                run.count('bytes', len(out))
                run.count('frames_over_64k', len(out) > 65543)
            if bad:
                n = min(len(answers), len(lines) - 1)
                run.violation('%s: %s at %r' % (d, bad, lines[n][:120]),
                              replay_of(key, 'spdy3', lines, n))
            run.sample({'frames': len(answers), 'first': lines[0][:100]})
    if not run.violations:
        run.require('frames', 2000)
        run.require('frames_over_64k', 20)


def spdy3_frame(out, lead, items, z):
    if out[:len(lead)] != lead:
        return 'what was in the buffer before is changed'
    f = out[len(lead):]
    if f[:5] != b'\x80\3\0\x08\0':
        return 'frame header %s' % f[:5].hex()
    length = int.from_bytes(f[5:8], 'big')
    if length != len(f) - 8:
        return 'length %d in a frame of %d bytes after it' % (length, len(f) - 8)
    if f[8:12] != b'\0\0\0\1':
        return 'stream id %s' % f[8:12].hex()
    try:
        block = z.decompress(f[12:])
    except zlib.error as e:
        return 'does not inflate: %s' % e
    want = struct.pack('>I', len(items))
    for k, v in items:
        for x in (k, v):
            x = x.encode('latin-1')
            want += struct.pack('>I', len(x)) + x
    if block != want:
        return 'inflates to %.200r instead of %.200r' % (block, want)
    return None


# -- the sample program as a whole ------------------------------------------------------
SUMMARY = re.compile(
    r'#+ *(\S+) *#+\s+'
    r'Compression took: (\S+) seconds for: (\d+)\*(\d+) header frames '
    r'\((\d+) total header frames\) or (\S+) headers/sec or (\S+) bytes/sec\s+'
    r'Compression ratio: (\S+) = compressed bytes\((\d+)\) / uncompressed_bytes\((\d+)\)')
PROTOCOLS = ['spdy3', 'spdy4']


def sample_case(r):
    """(files {name: (text, requests)}, clock lines)"""
    files = {}
    n = r.choice([1, 1, 2, 4])
    for k in range(n):      # an empty request at the end cannot be told from the end
        text, req, _ = text_of(r, r.choice([1, 2, 6, 30]), odd=k < n - 1 and r.random() < 0.5)
        files['cap %d.har' % k if r.random() < 0.3 else 'c%d' % k] = text, req
    big = 10 ** 9
    steps = [r.choice([big * r.randint(1, 6), r.randint(big // 10, 8 * big),
                       big * r.randint(1, 3) + r.choice([0, 1, big - 1])])
             for _ in range(29)]
    return files, [str(r.randint(0, 10 ** 13))] + [str(x) for x in steps]


def number(a, b):
    """Is the printed number a the number b, to five digits?"""
    return abs(float(a) - b) <= 2e-5 * abs(b) + 1e-6


@prop('P30')
def p30(run):
    run.rule = ('a case is one run of the sample program: its captures and its clock; '
                'distinct by both; non-trivial if it prints a summary')
    run.assumptions += ['the clock is a stand-in whose steps the case chooses', 'captures '
                        'hold at least one request with a header']
    script = (b'#!/bin/sh\nexec cat "$@"\n', 0o755)
    with Build(('san', 'sample')) as b:
        work = []
        for n in range(run.n(80, 800)):
            r = random.Random(sess.seed_of(run.seed, 'sample', n))
            work.append((DIRS[n % 2],) + sample_case(r))

        def go(item):
            d, files, clock = item
            lay = {name: (text, 0o644) for name, (text, _) in files.items()}
            lay['harfile_translator.py'] = script
            said = []
            done = execute(b, (d, 'sample'), 'sample', [], lay, said=said,
                           argv=list(files), clock=' '.join(clock))
            frames = requests_of(files)
            totals = {}
            m = {x[0]: x for x in SUMMARY.findall('\n'.join(done[0]))}
            limits = [int(x.split()[-1]) for x in done[0][:12] if x.startswith('Max ')]
            for name, x in m.items():
                it = int(x[2])
                if 0 < it * len(frames) <= 30000 and name in PROTOCOLS and \
                        len(limits) == 2:
                    totals[name] = bytes_of(b, d, name, limits, frames, it)
            return item, done, said[0], frames, m, totals
        for (d, files, clock), (answers, bad), err, frames, m, totals in parallel(go, work):
            rep = {'kind': 'sample', 'dir': d, 'clock': clock, 'files': {
                k: x[0].decode('latin-1') for k, x in files.items()}}
            run.case((d, tuple(clock), tuple(x[0] for x in files.values())), bool(m))
            if bad:
                run.violation('%s: the sample program %s' % (d, bad), rep)
                continue
            what = judge_sample(run, answers, err, frames, m, totals)
            if what:
                run.violation('%s: %d frames: %s' % (d, len(frames), what), rep)
                continue
            run.count('runs')
            run.count('frames', len(frames))
            run.sample({'captures': list(files), 'summary': {k: x[1:] for k, x in m.items()}})
    if not run.violations:
        run.require('runs', 60)
        run.require('frames', 500)


def requests_of(files):
    """The requests the program gets: the captures one after the other."""
    return [f for _, req in files.values() for f in req]


def bytes_of(b, d, name, limits, frames, times):
    """The bytes all frames take, encoded so often by one encoder."""
    if name == 'spdy4':
        lines = ['new 0 req %d %d' % tuple(limits)]
        lines += ['frame 0 1 1 1 1 %d%s' % (len(f), ''.join(
            ' %s %s' % (hx(k), hx(v)) for k, v in f)) for f in frames] * times
        answers, bad = execute(b, (d, 'san'), 'codec', lines)
        sizes = [0 if w[3] == '-' else len(w[3]) // 2
                 for w in (x.split(' ') for x in answers) if w[0] == 'frame']
    else:
        lines = ['0 - %d%s' % (len(f), ''.join(
            ' %s %s' % (hx(k), hx(v)) for k, v in f)) for f in frames] * times
        answers, bad = execute(b, (d, 'san'), 'spdy3', lines)
        sizes = [len(unhx(x.split(' ')[1])) for x in answers]
    return None if bad or len(sizes) != times * len(frames) else sum(sizes)


def judge_sample(run, answers, err, frames, m, totals):
    if sorted(m) != PROTOCOLS:
        return 'there are summaries of %s: %.500r' % (sorted(m), '\n'.join(answers[-14:]))
    clock = [int(x) / 1e9 for x in err.split('@@@@clock')[-1].split('\n')[0].split()] \
        if '@@@@clock' in err else []
    size = sum(len(k) + len(v) for f in frames for k, v in f)
    for name in PROTOCOLS:
        _, secs, it, n, all_n, per_h, per_b, ratio, packed, plain = m[name]
        it, packed = int(it), int(packed)
        if it < 1 or int(n) != len(frames) or int(all_n) != it * len(frames):
            return '%s: %d*%s = %s frames' % (name, it, n, all_n)
        if int(plain) != it * size:
            return '%s: %s bytes of headers, there are %d * %d' % (name, plain, it, size)
        if name in totals and packed != totals[name]:
            return '%s: %d bytes are said, %r were produced' % (name, packed, totals[name])
        run.count('totals_compared', name in totals)
        if not number(ratio, packed / (it * size)):
            return '%s: the ratio of %d to %d is said to be %s' % (name, packed, it * size,
                                                                  ratio)
        if 2 * it < len(clock) < 3000:
            gaps = [(y - x) for j, y in enumerate(clock) for x in clock[:j]]
            if not any(number(secs, g) for g in gaps):
                return '%s: took %s s, which is no span of the clock' % (name, secs)
            t = min(gaps, key=lambda g: abs(g - float(secs)))
            if not number(per_h, it * len(frames) / t) or not number(per_b, it * size / t):
                return '%s: %s headers/s and %s bytes/s, should be %g and %g' % (
                    name, per_h, per_b, it * len(frames) / t, it * size / t)
            run.count('times_compared')
    return None
