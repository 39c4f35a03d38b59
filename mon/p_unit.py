"""The building blocks in Python: bit packing, Huffman codes, the entry table."""
import heapq
import random

import core
import sess

REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


DIRS = ('delta', 'delta2', 'delta_bohe', 'delta2_bohe', 'bohe')


# -- BitBucket ------------------------------------------------------------------
class Model(object):
    """A BitBucket is a queue of bits."""
    def __init__(self):
        self.s, self.i = '', 0

    def pack(self, bits):
        return [int(bits[k:k + 8].ljust(8, '0'), 2) for k in range(0, len(bits), 8)]

    def take(self, n):
        if self.i + n > len(self.s):
            return None
        b = self.s[self.i:self.i + n]
        self.i += n
        return b

    def do(self, name, *a):
        if name == 'Clear':
            self.s, self.i = '', 0
        elif name == 'StoreBit':
            self.s += '1' if a[0] else '0'
        elif name == 'StoreBitsL':
            bits = ''.join('{0:08b}'.format(c) for c in a[0])
            self.s += bits[:a[1]]
        elif name.startswith('StoreBits'):
            n = int(name[9:])
            self.s += '{0:b}'.format(a[0] & ((1 << n) - 1)).zfill(n)
        elif name == 'PadToByteBoundary':
            self.s += '0' * (-len(self.s) % 8)
        elif name in ('AdvanceReadPtrToByteBoundary', 'AdvanceToByteBoundary'):
            self.i += -self.i % 8
        elif name == 'NumBits':
            return len(self.s)
        elif name == 'BytesOfStorage':
            return (len(self.s) + 7) // 8
        elif name == 'BitsRemaining':
            return len(self.s) - self.i
        elif name == 'AllConsumed':
            return self.i >= len(self.s)
        elif name == 'GetAllBits':
            return [self.pack(self.s), len(self.s)]
        elif name == 'GetBits':
            b = self.take(a[0])
            return Ellipsis if b is None else [self.pack(b), a[0]]
        elif name == 'GetBit':
            b = self.take(1)
            return Ellipsis if b is None else int(b)
        elif name.startswith('GetBits'):
            b = self.take(int(name[7:]))
            return Ellipsis if b is None else int(b, 2)
        else:
            raise ValueError(name)


def bb_script(r, d, n):
    """Random calls; a read beyond the end is generated now and then (it has to
    be refused, and to leave the rest of the bucket alone: it ends the script)."""
    m = Model()
    out, want = [], []
    store = ['StoreBit', 'StoreBits8', 'StoreBits16', 'StoreBits32', 'StoreBitsL',
             'StoreBitsL', 'StoreBitsL']
    read = ['GetBits', 'GetBits', 'GetBits', 'GetBits8', 'GetBits16', 'GetBits32']
    query = ['NumBits', 'BytesOfStorage', 'BitsRemaining', 'AllConsumed', 'GetAllBits']
    if d == 'delta2':
        store += ['StoreBits4', 'PadToByteBoundary']
        read += ['GetBit', 'GetBits4', 'AdvanceReadPtrToByteBoundary']
    else:
        read.append('AdvanceToByteBoundary')
    if d == 'bohe':
        store.append('StoreBits22')
    bias = r.choice([.3, .5, .7])
    while len(out) < n:
        x = r.random()
        if x < .02:
            op = ['Clear']
        elif x < .15:
            op = [r.choice(query)]
        elif r.random() < bias:
            name = r.choice(store)
            if name == 'PadToByteBoundary':
                op = [name]
            elif name == 'StoreBit':
                op = [name, r.choice([0, 1, 1, 2])]
            elif name == 'StoreBitsL':
                k = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, r.randint(1, 80)])
                by = [r.choice([0, 255, r.randint(0, 255)]) for _ in range((k + 7) // 8)]
                op = [name, by, k]
            else:
                w = int(name[9:])
                v = r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), r.getrandbits(w)])
                if w in (4, 22) and r.random() < .3:    # takes the low bits of more
                    v |= r.getrandbits(4) << w
                op = [name, v]
        else:
            name = r.choice(read)
            left = len(m.s) - m.i
            if name.startswith('Advance'):
                if m.i + (-m.i % 8) > len(m.s):
                    continue
                op = [name]
            elif name == 'GetBits':
                k = r.choice([0, 1, 3, 7, 8, 9, 16, r.randint(0, 60), left])
                if k > left and r.random() < .9:
                    k = left
                op = [name, k]
            else:
                w = 1 if name == 'GetBit' else int(name[7:])
                if w > left and r.random() < .9:
                    continue
                op = [name]
        res = m.do(*op)
        out.append(op)
        want.append(res)
        if res is Ellipsis:
            break
    return out, want


@prop('P11')
def p11(run):
    run.rule = ('a case is one call in a random sequence of stores, reads and queries on '
                'one bucket, its result compared with a queue of bits; distinct by '
                'directory, call and the bit offsets of both ends; non-trivial if the '
                'call stores or returns bits')
    jobs, wants = [], []
    for d in DIRS:
        for part in range(4):
            r = random.Random(sess.seed_of(run.seed, 'bb', d, part))
            scripts, want = [], []
            for _ in range(run.n(250, 4000)):
                s, w = bb_script(r, d, r.choice([5, 20, 60]))
                scripts.append(s)
                want.append(w)
            jobs.append({'kind': 'bb', 'dir': d, 'scripts': scripts, 'want': len(wants)})
            wants.append(want)
    for jb, ev in core.run_jobs('jy', jobs):
        if crash(run, jb, ev):
            continue
        if len(ev) != len(jb['scripts']):
            raise core.Inconclusive('%d of %d scripts' % (len(ev), len(jb['scripts'])))
        for e in ev:
            s, w = jb['scripts'][e['n']], wants[jb['want']][e['n']]
            m = Model()
            for k, (op, want, got) in enumerate(zip(s, w, e['r'])):
                off = (len(m.s) % 8, m.i % 8, len(m.s) == m.i)
                m.do(*op)
                run.case((jb['dir'], op[0], off, op[1:] if op[0] == 'GetBits' else None),
                         op[0][:3] in ('Sto', 'Get'))
                raised = isinstance(got, dict)
                if (want is Ellipsis) != raised or (not raised and want is not Ellipsis
                                                    and got != want and want is not None):
                    run.violation('compressor/%s: BitBucket %r after %r returns %r, a '
                                  'queue of bits %s' % (
                                      jb['dir'], op, s[max(0, k - 4):k], got,
                                      'refuses' if want is Ellipsis else want),
                                  {'kind': 'bb', 'dir': jb['dir'], 'scripts': [s[:k + 1]]})
                    break
                run.count('over_reads_refused', want is Ellipsis)
            run.count('sequences')
            if run.violations:
                break
        run.sample({'dir': jb['dir'], 'sequence': jb['scripts'][0][:6]})
    if not run.violations:
        run.require('sequences', 3000)
        run.require('over_reads_refused', 50)


def crash(run, jb, ev):
    for e in ev:
        if 'hang' in e or 'fatal' in e:
            run.violation('%s in compressor/%s: %s' % (
                jb['kind'], jb['dir'], e.get('fatal', 'no result')[-700:]),
                {'kind': jb['kind'], 'dir': jb['dir']})
            return True
    return False


# -- Huffman -------------------------------------------------------------------
def best_cost(freqs):
    """Cost of an optimal prefix code."""
    h = list(freqs)
    heapq.heapify(h)
    total = 0
    while len(h) > 1:
        a, b = heapq.heappop(h), heapq.heappop(h)
        total += a + b
        heapq.heappush(h, a + b)
    return total


def bits(by, nb):
    return ''.join('{0:08b}'.format(b) for b in by)[:nb]


def strings(r, n, maxlen):
    out = []
    alphas = [''.join(map(chr, range(256))), ''.join(map(chr, range(32, 127))), 'ab',
              'e/.0', '\xff\xfe~', ''.join(map(chr, range(128, 256)))]
    for k in range(n):
        a = alphas[k % len(alphas)]
        ln = r.choice([0, 1, 2, 3, 7, 8, 9, 40, maxlen])
        out.append([''.join(r.choice(a) for _ in range(ln)), 1 if ln == 0 else
                    r.choice([0, 1, 1])])
    for c in range(256):
        out.append([chr(c), c & 1])
    return out


def random_table(r, kind):
    if kind == 0:
        return [r.randint(1, 1000) for _ in range(257)]
    if kind == 1:
        return [int(r.paretovariate(.8)) for _ in range(257)]
    if kind == 2:
        t = [r.randint(1, 3) for _ in range(257)]
        for i, c in enumerate(r.sample(range(257), 12)):
            t[c] = 1000 << i
        return t
    if kind == 3:
        return [r.choice([0, 1, 7])] * 257
    if kind == 4:                       # symbols that never occur beside rare ones
        n = r.randint(2, 256)
        t = [r.choice([1, 1, 2, r.randint(1, 9)]) for _ in range(n)] + [0] * (257 - n)
    elif kind == 5:                     # as deep as can be
        t, a, b, top = [], 1, 1, r.choice([10 ** 4, 10 ** 7, 10 ** 12])
        for k in range(257):
            t.append(a)
            a, b = (b, a + b) if b < top else (a, b)
    elif kind == 6:
        t = [2 ** r.randint(0, 31) for _ in range(257)]
    else:
        t = [0] * 257
        t[r.randrange(257)] = r.randint(1, 2 ** 31)
    r.shuffle(t)
    return t


@prop('P10')
def p10(run):
    run.rule = ('a case is one string encoded and decoded again with one code, with '
                'other bits behind it; plus one case per code for its Kraft sum, '
                'prefix-freeness and cost; distinct by directory, table and string')
    jobs = []
    for d in DIRS:
        for t in ('request_freq_table', 'response_freq_table'):
            r = random.Random(sess.seed_of(run.seed, 'huff', d, t))
            jobs.append({'kind': 'huff', 'dir': d, 'table': t, 'tail': r.randint(0, 9),
                         'strings': strings(r, run.n(60, 900), 120), 'cost': 10})
        for k in range(run.n(16, 160)):
            r = random.Random(sess.seed_of(run.seed, 'huff', d, k))
            jobs.append({'kind': 'huff', 'dir': d, 'table': random_table(r, k % 8),
                         'tail': r.randint(0, 9), 'strings': strings(r, 12, 60)})
    for jb, ev in core.run_jobs('jy', jobs):
        if not crash(run, jb, ev):
            check_code(run, jb, ev)
    if not run.violations:
        run.require('codes', 60)
        run.require('strings', 2000)


def too_long(freqs, codes, run):
    """Is the code longer than an optimal one?  Symbols that do not occur may count for
    a little, so that their codes are short as well."""
    for rare in (0, 1.0 / 512):
        f = {s: n or rare for s, n in freqs.items()}
        cost = sum(f[s] * len(codes[s]) for s in codes)
        best = best_cost(list(f.values()))
        if cost <= best * (1 + 1e-12):
            return None
    longest = max(map(len, codes.values()))
    if longest <= 32 and (best_depth(freqs.values()) > 32 or
                          best_depth([n or rare for n in freqs.values()]) > 32):
        run.count('codes_cut_to_32_bits')
        if cost <= best * 1.05 + 257:
            return None
    return 'the code costs %d bits for its own table, %d are enough' % (cost, best)


def best_depth(freqs):
    """Longest code of an optimal prefix code (of several, the deepest)."""
    h = [(f, 0) for f in freqs]
    heapq.heapify(h)
    while len(h) > 1:
        a, b = heapq.heappop(h), heapq.heappop(h)
        heapq.heappush(h, (a[0] + b[0], min(a[1], b[1]) - 1))
    return -h[0][1]


def check_code(run, jb, ev):
    name = 'compressor/%s %s' % (jb['dir'], jb['table'] if isinstance(jb['table'], str)
                                 else 'random table')
    rep = {'kind': 'huff', 'dir': jb['dir'], 'table': jb['table']}

    def bad(what):
        run.violation(name + ': ' + what, rep)
    if 'codes' not in ev[0]:
        return bad('the code cannot be built\n' + ev[0].get('e', '?')[-600:])
    codes = {}
    for s, v in ev[0]['codes'].items():
        if isinstance(v, dict):
            return bad('symbol %s has no code: %s' % (s, v['x']))
        if v[1] < 1 or len(v[0]) != (v[1] + 7) // 8:
            return bad('the code of symbol %s is %r' % (s, v))
        codes[int(s)] = bits(*v)
    if len(codes) != 257:
        return bad('%d symbols have codes' % len(codes))
    srt = sorted(codes.items(), key=lambda t: t[1])
    for (a, x), (b, y) in zip(srt, srt[1:]):
        if y.startswith(x):
            return bad('the code of %d is a prefix of the code of %d (%s, %s)'
                       % (a, b, x, y))
    kraft = sum(1 << (300 - len(c)) for c in codes.values())
    if kraft != 1 << 300:
        return bad('the code is not complete: some bit strings mean nothing')
    run.count('codes')
    run.peak('longest_code', max(map(len, codes.values())))
    freqs = ev[0].get('freqs')
    if freqs:
        f = {int(k): v for k, v in freqs}
        run.case((jb['dir'], str(jb['table']), 'cost'))
        what = too_long(f, codes, run)
        if what:
            return bad(what)
    seen = {}
    for e in ev[1:]:
        s, eof = jb['strings'][e['n']]
        rep = {'kind': 'huff', 'dir': jb['dir'], 'table': jb['table'],
               'strings': [[s, eof]], 'tail': jb['tail']}
        if 'e' in e:
            return run.violation('%s: %r: %s' % (name, s[:40], e['e'][-500:]), rep)
        run.case((jb['dir'], str(jb['table'])[:40], s, eof), bool(s))
        want = ''.join(codes[ord(c)] for c in s) + (codes[256] if eof else '')
        got = bits(e['v'], e['nb'])
        if got != want or e['nb'] != len(want):
            return run.violation('%s: %r is not encoded as the codes of its symbols'
                                 % (name, s[:40]), rep)
        if e['d'] != s or e['left'] != jb['tail']:
            return run.violation('%s: %r decodes to %r, leaving %d of %d bits' % (
                name, s[:60], e['d'][:60], e['left'], jb['tail']), rep)
        run.count('strings')
        seen[len(s)] = 1
    if len(ev) != len(jb['strings']) + 1:
        raise core.Inconclusive('%d strings missing' % (len(jb['strings']) + 1 - len(ev)))
    run.sample({'code': name, 'strings': len(ev) - 1, 'code_of_e': codes[101]})


# -- LruStorage -----------------------------------------------------------------
class Lru(object):
    def __init__(self, max_bytes, max_items, max_seq, offset):
        self.b, self.n, self.m, self.o = max_bytes, max_items, max_seq, offset or 0
        self.seq = self.o
        self.ring = []      # (seq, k, v)
        self.size = 0

    def pop(self):
        s, k, v = self.ring.pop(0)
        self.size -= len(k) + len(v)
        return s

    def put(self, k, v):
        if self.n == 0 or self.b == 0:
            return [False, [], None]
        out = []
        while self.n is not None and len(self.ring) + 1 > self.n:
            out.append(self.pop())
        while self.b is not None and self.size + len(k) + len(v) > self.b:
            if not self.ring:
                return [False, out, None]
            out.append(self.pop())
        s = self.seq
        self.ring.append((s, k, v))
        self.size += len(k) + len(v)
        self.seq += 1
        if self.m is not None and self.seq >= self.m:
            self.seq = self.o
        return [True, out, s]

    def find(self, k, v):
        key = pair = None
        for s, a, b in reversed(self.ring):
            if a == k and key is None:
                key = s
            if a == k and b == v:
                pair = s
                break
        return key, pair


@prop('P12')
def p12(run):
    run.rule = ('a case is one operation in a random sequence on one table, its result '
                'compared with a list under the same limits; distinct by directory, '
                'limits, operation and result; non-trivial if the table was not empty')
    jobs = []
    for d in ('delta2', 'delta2_bohe'):
        for part in range(4):
            r = random.Random(sess.seed_of(run.seed, 'lru', d, part))
            cases = []
            for _ in range(run.n(60, 900)):
                off = r.choice([0, 0, 3, 60])
                items = r.choice([None, 0, 1, 2, 5, 20] if d == 'delta2' else
                                 [None, 1, 2, 5, 20])
                by = r.choice([None, 0, 4, 10, 40, 200] if d == 'delta2' else
                              [None, 4, 10, 40, 200])
                span = r.choice([None, 21, 22, 30])
                if items is None:
                    span = None
                args = [by, items, None if span is None else off + span, off]
                script = []
                for _ in range(r.choice([10, 40, 120])):
                    x = r.random()
                    k, v = r.choice('abcd') * r.randint(0, 4), r.choice('xy') * r.randint(0, 4)
                    if x < .5:
                        script.append(['put', k, v])
                    elif x < .65:
                        script.append(['get', off + r.randint(0, 40)])
                    elif x < .85:
                        script.append(['find', k, v])
                    elif x < .9:
                        script.append(['pop'])
                    else:
                        script.append(['len'])
                cases.append({'args': args, 'script': script})
            jobs.append({'kind': 'lru', 'dir': d, 'cases': cases})
    for jb, ev in core.run_jobs('jy', jobs):
        if crash(run, jb, ev):
            continue
        for e in ev:
            check_lru(run, jb, jb['cases'][e['n']], e['r'])
            if run.violations:
                break
        run.sample({'dir': jb['dir'], 'limits': jb['cases'][0]['args'],
                    'operations': jb['cases'][0]['script'][:5]})
    if not run.violations:
        for k in ('put', 'get', 'find', 'len', 'evictions', 'wraps'):
            run.require(k, 100)


def check_lru(run, jb, case, res):
    m = Lru(*case['args'])
    weak = jb['dir'] != 'delta2'
    for i, (st, got) in enumerate(zip(case['script'], res)):
        op = st[0]
        live = dict((s, (k, v)) for s, k, v in m.ring)
        busy = bool(m.ring)
        ok = True
        if op == 'put':
            want = m.put(st[1], st[2])
            run.count('evictions', len(want[1]))
            run.count('wraps', bool(want[0] and want[2] < case['args'][3] + 1 and busy))
            ok = got[:2] == want[:2] and (not want[0] or got[2] == want[2]) \
                if isinstance(got, list) else False
        elif op == 'get':
            want = live.get(st[1])
            if want is None:
                # refused; delta2_bohe does not promise to notice
                ok = weak or isinstance(got, dict)
            else:
                ok = got == [want[0], want[1], st[1]]
        elif op == 'find':
            key, pair = m.find(st[1], st[2])
            want = [key, pair]
            ok = isinstance(got, list) and got[1] == pair and (
                (got[0] is None) == (key is None)) and (
                got[0] is None or live[got[0]][0] == st[1] if got[0] in live
                    else got[0] is None)
        elif op == 'pop':
            want = [m.pop()] if m.ring else []
            # an empty delta2_bohe table refuses
            ok = got == want or (weak and not want and isinstance(got, dict))
        else:
            want = [len(m.ring), m.size]
            ok = got == want
        run.count(op)
        run.case((jb['dir'], tuple(case['args']), op, str(want)), busy)
        if not ok:
            run.violation('compressor/%s: LruStorage%r: %r after %d operations gives %r, '
                          'a list with these limits %r' % (
                              jb['dir'], tuple(case['args']), st, i, got, want),
                          {'kind': 'lru', 'dir': jb['dir'],
                           'cases': [{'args': case['args'], 'script': case['script'][:i + 1]}]})
            return
