"""delta_bohe and delta2_bohe: two delta codecs with typed values, which come without a
decompressor.  Receivers of their formats read every frame and say what the message was.
"""
import calendar
import collections
import random
import re
import struct
import time

import core
import gen
import p_stream
import refdec
import sess
from refdec import Bad, Bits

REGISTRY = {}
TYPED = p_stream.TYPED
# typed encodings that say themselves where they end (they are stored raw)
MINE = [k for k in TYPED if k != 'p3p' and k not in p_stream.ACCEPTS]
TOP = 1 << 16


def prop(pid):
    def wrap(f):
        REGISTRY[pid] = f
        return f
    return wrap


def uvarint(r):
    v = shift = 0
    while True:
        c = r.get(8)
        v |= (c & 127) << shift
        shift += 7
        if c < 128:
            return v
        if shift > 70:
            raise Bad('number without end')


def typed_bytes(r, name, control):
    """Reads one typed value off the bits, returns its bytes."""
    at = r.i
    if name in p_stream.DATES or name in p_stream.NUMBERS:
        uvarint(r)
    elif name == ':method':
        r.get(8)
    elif name in p_stream.ETAGS:
        for _ in range(uvarint(r)):
            r.get(8 * 17)
    elif name == 'cache-control':
        r.get(8)
        for _ in range(control):
            uvarint(r)
    elif name == 'cookie':
        r.get(8)
        for _ in range(2):
            r.get(8 * uvarint(r))
    elif name == 'set-cookie':
        r.get(8)
        for _ in range(2):
            r.get(8 * uvarint(r))
        for _ in range(2):
            r.get(8 * r.get(16))
        uvarint(r)
    else:
        raise Bad('the value of %s should not be sent' % name)
    end, r.i = r.i, at
    return bytes(r.get(8) for _ in range((end - at) // 8))


class Receiver(object):
    """What the two formats have in common: frames of operations."""
    hdr = '!HBLB'
    control = 4     # numbers in a cache-control value

    def __init__(self, codes):
        self.codes = codes
        self.deep = max(map(len, codes))
        self.groups = {}
        self.seen = collections.Counter()

    def value(self, r, key):
        if key in TYPED:
            return typed_bytes(r, key, self.control)
        v = r.huff(self.codes, self.deep)
        r.align()
        return v.encode('latin-1')

    def frames(self, wire):
        n, at, group, payload = struct.calcsize(self.hdr), 0, None, b''
        while True:
            f = struct.unpack(self.hdr, wire[at:at + n])
            size, last, sid, kind = f[:4]
            if sid != (1 << 31 | 1234) or kind != 8 or last not in (0, 1):
                raise Bad('frame header %r' % (f,))
            if group not in (None, f[4:]):
                raise Bad('a continuation for another group')
            group = f[4:]
            at += n + size
            if at > len(wire):
                raise Bad('frame longer than the data')
            payload += wire[at - size:at]
            if last:
                break
        if at != len(wire):
            raise Bad('bytes after the last frame')
        return group, payload

    def ops(self, payload):
        r = Bits(payload)
        toggles, stores, once = [], [], []
        while r.left():
            code, count = r.get(8), r.get(8) + 1
            for _ in range(count):
                self.seen[code] += 1
                if code == 1:
                    toggles.append(r.get(16))
                elif code == 2:
                    last = r.get(16)
                    first = r.get(16)
                    if first >= last:
                        raise Bad('range of %d to %d' % (first, last))
                    toggles.extend(range(first, last + 1))
                elif code == 3:
                    key = self.key_at(r.get(16))
                    stores.append((key, self.value(r, key)))
                elif code in (4, 5):
                    key = r.huff(self.codes, self.deep)
                    r.align()
                    (stores if code == 4 else once).append((key, self.value(r, key)))
                else:
                    raise Bad('operation %d' % code)
        if len(set(toggles)) != len(toggles):
            raise Bad('an entry is toggled twice')
        return toggles, stores, once

    def decode(self, wire):
        group, payload = self.frames(wire)
        toggles, stores, once = self.ops(payload)
        g = self.groups.setdefault(group, set())
        for i in toggles:
            self.look(i)
            g ^= {i}
        for e in stores:
            if self.known(e):
                raise Bad('%s is in the table, and stored again' % e[0])
        out = [self.look(i) for i in g] + stores + once
        self.begin(out)
        for key, value in stores:
            self.store(g, key, value)
        self.end(g, out)
        return out


class Ids(object):
    def __init__(self):
        self.at = 0

    def new(self, used):
        while True:
            self.at = (self.at + 1) % TOP
            if self.at not in used:
                return self.at


class DeltaBohe(Receiver):
    """64 KB and 1024 values, defaults included; names and values have numbers; what a
    message used is the newest and has new numbers afterwards."""
    def __init__(self, codes, defaults):
        Receiver.__init__(self, codes)
        self.by_id = {}             # number -> (name, value)
        self.order = collections.OrderedDict()      # (name, value) -> number
        self.fixed = set()
        self.names, self.name_ids = {}, {}          # name -> number, number -> name
        self.values = collections.Counter()         # values per name
        self.kid, self.vid = Ids(), Ids()
        self.size = self.count = self.evicted = self.freed = 0
        for i, k, v in sorted(defaults):
            self.name(k)
            if self.names[k] != i:
                raise Bad('default names are not numbered in order')
            e = (k, v.encode('latin-1'))
            self.by_id[self.vid.new(self.by_id)] = e
            self.fixed.add(e)
            self.values[k] += 1
            self.size += len(v)
            self.count += 1

    def name(self, k):
        if k not in self.names:
            i = self.kid.new(self.name_ids)
            self.names[k], self.name_ids[i] = i, k
            self.size += len(k)

    def key_at(self, i):
        if i not in self.name_ids:
            raise Bad('name %d is not in the table' % i)
        return self.name_ids[i]

    def look(self, i):
        if i not in self.by_id:
            raise Bad('entry %d is not in the table' % i)
        return self.by_id[i]

    def known(self, e):
        return e in self.order or e in self.fixed

    def begin(self, out):
        self.used = set(k for k, v in out)
        self.mine = set()

    def forget(self, k):
        if k in self.names and not self.values[k]:
            self.freed += 1
            self.size -= len(k)
            del self.name_ids[self.names.pop(k)]

    def space(self, size, count):
        while self.count + count > 1024 or self.size + size > 65536:
            e = next(iter(self.order), None)
            if e is None or e in self.mine:
                return
            i = self.order.pop(e)
            del self.by_id[i]
            for g in self.groups.values():
                g.discard(i)
            self.size -= len(e[1])
            self.count -= 1
            self.values[e[0]] -= 1
            self.evicted += 1
            if e[0] not in self.used:
                self.forget(e[0])

    def store(self, g, k, v):
        if (k, v) in self.order or (k, v) in self.fixed:
            raise Bad('stored again: %s' % k)
        if k not in self.names:
            self.space(len(k), 0)
            self.name(k)
        self.space(len(v), 1)
        i = self.vid.new(self.by_id)
        self.by_id[i] = (k, v)
        self.order[k, v] = i
        self.mine.add((k, v))
        self.values[k] += 1
        self.count += 1
        self.size += len(v)
        g.add(i)

    def end(self, g, out):
        for k in self.used:
            self.forget(k)
        for old in sorted(g):
            e = self.by_id[old]
            new = self.vid.new(self.by_id)
            del self.by_id[old]
            self.by_id[new] = e
            g.remove(old)
            g.add(new)
            if e in self.order:
                del self.order[e]
                self.order[e] = new


D2B = """date=|:scheme=https|:method=get|:path=/|:host=|cookie=|:status=200|:status-text=OK
|:version=1.1|accept=|accept-charset=|accept-encoding=|accept-language=|accept-ranges=
|allow=|authorizations=|cache-control=|content-base=|content-encoding=|content-length=
|content-location=|content-md5=|content-range=|content-type=|etag=|expect=|expires=
|from=|if-match=|if-modified-since=|if-none-match=|if-range=|if-unmodified-since=
|last-modified=|location=|max-forwards=|origin=|pragma=|proxy-authenticate=
|proxy-authorization=|range=|referer=|retry-after=|server=|set-cookie=|status=|te=
|trailer=|transfer-encoding=|upgrade=|user-agent=|user-agent=|vary=|via=|warning=
|www-authenticate=|access-control-allow-origin=|content-disposition=|get-dictionary=
|p3p=|x-content-type-options=|x-frame-options=|x-powered-by=|x-xss-protection=
|connection=keep-alive"""
D2B = [tuple(x.split('=')) for x in D2B.replace('\n', '').split('|')]


class Delta2Bohe(Receiver):
    """A fixed table, and a list of 16 KB and 1024 entries numbered by sequence; copies
    of what a message used are stored after it."""
    hdr = '!HBLBB'

    def __init__(self, codes, req):
        Receiver.__init__(self, codes)
        self.control = 4 if req else 5
        self.live = collections.OrderedDict()
        self.copies = collections.Counter()
        self.seq = len(D2B)
        self.size = self.evicted = self.wraps = 0

    def look(self, i):
        if i < len(D2B):
            return D2B[i][0], D2B[i][1].encode('latin-1')
        if i not in self.live:
            raise Bad('entry %d is not in the table' % i)
        return self.live[i]

    def key_at(self, i):
        return self.look(i)[0]

    def known(self, e):
        return self.copies[e] > 0 or (e[0], e[1].decode('latin-1')) in D2B

    def begin(self, out):
        pass

    def store(self, g, k, v):
        need = len(k) + len(v)
        while self.live and (len(self.live) + 1 > 1024 or self.size + need > 16384):
            i, e = self.live.popitem(last=False)
            self.size -= len(e[0]) + len(e[1])
            self.copies[e] -= 1
            self.evicted += 1
            for h in self.groups.values():
                h.discard(i)
        if need > 16384:
            return
        self.live[self.seq] = (k, v)
        self.copies[k, v] += 1
        self.size += need
        if g is not None:
            g.add(self.seq)
        self.seq += 1
        if self.seq >= TOP:
            self.seq = len(D2B)
            self.wraps += 1

    def end(self, g, out):
        for k, v in [self.look(i) for i in sorted(g)]:
            self.store(None, k, v)


# -- what a message means ----------------------------------------------------------------
def meaning(h, req, epoch):
    out = []
    for k, v in h.items():
        if k == 'cookie':
            for c in v.split(';'):
                c = c.lstrip(' ')
                out.append((k, repr(p_stream.typed_meaning(k, c)) if c else ''))
        elif k in TYPED:
            out.append((k, repr(cached(h, v, req) if k == 'cache-control'
                                else p_stream.typed_meaning(k, v, epoch))))
        else:
            out.append((k, v))
    return set(out)


def cached(h, v, req):
    """max-age, max-stale and min-fresh; or max-age, s-maxage and two empty lists"""
    m = p_stream.typed_meaning('cache-control', v)
    if req:
        return m
    d = re.findall(r's-maxage *= *(\d+)', v.lower())    # the last one counts
    return [m[0], int(d[-1]) if d else 0, 0, 0]


def cache_read(v):
    r = Bits(v)
    if r.get(8) != ord('_'):
        raise Bad('cache-control flags')
    out = []
    while r.left():
        out.append(uvarint(r))
    if out.pop():
        raise Bad('cache-control extensions')
    return out


def received(pairs):
    out = []
    for k, v in pairs:
        if k == 'cookie' and not v:
            out.append((k, ''))
        elif k in TYPED:
            out.append((k, repr(cache_read(v) if k == 'cache-control'
                                else p_stream.typed_read(k, v))))
        else:
            out.append((k, v.decode('latin-1')))
    if len(set(out)) != len(out):
        raise Bad('holds a header twice')
    return set(out)


# -- workload ----------------------------------------------------------------------------
PLAIN = ['accept-ranges', 'allow', 'authorization', 'content-encoding', 'content-type',
         'dnt', 'from', 'location', 'origin', 'pragma', 'range', 'referer', 'server',
         'te', 'upgrade', 'user-agent', 'vary', 'via', 'warning', 'x-a', 'x-b', 'x-cache',
         'x-powered-by', 'x-xss-protection', 'get-dictionary', 'connection']


def crumbs(r, pool):
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        if pool and r.random() < .6:
            out.append(r.choice(pool))
        else:
            word = lambda a, b: ''.join(r.choice('abcdefXYZ-_') for _ in range(  # noqa
                r.randint(a, b)))
            out.append(word(1, 4) + '=' + r.choice([
                lambda: word(1, 30), lambda: '%06x' % r.getrandbits(24),
                lambda: word(2, 3) + '-', lambda: ''])())
            pool.append(out[-1])
    if r.random() < .15:
        out.append(r.choice(out))
    if r.random() < .1:
        out.append('')
    r.shuffle(out)
    return r.choice(['; ', '; ', ';']).join(out)


def messages(seed, req, n, style):
    r = random.Random(seed)
    g = gen.Gen(seed, 'web', req, latin1=True)
    jar, pool, out = [], collections.defaultdict(list), []
    names = ['x-' + g.word(1, 9) for _ in range({'names': 400, 'wide': 250}.get(style, 20))]
    fixed = {k: g.word(0, 2) for k in names}
    for i in range(n):
        h, host = g.base()
        for k in list(h):
            if k in TYPED:
                del h[k]
        if req:
            h[':method'] = r.choice(p_stream.METHODS)
        else:
            h[':status'] = r.choice(['100', '127', '128', '200', '200', '304', '404'])
        for k in r.sample(MINE, r.choice([0, 1, 3, 5])):
            if k[0] == ':':
                continue
            if k in pool and r.random() < .5:
                h[k] = r.choice(pool[k])
                continue
            if k == 'cookie':
                h[k] = crumbs(r, jar)
                continue
            while True:
                h[k] = p_stream.typed_value(r, k, req)
                if len(h[k]) < 120 and (k in p_stream.ETAGS or '\0' not in h[k]):
                    break
            if k == 'cache-control' and not req and r.random() < .5:
                h[k] += ', s-maxage=%d' % r.choice([0, 5, 127, 128, 99999])
            pool[k].append(h[k])
        mine = names if style in ('names', 'churn') else PLAIN
        for k in r.sample(mine, r.choice([0, 2, 4, 8] if style != 'churn' else [14, 18])):
            if k in pool and r.random() < {'churn': .15, 'recall': .6}.get(style, .4):
                h[k] = r.choice(pool[k])
            else:
                h[k] = g.raw(0, r.choice([2, 5, 12, 40]))
                pool[k].append(h[k])
        if style == 'recall':
            # values that are used again after a long time, when they are the oldest
            h['x-new'] = '%d%s' % (i, '.' * r.choice([20, 90]))
            if i >= 8:
                back = r.choice([8, 20, 60, 110, 150, r.randint(1, i)])
                if back <= i and 'x-new' in out[i - back][0]:
                    h['x-new'] = out[i - back][0]['x-new']
                    h['x-old'] = 'v%d' % r.randint(0, i)
        if style == 'wide':
            fixed[r.choice(names)] = g.word(0, 2)
            h.update(fixed)
            if r.random() < .1:
                h = dict(r.sample(sorted(h.items()), r.randint(0, len(h))))
        if style == 'hosts':
            host = '%s%d.com' % (g.word(2, 5), i) if i < 270 or r.random() < .3 \
                else out[r.randrange(i)][1]
        if style == 'big' and i % 6 == 3:
            h['x-big'] = g.word(1, 9) * r.choice([300, 16100 // 5, 9000])
            if r.random() < .3:
                h = {'x-big': h['x-big'][:16384 - 5 + r.choice([-1, 0, 1])]}
        if style == 'block' and i % 5 == 2:
            # a message that takes more than the table holds
            for k in range(r.choice([300, 1100])):
                h['b%d' % k] = g.word(0, 3)
        if r.random() < .02:
            h = {}
        out.append([h, host])
    return out


def defaults():
    """The numbers of the default names, learnt from what a fresh compressor sends (they
    follow the order of a hash table): [(number, name, default value)]."""
    given = dict(D2B)
    del given['connection']
    msgs = [[{k: given[k]}, 'h'] for k in sorted(given)]
    jobs = [p_stream.send_only(sess.job('delta_bohe', [], 'probe', True, 0, 1, msgs=msgs))]
    out = []
    for jb, ev in core.run_jobs('jy', jobs, shards=1):
        for (h, _), e in zip(msgs, ev):
            if 'w' not in e:
                raise core.Broken('a header of the default list cannot be sent: %r' % e)
            r = Bits(p_stream.wire_of(e)[8:])
            found = []
            while r.left():
                code, count = r.get(8), r.get(8) + 1
                if code == 3:
                    found = [r.get(16)]
                    break
                found += [i for i in [r.get(16) for _ in range(count * min(code, 2))]
                          if i <= len(given)]
            (k, v), = h.items()
            out += [(i, k, v) for i in found]
    if sorted(i for i, k, v in out) != list(range(1, len(given) + 1)):
        raise core.Broken('a fresh compressor refers to the %d default headers as %r' % (
            len(given), sorted(out)))
    return out


STYLES = ['web', 'recall', 'churn', 'names', 'wide', 'big', 'hosts', 'block']


@prop('P27')
def p27(run):
    run.rule = ('a case is one message read by a receiver of the format; distinct by codec '
                'and bytes; non-trivial if it has a header')
    jobs = []
    for codec in ('delta_bohe', 'delta2_bohe'):
        for k in range(run.n(16, 64)):
            style = STYLES[k % len(STYLES)]
            s = sess.seed_of('P27', run.seed, codec, k)
            req = (k // len(STYLES)) % 2 == 0
            n = {'hosts': 330, 'wide': run.n(60, 330), 'block': 12, 'big': 20,
                 'churn': run.n(110, 200)}.get(style, run.n(120, 300))
            jb = sess.job(codec, [], style, req, 0, s, msgs=messages(s, req, n, style))
            jobs.append(p_stream.send_only(jb))
    codes = {c: p_stream.bohe_codes(c) for c in ('delta_bohe', 'delta2_bohe')}
    fixed = defaults()
    for jb, ev in core.run_jobs('jy', jobs):
        sess.expect_complete(run, jb, ev)
        judge(run, jb, ev, codes, fixed)
    if not run.violations:
        for c in ('delta_bohe', 'delta2_bohe'):
            run.require('messages_' + c, 900)
            run.require('evictions_' + c, 200)
            for op, name in enumerate(('toggles', 'ranges', 'clones', 'stores'), 1):
                run.require('%s_%s' % (name, c), 100)
        run.require('names_freed', 5)


def judge(run, jb, events, codes, fixed):
    p = jb['procs'][0]
    codec, req = jb['codec'], p['req']
    rec = DeltaBohe(codes[codec][req], fixed) if codec == 'delta_bohe' \
        else Delta2Bohe(codes[codec][req], req)
    # dates count from 1990, or from the last year that 21 divides
    epoch = p_stream.EPOCH90 if codec == 'delta_bohe' else calendar.timegm(
        (time.gmtime().tm_year // 21 * 21, 1, 1, 0, 0, 0))
    for ev in events:
        if sess.crash(run, jb, ev):
            return
        x = jb['script'][ev['i']][2]

        def bad(what):
            run.violation('%s: message %d: %s' % (sess.fmt(jb), x, what),
                          {'kind': 'bohe', 'job': sess.cut(jb, ev['i'])})
        if 'ni' in ev or 'mut' in ev:
            return bad('compress is missing' if 'ni' in ev else 'compress changed the '
                       'headers it was given')
        h = jb['msgs'][x][0]
        want = meaning(h, req or codec == 'delta_bohe', epoch)
        try:
            got = received(rec.decode(p_stream.wire_of(ev)))
        except (Bad, struct.error, IndexError) as e:
            return bad('cannot be read by the format: %s' % e)
        if got != want:
            return bad('read without %.300r, with %.300r' % (
                sorted(want - got)[:3], sorted(got - want)[:3]))
        run.case((codec, req, ev['w']), bool(h))
        run.count('messages_' + codec)
    for op, name in enumerate(('toggles', 'ranges', 'clones', 'stores'), 1):
        run.count('%s_%s' % (name, codec), rec.seen[op])
    run.count('evictions_' + codec, rec.evicted)
    if codec == 'delta_bohe':
        run.count('names_freed', rec.freed)
        run.peak('number', rec.vid.at)
    else:
        run.peak('groups', len(rec.groups))
        run.count('wraps', rec.wraps)
    run.sample({'session': jb['tag'], 'messages': len(events),
                'evicted': rec.evicted})
