"""Codecs without a decompressor: what they send is read by receivers written
from the formats (deflate streams, bohe and its delta variants)."""
import base64
import calendar
import hashlib
import random
import re
import struct
import time
import zlib

import core
import gen
import p_codec
import p_tool
import refdec
import reference
import sess

REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


def send_only(jb):
    jb['script'] = [s for s in jb['script'] if s[0] == 'c']
    return jb


def wire_of(ev):
    b = bytes.fromhex(ev['w'][1:])
    return b.decode('utf-8').encode('latin-1') if ev['w'][0] == 's' else b


# -- deflate ----------------------------------------------------------------------------
class Inflater(object):
    """The peer of a deflate stream; every message must come out at once."""
    def __init__(self, zdict):
        self.zdict = zdict
        self.z = None

    def options(self):
        if self.zdict:
            return [lambda: zlib.decompressobj(-15, zdict=self.zdict),
                    lambda: zlib.decompressobj(15, zdict=self.zdict)]
        return [lambda: zlib.decompressobj(15), lambda: zlib.decompressobj(-15)]

    def feed(self, data):
        if self.z is not None:
            return self.z.decompress(data)
        err = None
        for mk in self.options():
            z = mk()
            try:
                out = z.decompress(data)
            except zlib.error as e:
                err = err or e
                continue
            self.z = z
            return out
        raise err


def spdy3_block(b):
    out, i = [], 0
    while i < len(b):
        kv = []
        for _ in range(2):
            if i + 4 > len(b):
                raise ValueError('truncated length at byte %d of %d' % (i, len(b)))
            n, = struct.unpack('!L', b[i:i + 4])
            if i + 4 + n > len(b):
                raise ValueError('length %d at byte %d runs over the end %d'
                                 % (n, i, len(b)))
            kv.append(b[i + 4:i + 4 + n].decode('utf-8'))
            i += 4 + n
        out.append(tuple(kv))
    return out


def http1_lines(text):
    if not text.endswith('\r\n\r\n'):
        return text, []
    ls = text[:-4].split('\r\n')
    return ls[0], sorted(ls[1:])


def fits1(h):
    return not any(c in v for v in h.values() for c in '\r\n')


def judge_deflate(run, jb, events):
    codec, params = jb['codec'], jb['procs'][0]['params']
    zdict = reference.zdict() if codec != 'spdy3' or 'dict' in params else None
    peer = Inflater(zdict)
    starts, last, total = {}, None, 0
    good = 0
    for ev in events:
        if sess.crash(run, jb, ev):
            return
        x = jb['script'][ev['i']][2]
        h = jb['msgs'][x][0]
        rep = {'kind': 'deflate', 'job': sess.cut(jb, ev['i'])}
        if 'ni' in ev:
            return run.violation('%s: compress is not implemented' % sess.fmt(jb), rep)
        if 'mut' in ev:
            return run.violation('%s: message %d: compress changed the headers it was '
                                 'given' % (sess.fmt(jb), x), rep)
        wire = bytes.fromhex(ev['w'][1:])
        if ev['w'][0] == 's':
            return run.violation('%s: message %d is text, not bytes' % (sess.fmt(jb), x),
                                 rep)
        try:
            if codec == 'spdy3':
                # the first twelve bytes of the block go out as they are
                raw = wire[:12] + peer.feed(wire[12:])
                got = sorted(spdy3_block(raw))
                want = sorted(h.items())
            else:
                raw = peer.feed(wire)
                got = http1_lines(raw.decode('utf-8'))
                want = http1_lines(p_tool.http1(h))
        except (zlib.error, ValueError) as e:
            return run.violation('%s: message %d cannot be inflated and read: %s'
                                 % (sess.fmt(jb), x, e), rep)
        if got != want:
            return run.violation('%s: message %d inflates to other headers: %.300r, '
                                 'should be %.300r' % (sess.fmt(jb), x, got, want), rep)
        run.case((codec, tuple(params), ev['w']), bool(h))
        run.count('raw_bytes', len(raw))
        run.count('wire_bytes', len(wire))
        run.count('messages_inflated')
        run.count('messages_beyond_ascii', not raw.isascii())
        run.count('messages_' + codec + ('_dict' if params else ''))
        total += len(raw)
        key = tuple(sorted(h.items()))
        # both copies lie within the window (32 KB minus the lookahead)
        if codec != 'http1_huffman' and total - starts.get(key, -40000) < 28000:
            run.count('repeats')
            run.count('repeats_over_4k', len(raw) > 4096)
            run.count('repeats_over_8k', len(raw) > 8192)
            run.count('repeats_not_adjacent', last != key)
            run.peak('peak_repeat_bytes', len(wire))
            if len(wire) > 40 + len(raw) // 12:
                return run.violation('%s: message %d repeats an earlier one (%d '
                                     'bytes) and still takes %d bytes: no history is '
                                     'used' % (sess.fmt(jb), x, len(raw), len(wire)),
                                     rep)
        starts[key], last = total - len(raw), key
        good += 1
    run.count('sessions')
    run.sample({'session': jb['tag'], 'messages': good, 'last_wire': ev['w'][:60]})


DEFLATE = (('spdy3', []), ('spdy3', ['dict']), ('http1_gzip', []), ('http1_huffman', []))


def with_repeats(msgs, r):
    out = []
    for m in msgs:
        out.append(m)
        while r.random() < .25:
            out.append([dict(m[0]), m[1]])
        if r.random() < .1:
            out.append([dict(r.choice(out[-6:])[0]), m[1]])
    return out


def with_large(msgs, r):
    """A message of some KB now and then, followed by itself."""
    for _ in range(r.randint(0, 3)):
        h = dict(r.choice(msgs)[0])
        size = r.choice([2000, 4200, 5000, 8300, 9000, 13000])
        while sum(len(k) + len(v) + 4 for k, v in h.items()) < size:
            h['x-' + r.choice('abc') + '%d' % len(h)] = ''.join(
                r.choice('abcdefghijklmnop0123456789;=') for _ in range(r.randint(1, 900)))
        i = r.randint(0, len(msgs))
        msgs[i:i] = [[dict(h), msgs[0][1]] for _ in range(r.choice([1, 2, 2, 3]))]
    return msgs


@prop('P21')
def p21(run):
    run.rule = ('a case is one message inflated in its place in the stream and read back; '
                'distinct by its bytes; non-trivial if it has a header')
    jobs = []
    for ci, (codec, params) in enumerate(DEFLATE):
        for k in range(run.n(24, 260)):
            s = sess.seed_of('P21', run.seed, codec, params, k)
            r = random.Random(s)
            profile = r.choice(['web', 'web', 'tiny', 'churn', 'wide', 'big', 'groups',
                                'lengths', 'mixed', 'huge'])
            ok = None if codec == 'spdy3' else fits1
            n = r.choice([1, 12, 40, 120]) if profile not in ('big', 'huge') else 12
            ms = sess.history(s, profile, k % 2 == 0, n, k % 3 == 0, ok)
            ms = with_large(with_repeats(ms, r), r)
            if codec != 'spdy3' and r.random() < .3:
                ms.insert(r.randint(0, len(ms)), [{}, ''])
            jobs.append(send_only(sess.job(codec, params, profile, k % 2 == 0, 0, s,
                                           msgs=ms)))
    for jb, ev in core.run_jobs('py3', jobs):
        sess.expect_complete(run, jb, ev)
        judge_deflate(run, jb, ev)
    if not run.violations:
        run.require('repeats', 100)
        run.require('repeats_over_4k', 20)
        run.require('messages_beyond_ascii', 100)
        run.require('repeats_over_8k', 20)
        run.require('repeats_not_adjacent', 30)
        for c, p in DEFLATE:
            run.require('messages_' + c + ('_dict' if p else ''), 300)


# -- bohe ---------------------------------------------------------------------------------
IDS = (':path accept-language accept-encoding accept user-agent :scheme connection :method '
       ':host :version referer cookie x-requested-with content-length pragma cache-control '
       'content-type :status keep-alive server location date :status-text '
       'transfer-encoding set-cookie expires vary p3p content-encoding x-amz-id-2 '
       'x-amz-id-1 x-amzn-requestid x-pad nncoection accept-ranges last-modified etag '
       'x-frame-options x-sap-pg if-modified-since via x-cache age x-amz-cf-id cneonction '
       'x-cache-lookup x-xss-protection if-none-match x-amz-request-id '
       'x-amz-meta-jets3t-original-file-date-iso8601 x-amz-meta-md5-hash content-location '
       'x-ocsp-reponder-id content-transfer-encoding x-content-type-options x-host '
       'dl_s').split()
DATES = ('last-modified', 'date', 'expires', 'if-modified-since', 'if-unmodified-since')
NUMBERS = (':status', 'content-length', 'age')
ACCEPTS = ('accept', 'accept-language', 'accept-encoding', 'accept-charset')
ETAGS = ('etag', 'if-match', 'if-none-match')
TYPED = DATES + NUMBERS + ACCEPTS + ETAGS + ('set-cookie', 'cookie', 'cache-control',
                                             ':method', 'p3p')
METHODS = ['get', 'post', 'put', 'patch', 'delete', 'options', 'connect']
P3P = ('NOI ALL CAO IDC OTI NON DSP COR MON LAW NID CUR ADM DEV TAI PSA PSD IVA IVD CON '
       'HIS TEL OTP OUR DEL SAM UNR PUB OTR NOR STP LEG BUS IND PHY ONL UNI PUR FIN COM '
       'NAV INT DEM CNT STA POL HEA PRE LOC GOV OTC TST').split()
EPOCH90 = 631152000


def uvarint(n):
    out = bytearray()
    while True:
        out.append(n & 127 | (128 if n > 127 else 0))
        n >>= 7
        if not n:
            return bytes(out)


def read_uvarint(b, i):
    n = shift = 0
    while True:
        if i >= len(b):
            raise refdec.Bad('unfinished number')
        n |= (b[i] & 127) << shift
        shift += 7
        i += 1
        if b[i - 1] < 128:
            return n, i


def seconds(text, epoch=None):
    """Seconds since 1990 (or another epoch) of a date, or the number it is, or 0."""
    m = re.match(r'(\w{3}), (\d\d) (\w{3}) (\d{4}) (\d\d):(\d\d):(\d\d) GMT$', text)
    if m and m.group(3) in MONTHS:
        _, d, mo, y, hh, mm, ss = m.groups()
        t = calendar.timegm((int(y), MONTHS.index(mo) + 1, int(d), int(hh), int(mm),
                             int(ss), 0, 0, 0))
        return max(0, t - (EPOCH90 if epoch is None else epoch))
    return max(0, int(text)) if re.match(r'-?\d+$', text) else 0


MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


def unpacked(v):
    """Cookie values that look like hex or base64 travel as what they encode."""
    if re.match(r'([a-fA-F0-9]{2})*$', v):
        return bytes.fromhex(v)
    if re.match(r'(?:[A-Za-z0-9+/]{4})*(?:[A-Za-z0-9+/]{2}==|[A-Za-z0-9+/]{3}=)?$', v):
        return base64.b64decode(v)
    return v.encode('latin-1')


def number(text):
    """What counts for a number: 0 if it is none"""
    return max(0, int(text)) if re.match(r'\s*[-+]?\d+\s*$', text) else 0


def pairs_of(v):
    """name=value, name="value" list, separated by commas"""
    out = {}
    for part in re.findall(r'(?:[^,"]|"[^"]*")+', v):
        k, eq, x = part.strip().partition('=')
        out[k] = x.strip('"') if eq else None
    return out


def typed_meaning(name, v, epoch=None):
    """What a typed value must say on the wire, in a comparable form."""
    if name in DATES:
        return [seconds(v, epoch)]
    if name in NUMBERS:
        return [number(x) for x in v.split('\0')]
    if name == ':method':
        return METHODS.index(v) + 1 if v in METHODS else v
    if name in ETAGS:
        return [hashlib.md5(x.encode('latin-1')).digest() for x in v.split('\0')]
    if name in ACCEPTS:
        out = []
        for part in v.split(','):
            m = re.match(r'\s*([^\s;,]+)(?:\s*;\s*q=([\d.]+))?\s*$', part)
            if not m:
                raise refdec.Bad('%s: %r' % (name, part))
            if float(m.group(2) or 1) > 0:
                out.append((float(m.group(2) or 1), m.group(1)))
        return out
    if name == 'cache-control':
        d = {}
        for part in re.split('[,\0]', v):
            k, eq, x = part.partition('=')
            d[k.strip().lower()] = x.strip() if eq else '1'
        return [number(d.get(k, '')) for k in ('max-age', 'max-stale', 'min-fresh')]
    if name == 'cookie':
        return sorted((k.encode('latin-1'), unpacked(x) if x is not None else b'')
                      for k, x in pairs_of(v).items())
    if name == 'set-cookie':
        out = []
        for c in v.split('\0'):
            f = [x.strip() for x in c.split(';')]
            k, _, x = f[0].partition('=')
            at = dict((y.partition('=')[0].lower(), y.partition('=')[2]) for y in f[1:])
            age = at.get('max-age', '')
            k = re.sub(r"[^\w!#%&'*+.^`|~-]", '_', k)   # what no name may hold
            out.append((k.encode('latin-1'), unpacked(x),
                        at.get('path', '').encode('latin-1'),
                        at.get('domain', '').encode('latin-1'),
                        number(age) if age else seconds(at.get('expires', ''), epoch)))
        return out
    if name == 'p3p':
        d = pairs_of(v)
        cp = []
        for t in (d.get('CP') or '').split(' '):
            if t[:3] not in P3P or len(t) == 4 and t[3] not in 'aio':
                cp = []
                break
            cp.append((P3P.index(t[:3]) + 1) << 2 | ('aio'.index(t[3]) if len(t) == 4 else 0))
        return [d.get('policyref', ''), cp]
    raise KeyError(name)


def typed_read(name, b, whole=True):
    """The same from the wire; (meaning, length read)."""
    def done(x, i):
        if whole and i != len(b):
            raise refdec.Bad('%s: %d bytes left over' % (name, len(b) - i))
        return x
    if name in DATES or name in NUMBERS:
        out, i = [], 0
        while i < len(b):
            n, i = read_uvarint(b, i)
            out.append(n)
        return out
    if name == ':method':
        return b[0] if len(b) == 1 and b[0] < 32 else b.decode('latin-1')
    if name in ETAGS:
        n, i = read_uvarint(b, 0)
        out = []
        for _ in range(n):
            if b[i:i + 1] != b'\x10' or len(b) < i + 17:
                raise refdec.Bad('%s: bad tag at byte %d' % (name, i))
            out.append(b[i + 1:i + 17])
            i += 17
        return done(out, i)
    if name in ACCEPTS:
        return [x.decode('latin-1') for x in b.split(b'\0')] if b else []
    if name == 'cache-control':
        out, i = [], 1
        for _ in range(4):
            n, i = read_uvarint(b, i)
            out.append(n)
        if b[:1] != b'_' or out.pop():
            raise refdec.Bad('cache-control flags')
        return done(out, i)
    if name == 'cookie':
        out, i = [], 0
        while i < len(b):
            if b[i:i + 1] != b'_':
                raise refdec.Bad('cookie flags')
            s = []
            i += 1
            for _ in range(2):
                n, i = read_uvarint(b, i)
                s.append(b[i:i + n])
                if len(s[-1]) != n:
                    raise refdec.Bad('cookie too short')
                i += n
            out.append(tuple(s))
        return sorted(out)
    if name == 'set-cookie':
        out, i = [], 0
        while i < len(b):
            if out:
                if b[i]:
                    raise refdec.Bad('set-cookie separator')
                i += 1
            if b[i:i + 1] != b'.':
                raise refdec.Bad('set-cookie flags')
            i += 1
            s = []
            for k in range(4):
                if k < 2:
                    n, i = read_uvarint(b, i)
                else:
                    n, i = struct.unpack('!H', b[i:i + 2])[0], i + 2
                s.append(b[i:i + n])
                if len(s[-1]) != n:
                    raise refdec.Bad('set-cookie too short')
                i += n
            n, i = read_uvarint(b, i)
            out.append(tuple(s) + (n,))
        return out
    if name == 'p3p':
        n, i = read_uvarint(b, 0)
        return [b[i:i + n].decode('latin-1'), list(b[i + n:])]
    raise KeyError(name)


def same_typed(name, want, got):
    if name in ACCEPTS:
        if sorted(x for _, x in want) != sorted(got):
            return False
        qs = [q for q, x in want]
        if len(set(qs)) == len(qs) and not any('*' in x for _, x in want):
            return got == [x for q, x in sorted(want, reverse=True)]
        return True
    return want == got


def bohe_frame(wire, codes):
    """[(name, typed, multiple, value bytes or text)]"""
    bits = refdec.Bits(wire)
    deep = max(map(len, codes))
    out = []
    # a header takes more than the seven bits of padding there can be
    while bits.left() > 7:
        n = bits.get(8)
        if n & 128:
            name = ''.join(chr(bits.get(8)) for _ in range(n & 127))
        elif 1 <= n <= len(IDS):
            name = IDS[n - 1]
        else:
            raise refdec.Bad('no header has number %d' % n)
        typed, many, length = bits.get(1), bits.get(1), bits.get(22)
        if typed:
            v = bytes(bits.get(8) for _ in range(length))
        else:
            at = bits.i
            v = bits.huff(codes, deep)
            if (bits.i - at + 7) // 8 != length:
                raise refdec.Bad('%s: says %d bytes, has %d bits' % (name, length,
                                                                    bits.i - at))
        out.append((name, typed, many, v))
    if bits.get(bits.left()):
        raise refdec.Bad('padding is not zero')
    return out


def judge_bohe(run, jb, events, codes):
    req = jb['procs'][0]['req']
    good = 0
    ev = {}
    for ev in events:
        if sess.crash(run, jb, ev):
            return
        x = jb['script'][ev['i']][2]
        h = jb['msgs'][x][0]

        def bad(what):
            run.violation('%s: message %d: %s' % (sess.fmt(jb), x, what),
                          {'kind': 'bohe', 'job': sess.cut(jb, ev['i'])})
        if 'ni' in ev or 'mut' in ev:
            return bad('compress is missing' if 'ni' in ev else 'compress changed the '
                       'headers it was given')
        try:
            got = bohe_frame(wire_of(ev), codes[req])
            names = sorted(g[0] for g in got)
            if names != sorted(h):
                return bad('holds headers %r, should hold %r' % (names, sorted(h)))
            for name, typed, many, v in got:
                if many != ('\0' in h[name]):
                    return bad('%s: flag of multiple values is %d' % (name, many))
                if typed != (name in TYPED and name in IDS):
                    return bad('%s: flag of typed values is %d' % (name, typed))
                if typed:
                    want = typed_meaning(name, h[name])
                    v = typed_read(name, v)
                    ok = same_typed(name, want, v)
                else:
                    want, ok = h[name], v == h[name]
                if not ok:
                    return bad('%s says %.200r, should say %.200r' % (name, v, want))
                run.count('typed_' + name if typed else 'values_by_number'
                          if name in IDS else 'values_by_name')
        except (refdec.Bad, struct.error, IndexError) as e:
            return bad('cannot be read by the format: %s' % e)
        run.case((req, ev['w']), bool(h))
        run.count('messages_read')
        good += 1
    run.count('sessions')
    run.sample({'session': jb['tag'], 'messages': good, 'last_wire': ev.get('w', '')[:80]})


def date_text(t):
    return time.strftime('%a, %d %b %Y %H:%M:%S GMT', time.gmtime(t))


def some_date(r):
    return r.choice([lambda: date_text(r.randint(EPOCH90, 2 ** 31)),
                     lambda: date_text(EPOCH90 + r.choice([0, 1, 127, 128, 16383, 16384,
                                                           2 ** 28 - 1, 2 ** 28])),
                     lambda: date_text(r.randint(0, EPOCH90)),
                     lambda: str(r.choice([0, 1, 127, 128, 300, 86400, 31536000, -1])),
                     lambda: r.choice(['', 'never', 'Thu', 'Thu, 01 Jan 1970'])])()


def typed_value(r, name, req):
    """A value the typed encoder of the header is meant for."""
    word = lambda a, b, al='abcdefgh-_XYZ': ''.join(   # noqa: E731
        r.choice(al) for _ in range(r.randint(a, b)))

    def some(a, b, al='abc'):   # short as a rule, now and then longer than a byte says
        n = r.choice([127, 128, 255, 256, 257, 300]) if r.random() < .08 else r.randint(a, b)
        return ''.join(r.choice(al) for _ in range(n))
    if name in DATES:
        return some_date(r)
    if name in NUMBERS:
        one = lambda: str(r.choice([0, 1, 127, 128, 129, 16383, 16384, 200, 2 ** 21,   # noqa
                                    2 ** 32 + 5, r.randint(0, 10 ** r.randint(1, 12))]))
        if name == ':status':
            return str(r.choice([100, 127, 128, 200, 204, 304, 404, 500, 599]))
        if r.random() < .1:
            return r.choice(['', '5,5', 'abc', '1.5', '0x10', ' 77', '12 bytes', '-3', '+4',
                             '7\0x', '--1', '1 2'])
        return '\0'.join(one() for _ in range(r.choice([1, 1, 1, 2, 3])))
    if name == ':method':
        return r.choice(METHODS + ['GET', 'head', 'PROPFIND', 'Post'])
    if name in ETAGS:
        return '\0'.join(r.choice(['"%s"', '"%s"', 'W/"%s"', '%s', '"%s:0"', '*%s', '"a,%s"'])
                         % some(0, 30, 'abcXY-_') for _ in range(r.choice([1, 1, 2, 3, 130])))
    if name in ACCEPTS:
        out = []
        for x in r.sample(['text/html', 'text/css', 'en-US', 'en', 'gzip', 'deflate',
                           '*/*', 'image/png', 'utf-8', 'x' + some(0, 9)],
                          r.randint(1, 6)):
            q = r.choice(['', '', ';q=0.%d' % r.randint(1, 9), ';q=0', ';q=1.0',
                          '; q=0.%d' % r.randint(1, 9), ';q=0.%03d' % r.randint(0, 999)])
            out.append(x + q)
        return r.choice([',', ', ']).join(out)
    if name == 'cache-control':
        out = r.sample(['max-age=%d' % r.choice([0, 1, 127, 128, 31536000]),
                        'max-stale', 'max-stale=%d' % r.randint(2, 999),
                        'min-fresh=%d' % r.randint(0, 999), 'no-cache', 'private',
                        'No-Store', 'Max-Age = 77', 'max-age=soon', 'min-fresh="9"',
                        'max-age=-1', 's-maxage=%d' % r.randint(1, 999), 'no-transform',
                        'MAX-STALE=12', 'community="UCI"', 'max-age=%d' % 2 ** 31,
                        'must-revalidate', ''], r.randint(1, 6))
        seen, uniq = set(), []
        for p in out:
            k = p.partition('=')[0].strip().lower()
            if k not in seen:
                seen.add(k)
                uniq.append(p)
        return r.choice([', ', ',', '\0']).join(uniq)
    if name in ('cookie', 'set-cookie'):
        def val():
            return r.choice([lambda: word(1, 40), lambda: word(2, 3) + '-',
                             lambda: '%0*x' % (2 * r.randint(1, 16), r.getrandbits(8)),
                             lambda: base64.b64encode(bytes(
                                 r.getrandbits(8) for _ in range(r.randint(1, 30)))
                                 ).decode(),
                             lambda: word(150, 400), lambda: ''])()
        if name == 'cookie' and r.random() < .4:     # as browsers write them
            return '; '.join('%s=%s' % (some(1, 9, 'ab-_XY.'), r.choice(
                [val().rstrip('='), word(1, 9, 'ab%/:?&|~+ '), '1'])) for _ in
                range(r.choice([1, 2, 3, 8, 20])))
        if name == 'cookie':
            return ', '.join('c%d%s=%s' % (i, some(0, 5, 'ab-_XY'), val().rstrip('='))
                             for i in range(r.randint(1, 5)))
        out = []
        for _ in range(r.choice([1, 1, 2, 4])):
            c = 'n%s=%s' % (some(0, 9, 'abcd' if r.random() < .9 else 'ab:@/(,'),
                            val().rstrip('=') or 'v-')
            if r.random() < .5:
                c += '; path=/' + some(0, 9)
            if r.random() < .5:
                c += '; domain=.' + some(1, 30) + '.com'
            if r.random() < .4:
                c += '; max-age=%d' % r.choice([0, 1, 127, 128, 3600]) \
                    if r.random() < .9 else '; max-age=soon'
            elif r.random() < .6:
                c += '; expires=' + r.choice([
                    date_text(r.randint(EPOCH90, 2 ** 31)),
                    time.strftime('%a, %d-%b-%Y %H:%M:%S GMT',
                                  time.gmtime(r.randint(EPOCH90, 2 ** 31)))])
            if r.random() < .3:
                c += '; HttpOnly'
            if r.random() < .2:
                c += r.choice(['; Secure', '; secure', ';secure', '; Path=/u'])
            out.append(c)
        return '\0'.join(out)
    if name == 'p3p':
        odd = r.choice(['z', 'ab', 'A']) if r.random() < .1 else ''
        cp = ' '.join(t + r.choice(['', '', 'a', 'i', 'o', odd])
                      for t in r.sample(P3P, r.randint(1, 12)))
        if r.random() < .2:
            cp = 'This is not a P3P policy'
        v = 'CP="%s"' % cp if r.random() < .95 else 'CP'
        return 'policyref="http://%s/w3c/p3p.xml", ' % some(3, 9) + v \
            if r.random() < .5 else v
    raise KeyError(name)


def bohe_msgs(seed, req, n, big=0):
    r = random.Random(seed)
    g = gen.Gen(seed, 'web', req, latin1=True)
    mine = [k for k in IDS if k not in TYPED and k[0] != ':' and k != 'connection']
    out = []
    for i in range(n):
        h, host = g.base()
        for k in list(h):
            if k in TYPED:
                h[k] = typed_value(r, k, req)
        for k in r.sample(mine, r.choice([0, 1, 3, 8])):
            h[k] = '\0'.join(g.raw(0, r.choice([1, 5, 40])) for _ in
                             range(r.choice([1, 1, 1, 2, 3])))
        for k in r.sample([t for t in TYPED if t[0] != ':'], r.choice([0, 1, 2, 5])):
            if k in IDS:
                h[k] = typed_value(r, k, req)
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            k = r.choice([lambda: 'x-' + g.word(0, 12), lambda: g.word(1, 3),
                          lambda: g.word(120, 127), lambda: 'if-match',
                          lambda: 'accept-charset', lambda: 'if-unmodified-since'])()
            if k not in IDS:
                h[k] = g.raw(0, r.choice([3, 30, 90]))
        if big and i % 9 == 4:
            h['x-big'] = g.raw(big, big)
        out.append([h, host])
    return out


@prop('P22')
def p22(run):
    run.rule = ('a case is one frame read by a receiver written from the format; distinct '
                'by its bytes and direction; non-trivial if it has a header')
    jobs = []
    for k in range(run.n(24, 200)):
        s = sess.seed_of('P22', run.seed, k)
        req = k % 2 == 0
        n = 6 if k % 4 == 3 else run.n(45, 90)
        ms = bohe_msgs(s, req, n, [0, 0, 300, 20000][k % 4])
        jobs.append(send_only(sess.job('bohe', [], 'typed', req, 0, s, msgs=ms)))
    codes = bohe_codes('bohe')
    for jb, ev in core.run_jobs('jy', jobs):
        sess.expect_complete(run, jb, ev)
        judge_bohe(run, jb, ev, codes)
    if not run.violations:
        run.require('messages_read', 500)
        run.require('values_by_number', 500)
        run.require('values_by_name', 200)
        for k in TYPED:
            if k in IDS:
                run.require('typed_' + k, 10)


def bohe_codes(d):
    out = {}
    jobs = [{'kind': 'huff', 'dir': d, 'table': t, 'strings': []}
            for t in ('request_freq_table', 'response_freq_table')]
    for jb, ev in core.run_jobs('jy', jobs, shards=1):
        if not ev or 'codes' not in ev[0]:
            raise core.Broken('no code from the shipped table: %r' % (ev,))
        out[jb['table'].startswith('req')] = refdec.code_map(ev[0]['codes'])
    return out
