# Workload generator: header-message histories.  Runs unchanged on Python 3
# and on Jython 2.7, and is fully determined by (seed, profile).
#
# A history is a list of (headers, host); headers is a dict in the format the
# codecs document: lower-case names, ':'-prefixed special names, several
# instances of one field joined with NUL.
import datetime
import random
import re

TOKEN = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyz"
VIS = "".join(chr(c) for c in range(0x21, 0x7f))
VISC = VIS.replace(';', '')

COMMON_REQ = ['accept', 'accept-charset', 'accept-encoding', 'accept-language',
              'authorization', 'cache-control', 'if-modified-since',
              'if-none-match', 'referer', 'user-agent', 'x-requested-with',
              'range', 'via', 'origin', 'content-type', 'content-length',
              'dnt', 'te', 'pragma', 'x-a', 'x-b']
COMMON_RES = ['accept-ranges', 'age', 'allow', 'cache-control', 'content-encoding',
              'content-language', 'content-length', 'content-type', 'date',
              'etag', 'expires', 'last-modified', 'location', 'server',
              'set-cookie', 'vary', 'via', 'p3p', 'x-powered-by', 'pragma',
              'x-cache', 'access-control-allow-origin', 'status',
              'content-disposition', 'x-a', 'x-b']
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
# fields whose values have a fixed syntax: never edited character by character
STRICT = ('date', 'expires', 'last-modified', 'if-modified-since', ':status',
          ':method', ':scheme', ':host', 'content-length', 'age', 'status')
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
          'Nov', 'Dec']


class Gen(object):
    def __init__(self, seed, profile='web', is_request=True, latin1=False):
        self.r = random.Random(seed)
        self.profile = profile
        self.is_request = is_request
        self.latin1 = latin1
        r = self.r
        n = r.randint(1, 6)
        self.hosts = ['www.' + self.word(3, 9) + '.com' for _ in range(n)]
        if r.random() < .5:
            base = self.word(3, 8) + r.choice(['.com', '.org', '.co.uk'])
            self.hosts += [p + base for p in ('a.', 'img0.', 'static.x.', '')]
        self.vals = {}
        self.last = None

    def word(self, lo, hi, alpha="abcdefghijklmnopqrstuvwxyz"):
        r = self.r
        return ''.join([r.choice(alpha) for _ in range(r.randint(lo, hi))])

    def raw(self, lo, hi, cookie=False):
        """A field value: visible characters and inner blanks."""
        r = self.r
        n = r.randint(lo, hi)
        if n <= 0:
            return ''
        alpha = VISC if cookie else VIS
        mode = r.random()
        if mode < .3:
            alpha = r.choice(["ab", "01", "-a", "/a", "=,"])
        elif self.latin1 and mode < .5:
            alpha = ''.join(chr(c) for c in range(0x80, 0x100) if c not in
                            (0x85, 0xa0))
        s = [r.choice(alpha) for _ in range(n)]
        for i in range(1, n - 1):
            if r.random() < .08:
                s[i] = ' '
        return ''.join(s)

    def date(self):
        r = self.r
        if r.random() < .1:
            return r.choice(['0', '-1', '7f', 'Thu, 1 Jan 1970 00:00:00 GMT',
                             'Sunday, 06-Nov-94 08:49:37 GMT',
                             'Sun Nov  6 08:49:37 1994', 'session'])
        d = datetime.date(r.randint(1999, 2020), r.randint(1, 12), r.randint(1, 28))
        return '%s, %02d %s %d %02d:%02d:%02d GMT' % (
            DAYS[d.weekday()], d.day, MONTHS[d.month - 1], d.year,
            r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))

    def value(self, name):
        """A value for `name`, re-using earlier ones often (that is what the
        delta codecs live on)."""
        r = self.r
        pool = self.vals.setdefault(name, [])
        x = r.random()
        if pool and x < .6:
            return r.choice(pool)
        if pool and x < .75 and name not in STRICT:   # near miss
            v = r.choice(pool)
            k = r.randint(0, 3)
            if k == 0:
                v = v + self.word(1, 4)
            elif k == 1 and len(v) > 1:
                v = v[:r.randint(1, len(v) - 1)]
            elif k == 2 and len(v) > 2:
                c = r.randint(1, len(v) - 1)
                v = v[:c] + self.raw(1, 6, True) + v[c:]
            elif name == ':path':
                v = '/' + self.word(1, 3) + v
            else:
                v = self.word(1, 3) + v
            v = v.strip()
            if name == ':path':
                v = v.replace(' ', '')
            if name == 'cache-control':
                v = re.sub('[^0-9a-z=, -]', '', v)
                v = re.sub('max-age=[^,]*', 'max-age=%d' % r.randint(0, 10**6), v)
        elif name in ('date', 'expires', 'last-modified', 'if-modified-since'):
            v = self.date()
        elif name == ':path':
            v = '/' + '/'.join([self.word(1, 9) for _ in
                                range(r.randint(0, 4))])
            if r.random() < .3:
                v += '?' + self.word(1, 4) + '=' + self.raw(0, 20).replace(' ', '')
        elif name == ':status':
            v = r.choice(['200', '204', '302', '304', '404', '500'])
        elif name == 'cookie':
            v = self.word(1, 6) + '=' + self.raw(0, 20, True).strip()
        elif name == 'content-length' or name == 'age':
            v = str(r.randint(0, 10 ** r.randint(1, 9)))
        elif name == 'etag' or name == 'if-none-match':
            v = '"%s"' % self.word(8, 32, '0123456789abcdef')
        elif name == 'cache-control':
            v = r.choice(['no-cache', 'max-age=%d' % r.randint(0, 99999),
                          'private, max-age=0', 'public', 'no-store'])
        else:
            v = self.raw(0, r.choice([4, 12, 40, 90]), name == 'cookie').strip()
        pool.append(v)
        if len(pool) > 12:
            pool.pop(0)
        return v

    # -- profiles ---------------------------------------------------------
    def base(self):
        r = self.r
        host = r.choice(self.hosts)
        if self.is_request:
            h = {':method': r.choice(['get', 'get', 'get', 'post', 'head']),
                 ':scheme': r.choice(['http', 'http', 'https']),
                 ':host': host, ':path': self.value(':path')}
        else:
            h = {':status': self.value(':status')}
            if r.random() < .03:
                h[':host'] = host
        return h, host

    def multi(self, name, n, sep):
        out = []
        for _ in range(n):
            v = self.value(name)
            if v not in out:
                out.append(v)
        return sep.join(out)

    def web(self):
        r = self.r
        h, host = self.base()
        names = COMMON_REQ if self.is_request else COMMON_RES
        for name in r.sample(names, r.randint(0, min(14, len(names)))):
            h[name] = self.value(name)
        if self.is_request and r.random() < .6:
            h['cookie'] = self.multi('cookie', r.randint(1, 5), '; ')
        if not self.is_request and r.random() < .4:
            h['set-cookie'] = self.multi('set-cookie', r.randint(1, 4), '\0')
        if r.random() < .15:
            h[r.choice([n for n in names if n not in STRICT])] = \
                self.multi('x-a', r.randint(2, 3), '\0')
        if self.last is not None and r.random() < .3:   # small delta on last
            l = dict(self.last)
            for k in list(l.keys()):
                if r.random() < .15 and k[0] != ':':
                    del l[k]
                elif r.random() < .2 and k not in (':method', ':scheme', ':host'):
                    if k == 'cookie':
                        l[k] = self.multi('cookie', r.randint(1, 4), '; ')
                    else:
                        l[k] = self.value(k)
            host = l.get(':host', host)
            h = l
        self.last = h
        return h, host

    def tiny(self):
        """Few, short, confusable names and values."""
        r = self.r
        h, host = self.base()
        if self.is_request:
            h[':path'] = r.choice(['/', '/a', '/ab', '/b'])
        for _ in range(r.randint(0, 5)):
            k = r.choice(['a', 'ab', 'abc', 'b', 'bc', 'c'])
            n = r.choice([1, 1, 1, 2])
            vs = []
            for _ in range(n):
                v = r.choice(['', 'a', 'b', 'c', 'bc', 'abc', 'ab', 'cb'])
                if v not in vs:
                    vs.append(v)
            h[k] = '\0'.join(vs)
        return h, host

    def churn(self):
        """Always-new values of all sizes: forces evictions."""
        r = self.r
        h, host = self.base()
        for _ in range(r.randint(1, 10)):
            k = r.choice(COMMON_REQ if self.is_request else COMMON_RES)
            if r.random() < .2:
                k = 'x-' + self.word(1, 12)
            if r.random() < .4:
                h[k] = self.value(k)
            else:
                h[k] = self.raw(0, r.choice([3, 20, 100, 100, 600])).strip()
        return h, host

    def wide(self):
        """Many header fields in one message."""
        r = self.r
        h, host = self.base()
        for i in range(r.choice([5, 40, 90, 140, 200])):
            h['x-h%d' % r.randint(0, 400)] = r.choice(
                [str(i), self.word(0, 3), 'same'])
        return h, host

    def big(self):
        """A few large values."""
        r = self.r
        h, host = self.base()
        for _ in range(r.randint(1, 3)):
            k = r.choice(['x-big', 'x-big2', 'referer', 'etag'])
            if r.random() < .4:
                h[k] = self.value(k)
            else:
                v = self.raw(500, r.choice([1500, 3000, 5000])).strip()
                self.vals.setdefault(k, []).append(v)
                h[k] = v
        return h, host

    def ranges(self):
        """Unions of intervals of a fixed list of fields, and sometimes a new
        one: whole runs of table entries switch on and off together."""
        r = self.r
        h, host = self.base()
        if self.is_request:
            h[':path'] = '/' + r.choice('abc')
        if not self.vals.get('__n'):
            self.vals['__n'] = [r.choice([6, 20, 40])]
        n = self.vals['__n'][0]
        for _ in range(r.randint(0, 3)):
            a = r.randint(0, n - 1)
            b = min(n, a + r.choice([1, 2, 3, 8, 17, n]))
            for i in range(a, b):
                h['x-r%d' % i] = 'v%d' % (i * i)
        if r.random() < .3:
            h['x-r%d' % r.randint(0, n - 1)] = self.word(1, 5)
        return h, host

    def groups(self):
        """Many hosts, few distinct header sets."""
        r = self.r
        h, host = self.base()
        host = 'www.h%d.com' % r.choice([r.randint(0, 3), r.randint(0, 40)])
        if self.is_request:
            h[':host'] = host
            h[':path'] = r.choice(['/', '/a', '/b'])
        for k in r.sample(['x-a', 'x-b', 'x-c', 'x-d', 'referer', 'server'],
                          r.randint(0, 5)):
            h[k] = r.choice(['1', '2', '3'])
        if r.random() < .2:
            h['x-new'] = self.word(3, 30)
        return h, host

    LENGTHS = (0, 1, 2, 3, 14, 15, 16, 17, 22, 30, 31, 32, 33, 62, 63, 64, 65, 126,
               127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 1023,
               1024, 1025, 2047, 2048, 4095, 4096, 4097)

    def lengths(self):
        """Names and values whose lengths sit on the edges of the encodings."""
        r = self.r
        h, host = self.base()
        for _ in range(r.randint(1, 4)):
            ln = r.choice(self.LENGTHS)
            k = r.choice(['x-l', 'x-m', 'referer', 'server', 'x-' + 'n' * min(
                125, r.choice(self.LENGTHS[4:]))])
            c = r.choice('abz0~-')
            v = c * ln
            if r.random() < .3 and ln:
                v = v[:-1] + r.choice('01!')
            h[k] = v
        return h, host

    def huge(self):
        """A block larger than one 64 KB frame, now and then."""
        r = self.r
        h, host = self.base()
        h['x-n'] = self.word(1, 9)
        if r.random() < .4:
            for i in range(r.randint(1, 3)):
                h['x-h%d' % i] = self.raw(100, 200) * r.choice([5, 60, 250, 400])
        return h, host

    def count(self):
        """Numbers of fields on the edges of the operation counts."""
        r = self.r
        h, host = self.base()
        n = r.choice([1, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129,
                      r.choice([230, 247])])
        tag = r.choice('abc')
        for i in range(n):
            h['x-%s%d' % (tag, i * (1 if n < 40 else r.choice([1, 1, 1, 2])))] = \
                r.choice(['1', '1', self.word(1, 3)])
        return h, host

    def alternate(self):
        """A handful of fixed messages over and over, each with a slow change."""
        r = self.r
        pool = self.vals.setdefault('__alt', [])
        if len(pool) < 5:
            pool.append(self.web())
        i = r.randint(0, len(pool) - 1)
        h, host = pool[i]
        h = dict(h)
        if r.random() < .3:
            k = r.choice(['x-a', 'referer', 'server', 'x-z'])
            h[k] = self.raw(1, 40).strip()
            pool[i] = (h, host)
        return h, host

    def mixed(self):
        f = self.r.choice([self.web, self.web, self.web, self.tiny, self.churn,
                           self.churn, self.wide, self.big, self.ranges,
                           self.groups, self.lengths, self.alternate])
        return f()

    def message(self):
        return getattr(self, self.profile)()

    def history(self, n):
        return [self.message() for _ in range(n)]


def norm(h, ignore=()):
    """The documented meaning of a header set: the set of (name, value), with
    NUL-joined instances and cookie crumbs taken apart."""
    out = set()
    for k, v in h.items():
        if k in ignore:
            continue
        for item in v.split(';' if k == 'cookie' else '\0'):
            out.add((k, item.strip()))
    return out


def norm2(h):
    """What the tool may compare: as norm, blanks (only) stripped, the fields that
    are connection specific or not sent left out."""
    out = set()
    for k, v in h.items():
        if k not in (':version', ':status-text', 'connection'):
            for item in v.split(';' if k == 'cookie' else '\0'):
                out.add((k, item.strip(' ')))
    return out
