"""The comparison tool: HAR files in, codecs run over streams, numbers out."""
import atexit
import json
import math
import os
import random
import re
import shutil
import subprocess
import tempfile

import core
import gen
import sess

REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


LOCALE = []


def env():
    """The tool wants the locale en_US, which this sandbox does not have ready."""
    if not LOCALE:
        d = tempfile.mkdtemp(prefix='verif-loc-')
        atexit.register(shutil.rmtree, d, True)
        r = subprocess.call(['localedef', '-i', 'en_US', '-f', 'UTF-8', d + '/en_US'],
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r == 0 or os.path.isdir(d + '/en_US'):
            LOCALE.append({'LOCPATH': d})
        else:
            LOCALE.append({'VERIF_NO_LOCALE': '1'})
    return LOCALE[0]


def latin():
    """The locale en_US as many systems have it (ISO 8859-1), or None."""
    d = tempfile.mkdtemp(prefix='verif-loc-')
    atexit.register(shutil.rmtree, d, True)
    r = subprocess.call(['localedef', '-i', 'en_US', '-f', 'ISO-8859-1', d + '/en_US'],
                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return d if (r == 0 or os.path.isdir(d + '/en_US')) and not env().get(
        'VERIF_NO_LOCALE') else None


def run_tool(jobs):
    out = []
    for jb, ev in core.run_jobs('tool', jobs, env=env()):
        if len(ev) != 1:
            raise core.Inconclusive('tool job without result: %r' % ev)
        if 'fatal' in ev[0]:
            raise (core.Broken if core.REPO + '/' in ev[0]['fatal'] else core.Inconclusive)(
                ev[0]['fatal'])
        out.append((jb, ev[0]))
    return out


# -- HAR files ----------------------------------------------------------------------
PHRASES = {200: 'OK', 204: 'No Content', 301: 'Moved Permanently', 302: 'Found',
           304: 'Not Modified', 404: 'Not Found', 500: 'Internal Server Error',
           206: 'Partial Content', 403: 'Forbidden', 307: 'Temporary Redirect'}
ODD_URLS = ['data:text/plain;base64,SGVsbG8=', 'about:blank', 'ftp://www.a.com/x',
            'chrome-extension://abcdef/x.js', 'ws://www.a.com/chat', 'wss://www.a.com/c',
            'file:///etc/hosts', 'httpx://www.a.com/', 'blob:http://www.a.com/1234']
REQ_NAMES = ['Accept', 'Accept-Encoding', 'User-Agent', 'Referer', 'X-Requested-With',
             'Cookie', 'Authorization', 'Range', 'Via', 'DNT', 'x-a', 'X-A', 'Keep-Alive',
             'X-Hop', 'TE']
RES_NAMES = ['Content-Type', 'Content-Length', 'Server', 'Set-Cookie', 'Vary', 'Via',
             'Cache-Control', 'Expires', 'Date', 'ETag', 'P3P', 'x-a', 'X-A', 'Keep-Alive',
             'X-Hop', 'set-cookie', 'Warning']


class Har(object):
    """A HAR file and what it says: entries of (url, request, response), and the
    pairs of header dictionaries that they mean."""
    def __init__(self, r, n, tame=False, hosts=None):
        self.r, self.tame = r, tame
        self.g = gen.Gen(r.getrandbits(32), 'web', True)
        self.hosts = hosts or ['www.%s.com' % self.g.word(2, 6) for _ in range(3)] + [
            'img.example.org', 'example.org', 'a.b.example.co.uk', 'WWW.Example.org', '[2001:db8::1]']
        entries, self.pairs = [], []
        while len(entries) < n:
            e, p = self.entry()
            entries.append(e)
            if p:
                self.pairs.append(p)
        self.har = {'log': {'version': '1.2', 'entries': entries}}

    def word(self, lo, hi, alpha='abcdefghijklmnopqrstuvwxyz0123456789-_.'):
        return ''.join(self.r.choice(alpha) for _ in range(self.r.randint(lo, hi)))

    def value(self, name):
        r = self.r
        if name.lower() == 'cookie':
            return '; '.join(self.word(1, 4) + '=' + self.word(0, 9)
                             for _ in range(r.randint(1, 5))) \
                if self.tame or r.random() < .8 else r.choice(
                    ['a=1;b=2', 'a=1; ', ';a=1', 'a=1;; b=2', 'a=1; a=1', '', 'a', 'a=1,b=2',
                     '; '.join(self.word(1, 9) + '=' + self.word(1, 40) for _ in range(40))])
        x = r.random()
        if x < .08:
            return ''
        if x < .5:
            return r.choice(['text/html', 'gzip, deflate', '0', 'a; b', 'no-cache',
                             'max-age=60', 'x:y', '"quoted"', 'a=b;c', 'HTTP/1.1 200 OK'])
        if x < .6 and not self.tame:
            return r.choice(['caf\xe9', '\u20ac 5', ' padded ', 'tab\there', '\U0001f600'])
        if r.random() < .05:
            return self.word(*r.choice([(200, 900), (200, 900), (255, 257), (4000, 9000)]))
        return self.word(1, 30)

    def headers(self, names):
        r = self.r
        out, want = [], {}
        many = r.random() < .03
        chosen = [r.choice(names) for _ in range(r.randint(30, 70) if many
                                                 else r.randint(0, 9))]
        if r.random() < .04:
            chosen += [r.choice(names)] * r.randint(3, 9)
        if r.random() < .05 and not self.tame:  # as browsers list HTTP/2 messages
            chosen += r.sample([':authority', ':method', ':path', ':scheme', ':status',
                                ':version'], 3)
        if r.random() < .25:
            chosen += ['Connection', 'connection'][:r.choice([1, 1, 2])]
        for name in chosen:
            if r.random() < .2:
                name = r.choice([name.lower(), name.upper(), name])
            if name.lower() == 'connection':
                v = r.choice(['close', 'Keep-Alive', 'keep-alive, x-hop', 'X-Hop', '\tx-hop',
                              'TE, X-HOP ,close', 'close,x-a', ' te'])
            else:
                v = self.value(name)
            out.append({'name': name, 'value': v})
            k = name.lower()
            want[k] = want[k] + '\0' + v if k in want else v
        return out, want

    def url(self):
        r = self.r
        scheme = r.choice(['http', 'http', 'https', 'HTTP', 'Https'])
        host = r.choice(self.hosts)
        if r.random() < .15:
            host += r.choice([':80', ':8080', ':443'])
        path = r.choice(['', '/', '/index.html', '/' + self.word(1, 12),
                         '/a;p=1/b', '/%20x', '//double', '/a:b@c', '/' + self.word(1, 5)
                         + '/' + self.word(0, 30)])
        if not self.tame and r.random() < .05:
            path = '/\xfc/' + path
        query = r.choice(['', '', '?a=1', '?' + self.word(1, 20), '?a=/b?c=d', '?x=&y'])
        if not path and query:
            path = r.choice(['', '/'])
        frag = r.choice(['', '', '', '#top', '#a?b', '#'])
        login = r.choice(['me@', 'me:p%40ss@', 'a:b:c@']) if r.random() < .04 else ''
        return scheme, host, path, query, scheme + '://' + login + host + path + query + frag

    def entry(self):
        r = self.r
        req_h, req = self.headers(REQ_NAMES)
        res_h, res = self.headers(RES_NAMES)
        odd = r.random() < .08
        scheme, netloc, path, query, url = self.url()
        if odd:
            url = r.choice(ODD_URLS)
        if r.random() < .7 or self.tame and False:
            host = r.choice([netloc, netloc, r.choice(self.hosts)])
            req_h.insert(r.randint(0, len(req_h)),
                         {'name': r.choice(['Host', 'host', 'HOST']), 'value': host})
            req[':host'] = host
            if not self.tame and r.random() < .06:
                req_h.append({'name': r.choice(['Host', 'host', 'HOST']), 'value': 'b.com'})
                req[':host'] += '\0b.com'
        if r.random() < .03:
            hosts = ['www.a.com', 'b.com'][:1 + (r.random() < .3)]
            for h in hosts:
                res_h.append({'name': r.choice(['Host', 'host']), 'value': h})
            res[':host'] = '\0'.join(hosts)
        method = r.choice(['GET', 'GET', 'POST', 'head', 'Options', 'PUT'])
        version = r.choice(['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', 'unknown'])
        version2 = r.choice(['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', 'unknown'])
        code = r.choice([200, 200, 200, 204, 206, 301, 302, 304, 307, 403, 404, 500, 299,
                         599, 0])
        text = r.choice(['', '', ' ', 'OK', ' Fine ', 'Not Found', 'Two Words'])
        status = code if r.random() < .8 else r.choice([str(code), '%d OK' % code,
                                                         '%d something 7' % code])
        req.update({':method': method.lower(), ':scheme': scheme.lower(),
                    ':path': (path or '/') + (query if query != '?' else ''),
                    ':version': version})
        req.setdefault(':host', netloc)
        res.update({':status': str(code), ':version': version2,
                    ':status-text': text.strip() or PHRASES.get(code, 'unknown')})
        e = {'startedDateTime': '2012-01-01T00:00:00Z', 'time': r.randint(0, 900),
             'request': {'url': url, 'method': method, 'httpVersion': version,
                         'headers': req_h, 'cookies': [], 'headersSize': -1},
             'response': {'status': status, 'statusText': text, 'httpVersion': version2,
                          'headers': res_h, 'content': {'size': 3, 'text': 'abc'}}}
        return e, None if odd else (req, res)

    def text(self):
        r = self.r
        return json.dumps(self.har, ensure_ascii=r.random() < .5,
                          indent=r.choice([None, 1]))


def show(a, b):
    """The first difference of two header dictionaries."""
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return '%r is %r, should be %r' % (k, b.get(k), a.get(k))
    return 'equal'


@prop('P17')
def p17(run):
    run.rule = ('a case is one entry of a HAR file read by the tool; distinct by URL, '
                'status and headers; non-trivial if it is an http or https entry with '
                'headers')
    jobs, hars = [], []
    western = latin()
    for i in range(run.n(2000, 20000)):
        r = random.Random(sess.seed_of(run.seed, 'har', i))
        h = Har(r, r.choice([0, 1, 3, 8, 20]) if i % 40 else 130)
        text = h.text()
        if r.random() < .1:             # readers have to ignore it (HAR 1.2)
            text = '\ufeff' + text
            run.count('files_with_byte_order_mark')
        jobs.append({'kind': 'har', 'files': {'x.har': text}, 'n': len(hars)})
        if western and i % 5 == 0:
            jobs[-1]['locale'] = western
            run.count('files_read_in_latin1_locale')
        hars.append(h)
    for i in range(run.n(20, 200)):         # files that are no HAR
        r = random.Random(sess.seed_of(run.seed, 'bad', i))
        t = Har(r, 2).text()
        jobs.append({'kind': 'har', 'n': None, 'files': {
            'broken.har': r.choice([t[:r.randint(0, len(t) - 1)], t + '}', '<html>', '',
                                    t.replace(':', ';', 1)])}})
    for jb, ev in run_tool(jobs):
        rep = {'kind': 'har', 'job': jb}
        if jb['n'] is None:
            run.count('broken_files')
            if ev['status'] in (0, 71) or 'broken.har' not in ev['err']:
                run.violation('a file that is not JSON is not refused: status %d, %r'
                              % (ev['status'], ev['err'][-300:]), rep)
            continue
        h = hars[jb['n']]
        if ev['status'] or not ev['res']:
            run.violation('reading a HAR file fails: %s' % ev['err'][-700:], rep)
            continue
        reqs, ress = ev['res']
        if len(reqs) != len(h.pairs) or len(ress) != len(h.pairs):
            run.violation('%d http entries become %d requests and %d responses'
                          % (len(h.pairs), len(reqs), len(ress)), rep)
            continue
        run.count('skipped_entries', len(h.har['log']['entries']) - len(h.pairs))
        for i, (a, b) in enumerate(h.pairs):
            run.case((sorted(a.items()), sorted(b.items())))
            run.count('entries')
            for want, got, what in ((a, reqs[i], 'request'), (b, ress[i], 'response')):
                if want != got:
                    run.violation('%s %d of a HAR file: %s' % (what, i, show(want, got)),
                                  rep)
                    break
                run.count('repeated_fields', sum('\0' in v for v in want.values()))
        run.sample({'entry': h.har['log']['entries'][:1], 'became': reqs[:1]})
    if not run.violations:
        run.require('entries', 2000)
        run.require('repeated_fields', 300)
        run.require('skipped_entries', 100)


# -- streams -----------------------------------------------------------------------------
def model_streams(name, pairs, psl):
    """[(name, type, [(headers, host)])]"""
    def key(host):
        if name == 'all_one':
            return 'all', host
        if name == 'host':
            return host.lower().strip(), host.lower().strip()
        # an address has no suffix but itself
        if host[0] == '[':
            return host[:host.index(']') + 1], host
        bare = host.split(':', 1)[0]
        parts = bare.split('.')
        if len(parts) == 4 and all(x.isdigit() for x in parts):
            return bare, host
        return psl[bare], host
    order, reqs, ress = [], {}, {}
    for a, b in pairs:
        k, host = key(a[':host'])
        if k not in order:
            order.append(k)
            reqs[k], ress[k] = [], []
        reqs[k].append((a, host))
        ress[k].append((b, host))
    if name == 'all_one' and not order:
        order, reqs, ress = ['all'], {'all': []}, {'all': []}
    out = []
    for k in order:
        out += [(k, 'req', reqs[k]), (k, 'res', ress[k])]
    return out


def psl_of(hosts):
    hosts = sorted(set(h.split(':', 1)[0] for h in hosts))
    (_, ev), = run_tool([{'kind': 'psl', 'hosts': hosts}])
    return dict(zip(hosts, ev['res']))


def host_pool(r):
    tld = ['com', 'org', 'co.uk', 'net', 'de', 'com.au', 'github.io', 'ck', 'kobe.jp',
           'city.kobe.jp', 'uk', 'blogspot.com']
    base = [r.choice(['a', 'b', 'example', 'x-y', 'Shop', 'cdn']) + '.' + r.choice(tld)
            for _ in range(r.randint(1, 5))]
    out = list(base) + [p + b for b in base for p in r.sample(
        ['www.', 'img.', 'a.b.', 'WWW.', 'static1.'], 2)]
    if r.random() < .3:
        out += ['localhost', '10.0.0.1', '192.168.0.1', '[::1]', '[2001:db8::7:1]',
                '7.10.0.0.1', '10.0.0.1.nip.io', '10.0.1']
    return out


@prop('P18')
def p18(run):
    run.rule = ('a case is one list of messages cut into streams by one streamifier; '
                'distinct by streamifier and messages; non-trivial if there are two '
                'messages or more')
    jobs, cases, hosts = [], [], set()
    for i in range(run.n(2400, 20000)):
        r = random.Random(sess.seed_of(run.seed, 'st', i))
        pool = host_pool(r)
        n = r.choice([0, 1, 2, 5, 20, 60])
        pairs = []
        for k in range(n):
            h = r.choice(pool)
            if r.random() < .2:
                h = r.choice([h.upper(), h + ':8080', h.capitalize(), h + ':80'])
            # the same message again now and then: streams are no sets
            if pairs and r.random() < .15:
                pairs.append(tuple(dict(x) for x in r.choice(pairs)))
            else:
                pairs.append(({':host': h, ':path': '/%d' % k, ':method': 'get'},
                              {':status': '200', 'x-n': str(k)}))
                # headers which name another host say nothing about the stream
                if r.random() < .1:
                    pairs[-1][1][r.choice([':host', 'host', 'location'])] = r.choice(pool)
                if r.random() < .1:
                    pairs[-1][0][r.choice(['host', 'referer', ':scheme'])] = r.choice(pool)
            hosts.add(pairs[-1][0][':host'])
        cases.append(pairs)
        jobs.append({'kind': 'streams', 'name': ['all_one', 'host', 'public_suffix'][i % 3],
                     'procs': ['http1', 'p%d' % i], 'messages': pairs, 'n': i})
    psl = psl_of(hosts)
    for jb, ev in run_tool(jobs):
        rep = {'kind': 'streams', 'job': jb}
        if ev['status'] or ev['res'] is None:
            run.violation('streamifier %s fails: %s' % (jb['name'], ev['err'][-600:]), rep)
            continue
        pairs = cases[jb['n']]
        want = model_streams(jb['name'], pairs, psl)
        got = [(n, t, [(h, host) for h, host in ms]) for n, t, ms, _ in ev['res']]
        run.case((jb['name'], repr(pairs)), len(pairs) > 1)
        run.count('streams', len(got))
        run.count('messages', 2 * len(pairs))
        if got != want:
            run.violation('%s: %s' % (jb['name'], first_diff(want, got)), rep)
        elif any(p != jb['procs'] for _, _, _, p in ev['res']):
            run.violation('%s: a stream has other codecs: %r' % (jb['name'], ev['res']), rep)
        if pairs:
            run.sample({'streamifier': jb['name'], 'hosts': [a[':host'] for a, _ in pairs][:8],
                        'streams': [[n, t, len(m)] for n, t, m in got][:8]})
    if not run.violations:
        run.require('streams', 1000)
        run.require('messages', 5000)


def first_diff(want, got):
    ln = [[(n, t, len(m)) for n, t, m in x] for x in (want, got)]
    if ln[0] != ln[1]:
        return 'streams (name, type, messages) are %r, should be %r' % (
            ln[1][:8], ln[0][:8])
    for (n, t, a), (_, _, b) in zip(want, got):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return 'message %d of %s %s is %r, should be %r' % (i, n, t, y, x)
    return 'equal'


# -- runs of the tool -----------------------------------------------------------------
def filtered(h):
    drop = {':status-text', ':version', 'keep-alive', 'connection'}
    for field in h.get('connection', '').split('\0'):
        drop.update(x.strip(' \t').lower() for x in field.split(','))
    return {k: v for k, v in h.items() if k not in drop}


def shown(name, params):
    return name + (' (%s)' % ', '.join(params) if params else '')


class Case(object):
    """One command line with its files, and what should come of it."""
    def __init__(self, seed, mutate=False, debug=None):
        r = self.r = random.Random(seed)
        n = r.choice([1, 1, 2, 3])
        hosts = [h.lower() if r.random() < .8 else h for h in host_pool(r)]
        self.hars = []
        while len(self.hars) < n:
            h = Har(r, r.choice([1, 2, 5, 12]) if r.random() < .97 else 75, True, hosts)
            if r.random() < .06:        # nothing in it, or nothing of HTTP
                h = Har(r, 0, True, hosts)
            self.hars.append(h)
        self.pairs = sum([h.pairs for h in self.hars], [])
        self.files = {'f%d.har' % i: h.text() for i, h in enumerate(self.hars)}
        self.stubs, self.codecs = {}, []
        for k in range(r.randint(1, 3)):
            name = 'stub%s' % 'abc'[k]
            self.stubs[name] = {'mul': r.choice([0, 1, 1, 3]), 'inc': r.choice([0, 1, 17]),
                                'mod': r.choice([1, 50, 1000, 3000000]), 'ops': {},
                                'min': r.choice([1, 5, 1234567]),
                                'none': 1 if r.random() < .15 else 0,
                                'str': 1 if r.random() < .2 else 0}
            self.codecs.append((name, r.choice([[], [], ['x'], ['p', 'q=1']])))
        if mutate:
            self.plan_mutations()
        self.streamifier = r.choice(['all_one', 'host', 'public_suffix', None])
        self.verbose = r.choice([0, 0, 1, 1, 2, 3, 4, 5] if not mutate else [0, 1, 2, 3, 4])
        self.tsv = r.random() < .8
        self.prefix = r.choice(['', 'out-'])
        x = r.random()
        pick = r.choice(self.codecs)
        self.baseline = pick if x < .4 else ('http1', []) if x < .55 else None
        self.debug = mutate and r.random() < .4 if debug is None else debug
        argv = []
        for name, params in self.codecs:
            a = name
            if params:
                a += '=' + ','.join(params) if r.random() < .5 else \
                    '="%s"' % ', '.join(params)
            argv += [r.choice(['-c', '--codec']), a]
            if self.baseline and self.baseline[0] == name:
                argv += ['-b', a]
                if r.random() < .2:     # only as the baseline, then it is the first one
                    del argv[-4:-2]
                    self.codecs = [(name, params)] + [x for x in self.codecs
                                                      if x[0] != name]
        if self.baseline and self.baseline[0] == 'http1':
            argv += ['-b', 'http1']
        if self.verbose:
            argv += ['-v', str(self.verbose)]
        if self.tsv:
            argv.append('-t')
        if self.streamifier:
            argv += ['-s', self.streamifier]
        if self.prefix:
            argv += ['--prefix', self.prefix]
        if self.debug:
            argv.append('-d')
        self.argv = argv + sorted(self.files)
        self.names = [shown(*x) for x in self.codecs]
        self.base = shown(*self.baseline or ('http1', []))
        if self.base not in self.names:
            self.names.insert(0, self.base)
        self.job = {'kind': 'cli', 'argv': self.argv, 'files': self.files,
                    'stubs': self.stubs}

    def plan_mutations(self):
        r = self.r
        n = len(self.pairs)
        for spec in self.stubs.values():
            for _ in range(r.choice([0, 0, 1, 2, 5])):
                key = json.dumps([r.random() < .5, r.randint(1, max(1, min(n, 6)))])
                spec['ops'][key] = [self.op() for _ in range(r.choice([1, 1, 1, 2]))]

    def op(self):
        r = self.r
        i = r.randint(0, 50)
        what = r.choice(['drop', 'add', 'set', 'append', 'upper', 'rename', 'swap',
                         'reverse', 'less', 'more', 'twice', 'blank', 'empty', 'move',
                         'reverse', 'blank', 'twice', 'ignored'])
        if what == 'ignored':
            return ['add', 0, r.choice([':version', ':status-text', 'connection']),
                    r.choice(['HTTP/2', 'x', ''])]
        if what == 'add':
            return [what, 0, r.choice(['x-new', 'cookie', 'keep-alive', 'status',
                                       ':status']), r.choice(['', 'v', 'a=1'])]
        return [what, i, r.choice(['', 'x', 'a=1', '0'])]

    def streams(self, psl):
        # a file is a context of its own; there is nothing to say of a stream without
        # messages
        return [s for h in self.hars for s in
                model_streams(self.streamifier or 'public_suffix', h.pairs, psl) if s[2]]


class Seen(object):
    """What the stand-in codecs recorded: per codec, the sessions in order of
    their first message."""
    def __init__(self, log):
        self.sessions = {}      # name -> [[is_req, params, [call]]]
        self.fresh = True
        inst = {}
        for e in log:
            if e[0] == 'new':
                inst[e[1]] = [e[2], e[3], e[4], []]
            elif e[0] == 'c':
                s = inst[e[1]]
                if not s[3]:
                    self.sessions.setdefault(s[0], []).append(s[1:])
                s[3].append({'h': e[2], 'host': e[3], 'size': e[4], 'cost': e[5], 'd': 0})
            elif e[0] == 'd':
                inst[e[1]][3][-1]['d'] += 1
                inst[e[1]][3][-1]['dn'] = e[2]
            elif e[0] == 'r':
                inst[e[1]][3][-1]['r'] = e[2]


def run_cases(run, cases):
    psl = psl_of([a[':host'] for c in cases for a, _ in c.pairs])
    out = []
    for n, c in enumerate(cases):
        c.job['n'] = n
    for jb, ev in run_tool([c.job for c in cases]):
        c = cases[jb['n']]
        if ev.get('hang'):
            run.violation('the tool does not come to an end: %r' % c.argv,
                          {'kind': 'cli', 'job': jb})
            continue
        out.append((c, ev, c.streams(psl), Seen(ev.get('log') or [])))
    return out


def cli_rep(c):
    return {'kind': 'cli', 'job': c.job}


def failed(run, c, ev):
    if ev['status'] != 0:
        run.violation('the tool ends with %d: %r\n%s' % (ev['status'], c.argv,
                                                         ev['err'][-800:]), cli_rep(c))
        return True
    return False


# -- what the codecs get -----------------------------------------------------------------
@prop('P25')
def p25(run):
    run.rule = ('a case is one message handed to one codec in a run of the tool; distinct '
                'by command line, codec and message; the calls recorded by stand-in codecs '
                'are compared with the streams of the HAR files, and the sizes the tool '
                'reports for the real codecs with separate runs of these codecs')
    cases = [Case(sess.seed_of(run.seed, 'P25', i)) for i in range(run.n(900, 9000))]
    for c, ev, streams, seen in run_cases(run, cases):
        if failed(run, c, ev):
            continue
        run.count('runs')
        bad = None
        for name, params in c.codecs:
            got = seen.sessions.get(name, [])
            want = [(t == 'req', ms) for _, t, ms in streams if ms]
            if [(s[0], len(s[2])) for s in got] != [(q, len(m)) for q, m in want]:
                bad = '%s is given sessions %r, the streams are %r' % (
                    name, [(s[0], len(s[2])) for s in got][:9],
                    [(q, len(m)) for q, m in want][:9])
                break
            for (is_req, par, calls), (_, ms) in zip(got, want):
                if par != params:
                    bad = '%s has parameters %r, should be %r' % (name, par, params)
                for i, (call, (h, host)) in enumerate(zip(calls, ms)):
                    run.case((c.argv, name, is_req, i, sorted(h.items())))
                    run.count('messages')
                    if call['h'] != filtered(h):
                        bad = '%s: message %d: %s' % (name, i,
                                                      show(filtered(h), call['h']))
                    elif call['host'] != host:
                        bad = '%s: message %d for host %r, should be %r' % (
                            name, i, call['host'], host)
                    elif call['d'] != 1 or call['dn'] != call['size']:
                        bad = '%s: message %d is decoded %d times' % (name, i, call['d'])
            if bad:
                break
        if bad:
            run.violation('%s\n%r' % (bad, c.argv), cli_rep(c))
            continue
        run.count('streams', len(streams))
        run.count('hop_by_hop', sum(len(h) - len(filtered(h)) > 2
                                    for _, _, ms in streams for h, _ in ms))
        run.sample({'argv': c.argv, 'streams': [[n, t, len(m)] for n, t, m in streams][:6]})
    real_codecs(run)
    if not run.violations:
        run.require('messages', 3000)
        run.require('hop_by_hop', 20)
        run.require('real_sizes', 500)


REAL = [('http1_gzip', []), ('http1_huffman', []), ('spdy3', []), ('spdy3', ['dict']),
        ('hyper_hpack', []), ('http1', []), ('fork', ['sample_exec_codec.py'])]


def real_codecs(run):
    """The tool with the shipped codecs: no mismatch, exit 0, and per message the
    size the codec has in a session of its own with this stream's messages."""
    cases = []
    for i in range(run.n(40, 400)):
        r = random.Random(sess.seed_of(run.seed, 'real', i))
        c = Case(sess.seed_of(run.seed, 'real', i))
        c.codecs = [x for x in REAL if r.random() < .75] or REAL[:1]
        if i == 0:
            c.codecs = list(REAL)
        c.stubs, c.baseline, c.tsv, c.prefix = {}, None, True, ''
        c.names = [shown(*x) for x in c.codecs]
        if 'http1' not in c.names:
            c.names.insert(0, 'http1')
        c.argv = sum([['-c', n + ('=' + ','.join(p) if p else '')] for n, p in c.codecs], [])
        c.argv += ['-t', '-s', c.streamifier or 'public_suffix', '-v', str(r.randint(0, 5)),
                   '--prefix', '@DIR@/'] + ['@DIR@/' + f for f in sorted(c.files)]
        # the path of the fork codec is relative to the working directory
        c.job = {'kind': 'cli', 'argv': c.argv, 'files': c.files, 'cwd': core.REPO,
                 'stubs': {}}
        cases.append(c)
    # sizes depend on the order of the headers: take the one the tool reads
    har = [{'kind': 'har', 'files': {'x.har': h.text()}} for c in cases for h in c.hars]
    it = iter(run_tool(har))
    for c in cases:
        for h in c.hars:
            res = next(it)[1]['res']
            if res and [tuple(p) for p in zip(*res)] == h.pairs:
                h.pairs = [tuple(p) for p in zip(*res)]
    alone = []
    done = run_cases(run, cases)
    for c, ev, streams, _ in done:
        if failed(run, c, ev):
            return
        if 'mismatch in' in ev['out']:
            run.violation('a codec does not reproduce the headers: %r' % [
                x for x in ev['out'].split('\n') if 'mismatch' in x][:3], cli_rep(c))
            return
        sessions = []
        for n, t, ms in streams:
            for name, params in c.codecs:
                if name != 'fork':
                    sessions.append({'codec': name, 'params': params, 'req': t == 'req',
                                     'messages': [[filtered(h), host] for h, host in ms]})
        alone.append({'kind': 'codec', 'sessions': sessions})
    for (c, ev, streams, _), (_, sizes) in zip(done, run_tool(alone)):
        if sizes['status']:
            run.violation('a codec fails in a session of its own: ' + sizes['err'][-600:],
                          {'kind': 'codec', 'job': c.job})
            return
        want = {'req': [], 'res': []}
        it = iter(sizes['res'])
        for n, t, ms in streams:
            cols = []
            for name, params in c.codecs:
                if name != 'fork':
                    col = shown(name, params)
                    cols.append((col, next(it)))
            for k in range(len(ms)):
                want[t].append({col: s[k] for col, s in cols})
        for t in want if streams else ():
            tab = parse_tsv(ev['made'].get(t + '.tsv', ''))
            if tab is None or len(tab[1]) != len(want[t]):
                run.violation('%s.tsv has %s rows for %d messages' % (
                    t, tab and len(tab[1]), len(want[t])), cli_rep(c))
                return
            for k, (row, w) in enumerate(zip(tab[1], want[t])):
                for col, size in w.items():
                    run.count('real_sizes')
                    run.case(('real', c.argv, t, k, col))
                    if row[tab[0].index(col)] != str(size):
                        run.violation(
                            '%s %d is %s bytes with %s, in a session of its own %d' % (
                                t, k + 1, row[tab[0].index(col)], col, size), cli_rep(c))
                        return


def parse_tsv(text):
    ls = [x for x in text.split('\n') if x]
    if not ls:
        return None
    return ls[0].split('\t'), [x.split('\t') for x in ls[1:]]


# -- numbers ---------------------------------------------------------------------------------
ROW = re.compile(r'^\s*(\S.*?)\s+([\d,.]+)\s+(\d+\.\d+) \| +(\S+) +(\S+) +(\S+) +(\S+)$')
HEAD = re.compile(r'^\* (.*): (\d+) (req|res) messages$')


def parse_report(text):
    """[(name, count, type, [(codec, size, time, ratio, min, max, std)])]"""
    out = []
    for line in text.split('\n'):
        m = HEAD.match(line)
        if m:
            out.append((m.group(1), int(m.group(2)), m.group(3), []))
            continue
        m = ROW.match(line)
        if m and out:
            out[-1][3].append((m.group(1), int(re.sub('[,.]', '', m.group(2))))
                              + tuple(float(x) for x in m.groups()[2:]))
    return out


def stats(sizes, base):
    ratios = [1.0 * a / b for a, b in zip(sizes, base)]
    mean = sum(ratios) / len(ratios)
    std = 0.0
    if len(ratios) > 1:
        std = math.sqrt(sum((x - mean) ** 2 for x in ratios) / (len(ratios) - 1))
    return 1.0 * sum(sizes) / sum(base), min(ratios), max(ratios), std


@prop('P19')
def p19(run):
    run.rule = ('a case is one line of a report or table of the tool, recomputed from the '
                'sizes its codecs emitted; distinct by command line and line; non-trivial '
                'if the stream has two messages or more')
    cases = [Case(sess.seed_of(run.seed, 'P19', i)) for i in range(run.n(1200, 12000))]
    for c, ev, streams, seen in run_cases(run, cases):
        if failed(run, c, ev):
            continue
        run.count('runs')
        sizes = []      # per stream: {codec: [size]}
        costs = []      # per stream: {codec: CPU seconds}
        for k, (n, t, ms) in enumerate(streams):
            row, cost = {}, {}
            for cname, params in c.codecs:
                col = shown(cname, params)
                row[col] = [x['size'] for x in seen.sessions[cname][k][2]] if \
                    len(seen.sessions.get(cname, [])) == len(streams) else None
                if row[col] is not None:
                    cost[col] = sum(x['cost'] for x in seen.sessions[cname][k][2])
            if c.names[0] == 'http1':
                row['http1'] = [len(http1(filtered(h))) for h, _ in ms]
            sizes.append(row)
            costs.append(cost)
        if any(v is None for row in sizes for v in row.values()):
            run.violation('a stream is not given to every codec: %r' % c.argv, cli_rep(c))
            continue
        if not streams:         # how it says that there is nothing is its own affair
            run.count('runs_without_messages')
            continue
        check_report(run, c, ev, streams, sizes, costs)
        if run.violations:
            break
        if c.tsv:
            check_tsv(run, c, ev, streams, sizes)
        elif ev['made']:
            run.violation('files %r without -t' % sorted(ev['made']), cli_rep(c))
    if not run.violations:
        run.require('report_lines', 1500)
        run.require('runs_without_messages', 5)
        run.require('times', 1500)
        run.require('tsv_rows', 1500)


def http1(h):
    """The headers as an HTTP/1 message (format_http1 of the tool)."""
    if ':method' in h:
        top = '%s %s %s\r\n' % (h.get(':method', ''), h.get(':path', ''),
                                h.get(':version', 'HTTP/1.1'))
        skip = (':method', ':path', ':version')
    else:
        top = '%s %s %s\r\n' % (h.get(':version', 'HTTP/1.1'), h.get(':status', ''),
                                h.get(':status-text', '?'))
        skip = (':version', ':status', ':status-text')
    for k, v in h.items():
        if k not in skip:
            for x in v.split('\0'):
                top += ('host' if k == ':host' else k) + ': ' + x + '\r\n'
    return top + '\r\n'


def check_report(run, c, ev, streams, sizes, costs):
    want = []
    if c.verbose:
        want += [(n, t, ms, row, cost)
                 for (n, t, ms), row, cost in zip(streams, sizes, costs)]
    for t in ('req', 'res'):
        mine = [(ms, row) for (n, u, ms), row in zip(streams, sizes) if u == t]
        total = {k: sum([row[k] for _, row in mine], []) for k in c.names}
        spent = {k: sum(cost.get(k, 0) for (n, u, ms), cost in zip(streams, costs)
                        if u == t) for k in c.names}
        want.append(('TOTAL', t, sum([ms for ms, _ in mine], []), total, spent))
    got = parse_report(ev['out'])
    heads = [[(n, len(ms), t) for n, t, ms, _, _ in want], [g[:3] for g in got]]
    if heads[0] != heads[1]:
        return run.violation('the report is about %r, should be about %r (name, messages, '
                             'type)' % (heads[1][-9:], heads[0][-9:]), cli_rep(c))
    for (n, t, ms, row, cost), g in zip(want, got):
        if [x[0] for x in g[3]] != c.names:
            return run.violation('the report of %s %s has lines for %r, not %r' % (
                n, t, [x[0] for x in g[3]], c.names), cli_rep(c))
        for line in g[3]:
            run.case((c.argv, n, t, line[0], line[1]), len(ms) > 1)
            run.count('report_lines')
            exp = (sum(row[line[0]]),) + stats(row[line[0]], row[c.base])
            if line[1] != exp[0]:
                return run.violation('%s %s: %s has size %d, its messages are %d bytes' % (
                    n, t, line[0], line[1], exp[0]), cli_rep(c))
            for what, a, b in zip(('ratio', 'min', 'max', 'std'), line[3:], exp[1:]):
                if abs(a - b) > 0.00501:
                    return run.violation('%s %s: %s of %s is %s, should be %.4f' % (
                        n, t, what, line[0], a, b), cli_rep(c))
            if abs(line[2] - cost.get(line[0], 0)) > 0.00501:
                return run.violation('%s %s: %s is said to take %s s, its compressions took '
                                     '%s' % (n, t, line[0], line[2], cost.get(line[0], 0)),
                                     cli_rep(c))
            run.count('times', line[0] in cost)
    run.sample({'argv': c.argv, 'report': ev['out'][-400:]})


def check_tsv(run, c, ev, streams, sizes):
    if sorted(ev['made']) != sorted(c.prefix + x for x in ('req.tsv', 'res.tsv')):
        return run.violation('-t makes %r: %r' % (sorted(ev['made']), c.argv), cli_rep(c))
    for t in ('req', 'res'):
        rows = []
        for (n, u, ms), row in zip(streams, sizes):
            if u == t:
                for k in range(len(ms)):
                    rows.append([str(len(rows) + 1), n] + [str(row[p][k]) for p in c.names])
        tab = parse_tsv(ev['made'][c.prefix + t + '.tsv'])
        run.count('tsv_rows', len(rows))
        for k, x in enumerate(rows):
            run.case((c.argv, 'tsv', t, x))
        if tab is None or tab[0] != ['num', 'name'] + c.names:
            return run.violation('%s.tsv begins with %r' % (t, tab and tab[0]), cli_rep(c))
        if tab[1] != rows:
            k = [i for i in range(max(len(rows), len(tab[1])))
                 if rows[i:i + 1] != tab[1][i:i + 1]][0]
            return run.violation('row %d of %s.tsv is %r, should be %r' % (
                k + 1, t, tab[1][k:k + 1], rows[k:k + 1]), cli_rep(c))


# -- mismatches --------------------------------------------------------------------------------
@prop('P20')
def p20(run):
    run.rule = ('a case is one message decoded by a codec that returns the headers as they '
                'were, changed, or changed in a way that means the same; the tool must '
                'report exactly the changed ones, and under -d end with status 1 at the '
                'first; distinct by command line and message; non-trivial if changed')
    cases = [Case(sess.seed_of(run.seed, 'P20', i), True) for i in range(run.n(1800, 16000))]
    for c, ev, streams, seen in run_cases(run, cases):
        if ev['status'] not in (0, 1) or 'Traceback' in ev['err']:
            failed(run, c, dict(ev, status=ev['status'] or 99))
            continue
        run.count('runs')
        want = []       # codecs that differ, in order
        order = []
        for name, params in c.codecs:
            col = shown(name, params)
            for s, (is_req, _, calls) in enumerate(seen.sessions.get(name, [])):
                for i, call in enumerate(calls):
                    if 'r' not in call:
                        continue
                    a, b = gen.norm2(call['h']), gen.norm2(call['r'])
                    order.append(((s, i, c.names.index(col)), col, a, b,
                                  call['h'] != call['r']))
        order.sort(key=lambda t: t[0])
        for key, col, a, b, changed in order:
            run.case((c.argv, key, sorted(b ^ a)), changed)
            run.count('decoded')
            run.count('changed', changed)
            if a != b:
                want.append((col, a - b, b - a))
            elif changed:
                run.count('same_meaning')
        got = re.findall(r'^  - mismatch in ([^\n]*?):?$', ev['out'], re.M)
        run.count('reported', len(got))
        if got != [w[0] for w in want]:
            run.violation('mismatches reported: %r, decoded headers differ in: %r\n%r' % (
                got[:6], want[:3], c.argv), cli_rep(c))
            break
        if c.debug:
            run.count('debug_runs')
            if (ev['status'] == 1) != bool(want) or len(want) > 1:
                run.violation('with -d the tool ends with %d after %d mismatches'
                              % (ev['status'], len(want)), cli_rep(c))
                break
            if want:
                run.count('debug_stops')
                continue
        if ev['status'] != 0:
            failed(run, c, ev)
            break
        total = sum(len(ms) for _, _, ms in streams)
        for name, _ in c.codecs:
            n = sum(len(s[2]) for s in seen.sessions.get(name, []))
            if n != total:
                run.violation('%s sees %d of %d messages' % (name, n, total), cli_rep(c))
        if c.verbose > 1:
            for col, lost, extra in want:
                for k, v in list(lost) + list(extra):
                    if '\t%s: %s' % (k, v) not in ev['out']:
                        run.violation('the report of a mismatch does not show %r: %r'
                                      % (k, v), cli_rep(c))
        if want:
            run.sample({'argv': c.argv, 'mismatches': [
                [w[0], sorted(w[1])[:2], sorted(w[2])[:2]] for w in want[:3]]})
        for name, spec in c.stubs.items():
            if spec['none'] and streams:
                run.count('unchecked_codecs')
                if 'WARNING' not in ev['err'] or name not in ev['err']:
                    run.violation('no warning that %s is not checked' % name, cli_rep(c))
        if run.violations:
            break
    if not run.violations:
        run.require('reported', 300)
        run.require('same_meaning', 100)
        run.require('debug_stops', 50)
