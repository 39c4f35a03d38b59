"""Whole-codec properties: losslessness, limits, self-containment, isolation,
interoperability with the reference receivers, numeric boundaries."""
import itertools
import random

import core
import gen
import reference
import sess

REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


PROFILES = ['web', 'tiny', 'churn', 'wide', 'big', 'ranges', 'groups', 'lengths',
            'count', 'alternate', 'mixed']
LEN = {'web': 60, 'tiny': 60, 'churn': 60, 'wide': 16, 'big': 12, 'ranges': 50,
       'groups': 70, 'lengths': 30, 'count': 16, 'alternate': 60, 'mixed': 50,
       'huge': 5}


def d2_params(r, reference_only=False):
    """A random configuration of delta2."""
    p = []
    if r.random() < .5:
        p.append('max_byte_size=%d' % r.choice([0, 30, 100, 300, 700, 1500, 20000]))
    if r.random() < .4:
        p.append('max_entries=%d' % r.choice([0, 1, 2, 5, 20, 60, 150, 1000, 9999]))
    flags = ['hg_adjust', 'implicit_hg_add', 'refcnt_vals', 'only_etoggles',
             'idx_from_end', 'small_index', 'varint_encoding']
    for f in flags:
        if r.random() < .35:
            p.append('%s=%d' % (f, r.randint(0, 1)))
    if reference_only and 'hg_adjust=1' in p and 'refcnt_vals=1' in p:
        p.remove('refcnt_vals=1')
    r.shuffle(p)
    return p


def d1_params(r):
    p = []
    if r.random() < .6:
        p.append('max_byte_size=%d' % r.choice([0, 30, 100, 400, 1500, 100000]))
    if r.random() < .5:
        p.append('max_entries=%d' % r.choice([1, 2, 7, 40, 300, 5000]))
    return p


def h2_params(r, reference_only=False):
    if r.random() < .35:
        return []
    small = [1200, 1500] if reference_only else [0, 60, 200, 1200]
    return ['buffer_size=%d' % r.choice(small + [1800, 2500, 4096, 9000, 70000])]


def hd_params(r, reference_only=False):
    p = []
    if r.random() < .6:
        p.append('buffer=%d' % r.choice([0, 20, 100, 300, 1000, 5000, 70000]))
    x = r.random()
    if x < .15:
        p.append('delta=false')
    elif x < .6:
        p.append('delta_type=%s' % r.choice(['', '/', '/?=', ' ;=', '3', '9', '40', 'a']))
    x = r.random()
    if x < .2:
        p.append('deflate=%d' % r.randint(9, 15))
    elif x < .45 and not reference_only:
        p.append('huffman')
    return p


PARAMS = {'delta2': d2_params, 'delta': lambda r, reference_only=False: d1_params(r),
          'http2': h2_params, 'headerdiff': hd_params,
          'http1': lambda r, reference_only=False: [],
          'hyper_hpack': lambda r, reference_only=False: [],
          'simple': lambda r, reference_only=False: r.choice(
              [[], ['date'], ['max_entries=2'], ['max_entries=0', 'date']])}
#: what may occur: HeaderDiff counts header lines in one byte, and it and http2
#: put the length of a block in 16 bits; hpack's decoder refuses 64 KB
DOMAIN = {'headerdiff': lambda h: sess.lines(h) < 256 and sess.size(h) < 60000,
          'http2': lambda h: sess.size(h) < 60000,
          'hyper_hpack': lambda h: sess.size(h) + 32 * len(h) < 60000}


def plan(run, codec, rounds, reference_only=False, modes=sess.SCRIPTS, scale=1.0,
         profiles=PROFILES):
    """Jobs: every profile in both directions, `rounds` times, with the default
    configuration first and random ones after it."""
    jobs = []
    for rd in range(rounds):
        for prof in profiles:
            for req in (True, False):
                seed = sess.seed_of(run.seed, codec, rd, prof, req)
                r = random.Random(seed)
                params = [] if rd == 0 else PARAMS[codec](r, reference_only)
                n = max(3, int(LEN[prof] * scale * r.choice([.5, 1, 1, 2])))
                mode = modes[(rd + PROFILES.index(prof) if prof in PROFILES else rd)
                             % len(modes)]
                jobs.append(sess.job(codec, params, prof, req, n, seed, mode,
                                     latin1=r.random() < .2,
                                     ok=DOMAIN.get(codec)))
    return jobs


def huge_jobs(run, codec, n, params=()):
    return [sess.job(codec, params, 'huge', bool(i & 1), 4,
                     sess.seed_of(run.seed, codec, 'huge', i),
                     sess.SCRIPTS[i % 3]) for i in range(n)]


def constant_wide(n, k, seed, req=True):
    """n messages with the same k fields, one of them changing: every message
    moves or renumbers all k entries."""
    r = random.Random(seed)
    base = {':status': '200'} if not req else {
        ':method': 'get', ':scheme': 'http', ':host': 'www.a.com', ':path': '/'}
    for i in range(k):
        base['x%d' % i] = str(i)
    out = []
    for i in range(n):
        h = dict(base)
        h['x%d' % r.randint(0, k - 1)] = 'n%d' % r.randint(0, 5)
        out.append([h, 'www.a.com'])
    return out


LOSSLESS_RULE = ('a case is one message encoded after the history before it and '
                 'decoded again; distinct by codec, configuration and wire image; '
                 'non-trivial if it has at least one header')


def lossless(run, jobs, need):
    run.rule = LOSSLESS_RULE
    sess.run_lossless(run, jobs)
    if not run.violations:
        run.require('messages_decoded', need)


@prop('P01')
def p01(run):
    jobs = plan(run, 'delta2', run.n(9, 60))
    jobs += huge_jobs(run, 'delta2', run.n(2, 8))
    jobs.append(sess.job('delta2', ['small_index=0', 'hg_adjust=1', 'implicit_hg_add=1'],
                         'marathon', True, 0, 1, 'self',
                         msgs=constant_wide(run.n(250, 900), 100, run.seed)))
    jobs.append(sess.job('delta2', ['hg_adjust=1'], 'marathon', False, 0, 2, 'fresh',
                         msgs=constant_wide(run.n(60, 300), 60, run.seed, False)))
    jobs += edge_jobs(run, ('delta2',), sess.SCRIPTS, True)
    jobs += long_jobs(run, 'delta2', run.n(1100, 5000), modes=('fresh', 'self'))
    lossless(run, jobs, 1000)


@prop('P02')
def p02(run):
    jobs = plan(run, 'delta', run.n(7, 60))
    jobs += huge_jobs(run, 'delta', run.n(2, 8))
    # value ids wrap at 65536
    for i, params in enumerate([[], ['max_entries=300'], ['max_byte_size=900']]):
        jobs.append(sess.job('delta', params, 'marathon', i != 1, 0, i, 'self',
                             msgs=constant_wide(run.n(450, 2400), 160,
                                                run.seed + i, i != 1)))
    jobs += edge_jobs(run, ('delta',), sess.SCRIPTS, True)
    jobs += long_jobs(run, 'delta', run.n(1100, 5000), modes=('fresh', 'self'))
    lossless(run, jobs, 1000)


@prop('P03')
def p03(run):
    jobs = plan(run, 'http2', run.n(14, 100))
    jobs += edge_jobs(run, ('http2',), sess.SCRIPTS, True)
    jobs += long_jobs(run, 'http2', run.n(1100, 5000), modes=('fresh', 'self'))
    lossless(run, jobs, 1000)


def known_headerdiff_lines(run):
    """Known finding: the number of header lines goes into one byte."""
    h = {':method': 'get', ':scheme': 'http', ':host': 'www.a.com', ':path': '/'}
    for i in range(260):
        h['x-h%d' % i] = str(i)
    jb = sess.job('headerdiff', [], 'lines', True, 1, 0, 'self', msgs=[[h, 'www.a.com']])
    (jb, ev), = core.run_jobs('jy', [jb])
    bad = True
    for e in ev:
        if 'h' in e:
            bad = sess.decoded(e['h'])[0] != gen.norm(h, sess.IGNORE)
    if bad:
        if 'headerdiff-255-lines' in run.known:
            run.known_seen.append('headerdiff: a message of 264 header lines loses '
                                  'lines (their number is sent in one byte)')
        else:
            run.violation('headerdiff: 264 header lines do not survive',
                          {'kind': 'session', 'job': jb})


@prop('P04')
def p04(run):
    jobs = plan(run, 'headerdiff', run.n(16, 120))
    jobs += edge_jobs(run, ('headerdiff',), sess.SCRIPTS, True)
    jobs += long_jobs(run, 'headerdiff', run.n(1100, 5000), modes=('fresh', 'self'))
    lossless(run, jobs, 1000)
    known_headerdiff_lines(run)


@prop('P05')
def p05(run):
    jobs = plan(run, 'http1', run.n(12, 80)) + plan(run, 'hyper_hpack', run.n(12, 80)) \
        + plan(run, 'simple', run.n(12, 80))
    for i in range(run.n(4, 20)):
        jobs.append(sess.job('http1', [], 'huge', bool(i & 1), 6,
                             sess.seed_of(run.seed, 'h1', i), 'self'))
    jobs += edge_jobs(run, ('hyper_hpack', 'simple'), sess.SCRIPTS, True)
    for c in ('http1', 'hyper_hpack', 'simple'):
        jobs += long_jobs(run, c, run.n(1100, 5000), modes=('fresh', 'self'))
    lossless(run, jobs, 1000)
    for c in ('http1', 'hyper_hpack', 'simple'):
        if not any(j['codec'] == c for j in jobs):
            raise core.Inconclusive(c)


# -- state limits -----------------------------------------------------------------
@prop('P06')
def p06(run):
    run.rule = ('a case is one message; after each one the strings a Processor keeps '
                'are counted, the reference receiver with exactly the configured '
                'limits must still understand the encoder, and named table counters '
                'are compared with the limits; non-trivial if the history so far '
                'carried more bytes than the limit')
    jobs = []
    n = run.n(8, 50)
    for codec in ('delta2', 'delta', 'http2', 'headerdiff'):
        for i in range(n):
            seed = sess.seed_of(run.seed, 'P06', codec, i)
            r = random.Random(seed)
            limit = r.choice([100, 300, 1000])
            params = {'delta2': ['max_byte_size=%d' % limit],
                      'delta': ['max_byte_size=%d' % limit],
                      'http2': ['buffer_size=%d' % (limit + 1300)],
                      'headerdiff': ['buffer=%d' % limit]}[codec]
            if codec in ('delta2', 'delta') and r.random() < .5:
                params.append('max_entries=%d' % r.choice([1, 3, 10, 40]))
            if codec == 'delta2':
                for f in ('hg_adjust', 'implicit_hg_add', 'small_index', 'idx_from_end'):
                    if r.random() < .3:
                        params.append('%s=%d' % (f, r.randint(0, 1)))
            if codec == 'headerdiff' and r.random() < .3:
                params.append('delta_type=/')
            prof = r.choice(['churn', 'churn', 'mixed', 'web', 'wide', 'flood', 'flood'])
            if i < 2:
                prof = 'flood'
            req = r.random() < .5
            msgs = flood(seed, req, 300, codec) if prof == 'flood' else None
            jb = sess.job(codec, params, prof, req, LEN.get(prof, 60), seed, 'self',
                          ok=DOMAIN.get(codec), msgs=msgs)
            jb['weigh'] = 1
            jb['cost'] *= 2
            jobs.append(jb)
    for jb, ev in core.run_jobs('jy', jobs):
        sess.expect_complete(run, jb, ev)
        check_limits(run, jb, ev)
    if not run.violations:
        run.require('evictions', 1000)
        run.require('weighed', 500)


def flood(seed, req, n, codec):
    """New names and values all the time (names stay few for HeaderDiff, whose
    name table is not limited), and now and then one of any age again: an encoder
    that remembers more than it may refers to it."""
    r = random.Random(seed)
    g = gen.Gen(seed, 'web', req)
    out, old = [], []
    for i in range(n):
        h, host = g.base()
        if req:
            h[':path'] = '/%d' % i
        for _ in range(r.choice([0, 0, 1, 3])):
            if old:
                k, v = r.choice(old[-r.choice([3, 10, 30, 100, 400]):])
                h[k] = v
        for k in range(r.randint(1, 6)):
            name = 'x-%d' % (k if codec == 'headerdiff' else r.randint(0, 10 ** 6))
            h[name] = g.word(1, 6) + str(i) + g.word(0, r.choice([3, 30, 90]))
            old.append((name, h[name]))
        out.append([h, host])
    return out


def check_limits(run, job, events):
    codec = job['codec']
    params = dict(p.split('=', 1) for p in job['procs'][0]['params'])
    ref = reference.check(run, job, events)
    if ref is None:
        return
    limit = int(params.get('max_byte_size') or params.get('buffer_size')
                or params.get('buffer'))
    entries = int(params.get('max_entries', 10 ** 9))
    sent, biggest, names = 0, 0, set()
    for ev in events:
        op, _, x = job['script'][ev['i']]
        h = job['msgs'][x][0]
        if op == 'c':
            sent += sess.size(h)
            names.update(h)
            biggest = max([biggest] + [len(k) + len(v) for k, v in gen.norm(h)])
        if 'kept' not in ev:
            continue
        run.count('weighed')
        run.peak('peak_kept_%s' % codec, ev['kept'])
        # Everything a Processor can reach: both tables (each may hold an entry in
        # a list and in an index), the current message, per-host bookkeeping.
        hosts = sum(len(a) for a in set(m[1] for m in job['msgs']))
        # the one-entry tables may keep a single entry beyond the limit (delta)
        room = 4 * (max(limit, 2 * biggest) + sess.size(h)) + 4 * hosts + 4096
        if codec == 'headerdiff':       # its name table is not limited
            room += 6 * sum(len(n) for n in names)
        run.peak('peak_percent_of_allowance_%s' % codec,
                 100 * (ev['kept'] - ev['kept0']) // room)
        run.peak('peak_bytes_sent_over_allowance', sent // room)
        if ev['kept'] - ev['kept0'] > room:
            run.violation('%s: after %d bytes of headers the Processor keeps %d bytes '
                          'of strings (%d when new) with a limit of %d'
                          % (sess.fmt(job), sent, ev['kept'], ev['kept0'], limit),
                          {'kind': 'limits', 'job': sess.cut(job, ev['i'])})
            return
        for name, (used, cnt) in sorted(ev.get('tables', {}).items()):
            run.count('table_readings')
            over = max(limit, biggest) if codec == 'delta' else limit
            if codec == 'http2' and not ev.get('evicting', True):
                over = max(limit, 2000)
            if used > over or cnt > max(entries, 1 if codec == 'delta' else 0):
                run.violation('%s: %s holds %d bytes in %d entries, limits %d and %s'
                              % (sess.fmt(job), name, used, cnt, limit, entries),
                              {'kind': 'limits', 'job': sess.cut(job, ev['i'])})
                return
        run.case((codec, tuple(job['procs'][0]['params']), job['tag'][5], ev['i']),
                 sent > limit)


# -- self-containment --------------------------------------------------------------
@prop('P07')
def p07(run):
    run.rule = ('a case is one message encoded in one process and decoded, from its '
                'bytes alone, by a new Processor in another process; distinct by wire '
                'image; non-trivial if it has at least one header')
    jobs = []
    for codec in ('delta2', 'delta', 'http2', 'headerdiff', 'hyper_hpack', 'simple',
                  'http1'):
        rounds = {'delta2': (3, 24), 'delta': (2, 20)}.get(codec, (4, 30))
        js = plan(run, codec, run.n(*rounds), modes=('self',))
        js += edge_jobs(run, (codec,), few=True)
        js += long_jobs(run, codec, run.n(1100, 4000))
        js += [j for j in huge_jobs(run, codec, 2) if codec.startswith('delta')]
        for j in js:
            j['script'] = [s for s in j['script'] if s[0] == 'c']
        jobs += js
    two = []
    for ip in ('jy', 'py3'):
        for jb, ev in core.run_jobs(ip, [j for j in jobs if sess.interp(j['codec']) == ip]):
            sess.expect_complete(run, jb, ev)
            if any(sess.crash(run, jb, e) for e in ev):
                continue
            j2 = dict(jb)
            j2['wires'] = [e['w'] for e in ev]
            j2['enc'] = jb
            # a receiver of its own, and a second one that starts later in the
            # same process and sees the same bytes
            lag = random.Random(jb['tag'][5]).randint(0, len(ev))
            s = []
            for i in range(len(ev) + lag):
                if i < len(ev):
                    s.append(['g', 0, i])
                if i >= lag:
                    s.append(['g', 1, i - lag])
            j2['script'] = s
            two.append(j2)
    for ip in ('jy', 'py3'):
        js = [j for j in two if sess.interp(j['codec']) == ip]
        plain = [{k: v for k, v in j.items() if k not in ('enc', 'msgs')} for j in js]
        for p in plain:
            p['msgs'] = []
        for j, (jb, ev) in zip(js, core.run_jobs(ip, plain)):
            check_foreign(run, j, ev)
    if not run.violations:
        run.require('messages_decoded', 2000)


def check_foreign(run, job, events):
    for ev in events:
        if 'e' in ev or 'hang' in ev or 'fatal' in ev:
            run.violation('%s: a new Processor in another process fails on the bytes of '
                          'message %r\n%s' % (sess.fmt(job), job['script'][ev['i']],
                                              str(ev.get('e', 'hang'))[-600:]),
                          {'kind': 'foreign', 'job': job['enc']})
            return
        if 'ni' in ev:
            continue
        _, p, x = job['script'][ev['i']]
        want = gen.norm(job['msgs'][x][0], sess.IGNORE)
        got, _ = sess.decoded(ev['h'])
        run.case((job['codec'], tuple(job['tag'][1]), p, job['wires'][x]), bool(want))
        if got != want:
            run.violation('%s: message %d means other headers to receiver %d in another '
                          'process: %s' % (sess.fmt(job), x, p, sess.diff(want, got)),
                          {'kind': 'foreign', 'job': job['enc']})
            return
        run.count('messages_decoded')
    run.count('sessions')
    run.sample({'session': job['tag'], 'receivers': 2})


# -- isolation and determinism -------------------------------------------------------
CONTEXTS = 3


@prop('P08')
def p08(run):
    run.rule = ('a case is one message of a session; its wire image and what it decodes '
                'to are compared between a process of its own, a process where other '
                'sessions ran before, and a process where other sessions are '
                'interleaved (on Python 3 also with another hash seed); non-trivial '
                'if the session has more than one message')
    for ip in ('jy', 'py3'):
        group = [c for c in ('delta2', 'delta', 'http2', 'headerdiff', 'simple', 'bohe',
                             'http1', 'hyper_hpack', 'http1_gzip', 'http1_huffman',
                             'spdy3', 'delta_bohe', 'delta2_bohe')
                 if sess.interp(c) == ip]
        solo, mixed = [], []
        for codec in group:
            for i in range(run.n(6, 30) if codec not in ('delta_bohe', 'delta2_bohe')
                           else run.n(2, 10)):
                js = []
                for k in range(3):
                    seed = sess.seed_of(run.seed, 'P08', codec, i, k)
                    r = random.Random(seed)
                    prof = r.choice(['web', 'tiny', 'ranges', 'groups', 'alternate',
                                     'churn'])
                    params = PARAMS[codec](r) if codec in PARAMS and r.random() < .5 \
                        else []
                    if codec in ('delta_bohe', 'delta2_bohe', 'bohe'):
                        prof = 'web'
                    n = r.randint(8, 25)
                    req = r.random() < .5
                    ok = DOMAIN.get(codec)
                    if k:        # related to the first one: same fields, other values
                        seed = js[0]['tag'][5] if r.random() < .5 else seed
                        prof, req = js[0]['tag'][2], js[0]['tag'][3]
                    msgs = plain_msgs(seed, req, n) if 'bohe' in codec else None
                    js.append(sess.job(codec, params, prof, req, n, seed, 'self', ok=ok,
                                       msgs=msgs))
                solo += js
                mixed.append(js)
        envs = [{}] if ip == 'jy' else [{}, {'PYTHONHASHSEED': '4711'}]
        results = []
        # each job of `alone` gets a process where nothing ran before: the worker
        # is told to start one per shard, and there are as many shards as cores, so
        # run the solo sessions in two different orders and the mix interleaved
        a = core.run_jobs(ip, [dict(j, id=n) for n, j in enumerate(solo)])
        results.append(a)
        results.append(core.run_jobs(ip, [dict(j, id=n) for n, j in
                                          reversed(list(enumerate(solo)))],
                                     env=envs[-1], shards=5))
        inter = []
        for n, js in enumerate(mixed):
            jb = interleave(js, sess.seed_of(run.seed, n))
            jb['ids'] = [3 * n, 3 * n + 1, 3 * n + 2]
            inter.append(jb)
        logs = {}
        for res in results:
            for jb, ev in res:
                if any(sess.crash(run, jb, e) for e in ev):
                    continue
                logs.setdefault(jb['id'], []).append(trace(jb, ev))
                for e in ev:
                    if 'mut' in e:
                        run.violation('%s: compress changed the dictionary it was given: '
                                      '%r' % (sess.fmt(jb), e['mut'][:6]),
                                      {'kind': 'session', 'job': sess.cut(jb, e['i'])})
                        break
        for jb, ev in core.run_jobs(ip, inter):
            if any(sess.crash(run, jb, e) for e in ev):
                continue
            for k in range(3):
                logs.setdefault(jb['ids'][k], []).append(trace(jb, ev, k))
        for n, j in enumerate(solo):
            ls = logs.get(n, [])
            for i in range(len(j['script'])):
                run.case((j['tag'][0], j['tag'][5], tuple(j['tag'][1]), i), i > 1)
                vals = [l[i] if i < len(l) else 'missing' for l in ls]
                if len(set(vals)) > 1:
                    k = [v != vals[0] for v in vals].index(True)
                    run.violation(
                        '%s: step %d %r gives %s alone and %s %s' % (
                            sess.fmt(j), i, j['script'][i], vals[0][:160], vals[k][:160],
                            ['', 'in a process where other sessions ran before',
                             'interleaved with other sessions'][k]),
                        {'kind': 'isolation', 'job': j, 'with': mixed[n // 3]})
                    break
            else:
                run.count('sessions_compared')
                run.count('contexts', len(ls))
        run.sample({'interp': ip, 'sessions': len(solo), 'codecs': group})
    if not run.violations:
        run.require('sessions_compared', 100)


def trace(job, events, k=0):
    """What processor pair k did, step by step, as comparable strings."""
    out = []
    for e in events:
        op, p, x = job['script'][e['i']]
        if p != k:
            continue
        out.append(e['w'] if 'w' in e else 'ni' if 'ni' in e else repr(e.get('h')))
    return out


def interleave(js, seed):
    r = random.Random(seed)
    left = [list(j['script']) for j in js]
    base = [0, len(js[0]['msgs']), len(js[0]['msgs']) + len(js[1]['msgs'])]
    script, wire, nw = [], [{}, {}, {}], 0
    while any(left):
        k = r.choice([i for i in range(3) if left[i]])
        op, _, x = left[k].pop(0)
        if op == 'c':
            script.append(['c', k, base[k] + x])
            wire[k][x] = nw
            nw += 1
        else:
            script.append(['d', k, wire[k][x]])
    jb = dict(js[0])
    jb['procs'] = [j['procs'][0] for j in js]
    jb['msgs'] = sum([j['msgs'] for j in js], [])
    jb['script'] = script
    jb['cost'] = sum(j['cost'] for j in js)
    return jb


PLAIN = ['x-a', 'x-b', 'x-token', 'x-forwarded-for', 'server', 'x-long-name-here',
         'location', 'referer', 'host', 'x-q']


def plain_msgs(seed, req, n, maxlen=30):
    """Messages for the typed (bohe) encoders: untyped headers only."""
    r = random.Random(seed)
    g = gen.Gen(seed, 'web', req)
    out = []
    for _ in range(n):
        h, host = g.base()
        if ':path' in h:
            h[':path'] = '/' + g.word(1, 6)
        for k in r.sample(PLAIN, r.randint(0, 5)):
            if k in ('host', 'referer') or (k in ('server', 'location') and req):
                continue
            pool = g.vals.setdefault(k, [])
            if pool and r.random() < .5:
                h[k] = r.choice(pool)
            else:
                h[k] = g.word(1, maxlen, 'abcdefghij-_.=/0123456789XYZ')
                pool.append(h[k])
        out.append([h, host])
    return out


# -- reference receivers ---------------------------------------------------------------
@prop('P09')
def p09(run):
    run.rule = ('a case is one wire image decoded by a receiver written from the format '
                'description; distinct by image; non-trivial if it has a header')
    jobs = []
    for codec, q, t in (('delta2', 4, 40), ('delta', 3, 30), ('http2', 5, 40),
                        ('headerdiff', 6, 50)):
        js = plan(run, codec, run.n(q, t), reference_only=True, modes=('self',))
        js += [j for j in huge_jobs(run, codec, 2) if codec.startswith('delta')]
        js += edge_jobs(run, (codec,), few=True)
        js += long_jobs(run, codec, run.n(1100, 4000))
        for j in js:
            j['script'] = [s for s in j['script'] if s[0] == 'c']
        jobs += js
    jb = sess.job('delta', [], 'marathon', True, 0, 1, 'self',
                  msgs=constant_wide(run.n(450, 2000), 160, run.seed))
    jb['script'] = [s for s in jb['script'] if s[0] == 'c']
    jobs.append(jb)
    for jb, ev in core.run_jobs('jy', jobs):
        sess.expect_complete(run, jb, ev)
        reference.check(run, jb, ev)
    if not run.violations:
        run.require('messages_decoded', 1000)
        for op in ('delta2_op0', 'delta2_op2', 'delta2_op4', 'delta2_op5', 'delta2_op6',
                   'delta_op1', 'delta_op2', 'delta_op3', 'delta_op4'):
            run.require(op)


# -- numeric boundaries -------------------------------------------------------------------
def edge(limit_bits):
    s = set()
    for b in range(limit_bits + 1):
        s.update(((1 << b) + d for d in (-2, -1, 0, 1, 2)))
    return sorted(x for x in s if x >= 0)


def h2_edges(limit):
    """Edges of prefix integers: 2^p-1 + k*128^j and powers of two."""
    s = set(edge(limit.bit_length() - 1))
    for p in range(0, 9):
        for j in (0, 1, 2):
            s.update((1 << p) - 1 + (128 ** j) + d for d in (-2, -1, 0, 1))
            s.update((1 << p) - 1 + 64 + d for d in (-1, 0, 1))
    return sorted(x for x in s if 0 <= x <= limit)


def base(req):
    return {':method': 'get', ':scheme': 'http', ':host': 'www.a.com', ':path': '/'} \
        if req else {':status': '200'}


EDGE_CODECS = ('http2', 'headerdiff', 'delta2', 'delta', 'hyper_hpack', 'simple')


def edge_jobs(run, codecs=EDGE_CODECS, modes=('self',), few=False):
    """Sessions whose string lengths, entry positions and operation counts sit on
    the edges of the integer encodings; `few` leaves out part of the positions."""
    jobs = []
    r = random.Random(run.seed)

    def add(codec, params, req, msgs, tag):
        if codec in codecs:
            jobs.append(sess.job(codec, params, tag, req, 0, run.seed,
                                 modes[len(jobs) % len(modes)], msgs=msgs))
    lens = h2_edges(20000)
    for codec in EDGE_CODECS:
        big = codec in ('http2', 'headerdiff', 'hyper_hpack', 'simple')
        ls = [x for x in lens if big or x <= run.n(2100, 9000)]
        # value lengths, name lengths
        for req in (True, False):
            for part in range(4):
                msgs = []
                for ln in ls[part::4]:
                    h = base(req)
                    h['x-v'] = r.choice('ab') * ln
                    msgs.append([h, 'www.a.com'])
                params = [['buffer_size=70000'], ['buffer=70000'],
                          ['max_byte_size=70000'], ['max_byte_size=70000'], [], []][
                    EDGE_CODECS.index(codec)]
                add(codec, params if part & 1 else [], req, msgs, 'value-length')
        msgs = []
        for ln in [x for x in lens if 0 < x <= 2100]:
            h = base(True)
            h['n' * ln] = 'v'
            msgs.append([h, 'www.a.com'])
        add(codec, [], True, msgs, 'name-length')
    # entry positions: fill the table in one or several messages, then refer to
    # each edge position, alone and in company
    for codec, params, total in (
            ('http2', ['buffer_size=%d' % (1 << 20)], run.n(900, 3000)),
            ('headerdiff', ['buffer=%d' % (1 << 20)], run.n(900, 17500)),
            ('headerdiff', ['buffer=%d' % (1 << 20), 'delta=false'], 700),
            ('delta2', [], 180), ('delta2', ['idx_from_end=0'], 180),
            ('delta2', ['varint_encoding=0'], 180),
            ('delta2', ['small_index=0', 'max_byte_size=200000', 'max_entries=5000'], 700),
            ('delta2', ['small_index=0', 'varint_encoding=0', 'max_byte_size=200000',
                        'max_entries=5000'], 700),
            ('delta2', ['small_index=0', 'idx_from_end=0', 'max_byte_size=200000',
                        'max_entries=5000'], 700),
            ('delta', ['max_byte_size=200000', 'max_entries=5000'], 700)):
        if total > 3000:
            total = total if params == ['buffer=%d' % (1 << 20)] else 3000
        kv = [('y%d' % (i % 300), 'v%d' % i) for i in range(total)]
        msgs = []
        for a in range(0, total, 150):
            h = base(True)
            for k, v in kv[a:a + 150]:
                h[k] = v
            msgs.append([h, 'www.a.com'])
        pos = sorted(set([x for x in h2_edges(total - 1)]
                         + [total - 1 - x for x in h2_edges(total - 1)]
                         + [r.randrange(total) for _ in range(10)]))
        r.shuffle(pos)
        for i in pos[:run.n(30 if few else 90, 400)]:
            h = base(True)
            h[kv[i][0]] = kv[i][1]
            if r.random() < .3:
                k2 = kv[r.choice(pos)]
                h[k2[0]] = k2[1]
            if r.random() < .2:      # a new value for an old name
                h['y%d' % (i % 300)] = 'w%d' % i
            msgs.append([h, 'www.a.com'])
        add(codec, params, True, msgs, 'position')
    # numbers of operations of one kind in a message
    for codec, params in (('delta2', []), ('delta2', ['only_etoggles=1']),
                          ('delta2', ['small_index=0', 'max_byte_size=90000']),
                          ('delta', []), ('delta', ['max_byte_size=90000']),
                          ('http2', []), ('hyper_hpack', [])):
        msgs = []
        counts = [0, 1, 2, 14, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 126, 127, 128, 129,
                  254, 255, 256, 257, 258, 300, 511, 512, 513, 514]
        step = 1
        for c in counts:
            h = base(True)
            for i in range(c):
                h['z%d' % (i * step)] = '1'
            msgs.append([h, 'www.a.com'])
            # toggling every other entry: ranges cannot hide the count
            h = base(True)
            for i in range(0, c, 2):
                h['z%d' % (i * step)] = '1'
            msgs.append([h, 'www.a.com'])
            if c > 100:
                h = base(True)
                for i in range(c):
                    h['z%d' % i] = 'q%d' % (i % 7 + c)
                msgs.append([h, 'www.a.com'])
        add(codec, params, True, msgs, 'operations')
    return jobs


def long_jobs(run, codec, n, params=(), modes=('self',)):
    """Histories longer than any table, byte or varint a codec counts with."""
    jobs = []
    for k, req in enumerate((True, False)):
        r = random.Random(run.seed * 7 + k)
        msgs = []
        for i in range(n):
            h = base(req)
            host = 'www.%s.com' % 'abcde'[r.randrange(5)]
            if req:
                h[':host'] = host
                h[':path'] = '/p%d' % (i % 400)
            else:
                h['date'] = 'd%d' % (i // 3)
            for j in range(r.randint(0, 3)):
                h['k%d' % r.randrange(30)] = 'v%d' % r.choice([r.randrange(9), i])
            msgs.append([h, host])
        jobs.append(sess.job(codec, list(params), 'long', req, 0, k,
                             modes[k % len(modes)], msgs=msgs))
    return jobs


@prop('P13')
def p13(run):
    jobs = edge_jobs(run)
    lossless(run, jobs, 1000)
    run.rule = ('a case is one message whose string length, entry position or number of '
                'operations sits on an edge of the integer encodings; distinct by codec, '
                'configuration and wire image')
