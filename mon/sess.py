"""Header histories through whole codecs: building jobs, and the oracles over the
event logs they leave behind."""
import random
import zlib

import core
import gen
import refdec

IGNORE = (':version', ':status-text', 'connection')
JY = ('delta', 'delta2', 'http2', 'headerdiff', 'simple', 'bohe', 'delta_bohe',
      'delta2_bohe')
WEIGHT = {'delta': 12, 'delta2': 12, 'http2': 5, 'headerdiff': 4, 'simple': 1,
          'bohe': 6, 'delta_bohe': 20, 'delta2_bohe': 20}


def interp(codec):
    return 'jy' if codec in JY else 'py3'


def lines(h):
    """Number of header lines a message has once taken apart."""
    return len(gen.norm(h))


def size(h):
    return sum(len(k) + len(v) for k, v in h.items())


def seed_of(*parts):
    return zlib.crc32(repr(parts).encode())


HOP = [('connection', ('keep-alive', 'close', 'Keep-Alive, x-y', '')),
       (':version', ('HTTP/1.1', 'HTTP/1.0', '1.1')), ('keep-alive', ('timeout=5', '300')),
       (':status-text', ('OK', 'Not Found', '')), ('proxy-connection', ('close',))]


def history(seed, profile, req, n, latin1=False, ok=None):
    g = gen.Gen(seed, profile, req, latin1)
    # in some sessions also what concerns one hop, as a HAR file has it: no codec has
    # to send it, and none may stumble over it
    r = random.Random(seed ^ 0x5eed)
    hop = r.random() < .2
    out = []
    while len(out) < n:
        h, host = g.message()
        if hop and r.random() < .6:
            h = dict(h)
            for k, v in r.sample(HOP, r.randint(1, len(HOP))):
                h[k] = r.choice(v)
        if ok is None or ok(h):
            out.append([h, host])
    return out


SCRIPTS = ('self', 'fresh', 'lag')


def script(mode, n, rnd, procs=2):
    """self:  every message is decoded at once by the Processor that made it
    fresh: all messages are encoded, then another Processor decodes the bytes
    lag:   another Processor follows at a random distance
    """
    s = []
    if mode == 'self':
        for i in range(n):
            s += [['c', 0, i], ['d', 0, i]]
    elif mode == 'fresh':
        s = [['c', 0, i] for i in range(n)] + [['d', 1, i] for i in range(n)]
    elif mode == 'lag':
        d = 0
        for i in range(n):
            s.append(['c', 0, i])
            while d <= i and rnd.random() < .45:
                s.append(['d', 1, d])
                d += 1
        s += [['d', 1, i] for i in range(d, n)]
    else:
        raise ValueError(mode)
    return s


def job(codec, params, profile, req, n, seed, mode='self', latin1=False, ok=None,
        msgs=None):
    if msgs is None:
        msgs = history(seed, profile, req, n, latin1, ok)
    procs = [{'req': bool(req), 'params': list(params)} for _ in range(2)]
    cost = sum(20 + len(m[0]) + size(m[0]) / 40. for m in msgs) * WEIGHT.get(codec, 1)
    return {'kind': 'session', 'codec': codec, 'procs': procs, 'msgs': msgs,
            'script': script(mode, len(msgs), random.Random(seed)), 'cost': cost,
            'tag': [codec, list(params), profile, bool(req), len(msgs), seed, mode]}


def cut(job, upto, keep_script=None):
    """The job up to and including script step `upto`, for the replay file."""
    j = dict(job)
    j['script'] = job['script'][:upto + 1]
    used = [st[2] for st in j['script'] if st[0] == 'c']
    j['msgs'] = job['msgs'][:max(used) + 1] if used else []
    return j


def decoded(pairs):
    """Set of (name, item) of a decoded message, and the list before dedup."""
    flat = []
    for k, v in pairs:
        if k in IGNORE:
            continue
        for item in v.split(';' if k == 'cookie' else '\0'):
            flat.append((k, item.strip()))
    return set(flat), flat


def diff(want, got):
    a, b = sorted(want - got)[:4], sorted(got - want)[:4]
    short = lambda l: [(k[:60], v[:80]) for k, v in l]   # noqa: E731
    return 'lost %s, appeared %s' % (short(a), short(b))


def fmt(job):
    return '%s=%s %s %s history of %d (%s), seed %d' % (
        job['tag'][0], ','.join(job['tag'][1]), job['tag'][2],
        'request' if job['tag'][3] else 'response', job['tag'][4], job['tag'][6],
        job['tag'][5])


def crash(run, job, ev, what='raised'):
    """True (and a violation) if the event is an exception or a hang."""
    if 'hang' in ev:
        run.violation('%s: no result within %d CPU seconds' % (fmt(job), core.CPU_LIMIT),
                      {'kind': 'session', 'job': cut(job, ev['i'])})
        return True
    if 'e' in ev or 'fatal' in ev:
        e = ev.get('e') or ev['fatal']
        i = ev.get('i', 0)
        run.violation('%s: step %r %s\n%s' % (
            fmt(job), job['script'][i] if i >= 0 else 'ctor', what, e[-600:]),
            {'kind': 'session', 'job': cut(job, max(0, i))})
        return True
    return False


def check_lossless(run, job, events, once=True, nbytes=True):
    """Every decoded message carries exactly the headers that went in."""
    wires = []
    good = 0
    for ev in events:
        if crash(run, job, ev):
            return False
        op, _, x = job['script'][ev['i']]
        if op == 'c':
            wires.append(ev)
            if 'mut' in ev:
                run.count('inputs_mutated')
            run.count('wire_bytes', ev['n'])
            run.count('header_lines', lines(job['msgs'][x][0]))
            continue
        if 'ni' in ev:
            run.violation('%s: decompress is not implemented any more' % fmt(job),
                          {'kind': 'session', 'job': cut(job, ev['i'])})
            return False
        h = job['msgs'][[s[2] for s in job['script'] if s[0] == 'c'][x]][0]
        want = gen.norm(h, IGNORE)
        got, flat = decoded(ev['h'])
        run.case((job['tag'][0], tuple(job['tag'][1]), wires[x]['w']),
                 nontrivial=len(want) > 0)
        if want != got or (once and len(flat) != len(got)
                           and nodup(h)):
            if want == got:
                what = 'headers repeated: %r' % sorted(
                    set(f for f in flat if flat.count(f) > 1))[:4]
            else:
                what = diff(want, got)
            run.violation('%s: message %d decodes to other headers: %s'
                          % (fmt(job), x, what),
                          {'kind': 'session', 'job': cut(job, ev['i'])})
            return False
        good += 1
    run.count('messages_decoded', good)
    run.count('sessions')
    run.sample({'session': job['tag'], 'messages': good,
                'last_wire': wires[-1]['w'][:80] if wires else '',
                'decoded': events[-1].get('h', [])[:6]})
    return True


def nodup(h):
    for k, v in h.items():
        parts = [x.strip() for x in v.split(';' if k == 'cookie' else '\0')]
        if len(set(parts)) != len(parts):
            return False
    return True


def expect_complete(run, job, events):
    if len(events) != len(job['script']) and not any(
            'e' in e or 'hang' in e or 'fatal' in e for e in events):
        raise core.Inconclusive('log of %s is incomplete: %d of %d'
                                % (fmt(job), len(events), len(job['script'])))


def run_lossless(run, jobs, once=True):
    by = {}
    for j in jobs:
        by.setdefault(interp(j['codec']), []).append(j)
    for ip, js in sorted(by.items()):
        for jb, ev in core.run_jobs(ip, js):
            expect_complete(run, jb, ev)
            check_lossless(run, jb, ev, once)
