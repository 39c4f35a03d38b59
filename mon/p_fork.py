"""The codec that hands its messages to another program: the program is a recorder of
ours, which logs what reaches it and answers what it was told to."""
import json
import os
import random
import shutil
import struct
import tempfile

import core
import gen
import p_stream
import p_tool
import sess

REGISTRY = {}
STALL = 40      # seconds the program waits for a message before it gives up

PROGRAM = r'''#!%(python)s -SE
import json, os, signal, sys, time
here = os.path.abspath(__file__)
plan = json.load(open(here + '.plan'))
log = open(here + '.log', 'a')
def say(rec):
    log.write(json.dumps(rec) + '\n')
    log.flush()
def stalled(*a):
    say({'stalled': buf.hex()[:400]})
    os._exit(3)
buf = b''
signal.signal(signal.SIGALRM, stalled)
for answer, pieces, delay, chunk in plan:
    signal.alarm(%(stall)d)
    at = 0
    while True:
        nl = buf.find(b'\n', at)
        if nl < 0:
            got = os.read(0, chunk)
            if not got:
                say({'eof': buf.hex()[:400]})
                os._exit(0)
            buf += got
            continue
        if not buf[at:nl].strip():
            break
        at = nl + 1
    say({'got': buf[:nl + 1].hex(), 'more': len(buf) - nl - 1})
    buf = buf[nl + 1:]
    data = bytes.fromhex(answer)
    i = 0
    for n in pieces + [len(data)]:
        part = data[i:i + n]
        i += n
        while part:
            part = part[os.write(1, part):]
        if delay:
            time.sleep(delay)
while os.read(0, 65536):
    pass
'''


def some_bytes(r, n):
    k = r.randint(0, 3)
    if k == 0:
        return b'\n' * n
    if k == 1:
        return b'a line\r\n\r\n' * (n // 10) + b'x' * (n % 10)
    return bytes(r.getrandbits(8) for _ in range(n)) if n < 5000 else \
        r.getrandbits(8 * n).to_bytes(n, 'little')


def text_line(r):
    k = r.randint(0, 5)
    n = r.choice([1, 2, 20, 20, 80, 3000])
    if k == 0:
        s = bytes(r.choice(range(128, 256)) for _ in range(n))
    elif k == 1:
        s = b' \t' + b'z' * n
    else:
        s = bytes(r.choice(range(33, 127)) for _ in range(n))
    s = s.replace(b'\x85', b'e').replace(b'\xa0', b'e')
    return s + r.choice([b'\n', b'\n', b'\r\n'])


def answer(r, binary):
    """(what the program writes, what compress has to return)"""
    if binary:
        n = r.choice([0, 1, 7, 8, 9, 100, 4095, 4096, 4097, 8192, 65536, 65537])
        if r.random() < .1:
            n = r.choice([200000, 1000000])
        b = some_bytes(r, n)
        return struct.pack('=q', n) + b, b
    b = b''.join(text_line(r) for _ in range(r.choice([0, 1, 1, 3, 12, 60])))
    if r.random() < .06:
        b += b'w' * r.choice([65535, 65536, 300000]) + b'\n'
    return b + r.choice([b'\n', b'\n', b'\r\n', b'  \n']), b


def programs(folder, n, plans):
    """One program per Processor; its plan beside it."""
    out = []
    for k in range(n):
        path = os.path.join(folder, 'p%d' % k)
        with open(path, 'w') as f:
            f.write(PROGRAM % {'python': core.PY3, 'stall': STALL})
        os.chmod(path, 0o755)
        with open(path + '.plan', 'w') as f:
            json.dump(plans[k], f)
        out.append(path)
    return out


def fork_job(folder, s, n):
    r = random.Random(s)
    nproc = r.choice([1, 2, 3])
    hist = []
    profile = r.choice(['web', 'tiny', 'big', 'wide', 'mixed', 'lengths', 'huge'])
    if profile in ('big', 'huge'):
        n = min(n, 6)
    reqs = [r.random() < .5 for _ in range(nproc)]
    bins = [r.random() < .5 for _ in range(nproc)]
    g = {d: gen.Gen(s, profile, d, latin1=True) for d in (True, False)}
    plans = [[] for _ in range(nproc)]
    script, wants = [], []
    while len(hist) < n:
        p = r.randrange(nproc)
        h, host = g[reqs[p]].message()
        if not p_stream.fits1(h):
            continue
        if r.random() < .1:
            h = dict(h)
            h['x-text'] = ''.join(r.choice('\u00e9\u20ac\u4e2d\U0001f600a') for _ in
                                  range(r.randint(1, 40)))
        out, want = answer(r, bins[p])
        cuts = []
        for _ in range(r.choice([0, 0, 1, 3])):
            cuts.append(r.choice([1, 1, 3, 7, 8, 9, 100, 5000]))
        delay = r.choice([0, 0, 0, .002, .02]) if cuts else 0
        plans[p].append([out.hex(), cuts, delay, r.choice([1 << 16, 1 << 16, 4096, 100])])
        script.append(['c', p, len(hist)])
        hist.append([h, host])
        wants.append(want)
    d = os.path.join(folder, 's%d' % s)
    os.mkdir(d)
    paths = programs(d, nproc, plans)
    params = [[p] + (['bin'] if b else []) for p, b in zip(paths, bins)]
    return {'kind': 'session', 'codec': 'fork',
            'procs': [{'req': q, 'params': pa} for q, pa in zip(reqs, params)],
            'msgs': hist, 'script': script, 'cost': n,
            'tag': ['fork', ['bin' if b else 'text' for b in bins], profile, reqs[0],
                    len(hist), s, 'recorded']}, wants, bins


def judge_fork(run, jb, events, wants, bins):
    logs = {}
    seen = {}
    for p, pr in enumerate(jb['procs']):
        f = pr['params'][0] + '.log'
        logs[p] = [json.loads(x) for x in open(f)] if os.path.exists(f) else []
    rep = {'kind': 'fork', 'seed': jb['tag'][5], 'n': jb['tag'][4]}
    for ev in events:
        op, p, x = jb['script'][max(ev['i'], 0)]
        said = logs[p][seen.get(p, 0):][:1]
        if 'got' not in (said[0] if said else {}):
            return run.violation('%s: message %d never reached the program whole (it saw '
                                 '%r)' % (sess.fmt(jb), x, said), rep)
        if sess.crash(run, jb, ev):
            return
        seen[p] = seen.get(p, 0) + 1
        if 'mut' in ev or 'ni' in ev:
            return run.violation('%s: message %d: headers changed, or compress missing'
                                 % (sess.fmt(jb), x), rep)
        h = jb['msgs'][x][0]
        try:
            got = p_stream.http1_lines(bytes.fromhex(said[0]['got']).decode('utf-8'))
        except UnicodeDecodeError as e:
            return run.violation('%s: message %d is not UTF-8: %s' % (sess.fmt(jb), x, e),
                                 rep)
        want = p_stream.http1_lines(p_tool.http1(h))
        if got != want:
            return run.violation('%s: message %d reached the program as %.300r, should be '
                                 '%.300r' % (sess.fmt(jb), x, got, want), rep)
        if said[0]['more']:
            return run.violation('%s: message %d is followed by %d more bytes'
                                 % (sess.fmt(jb), x, said[0]['more']), rep)
        back = bytes.fromhex(ev['w'][1:])
        if back != wants[x] or ev['w'][0] != 'b' and wants[x]:
            return run.violation('%s: message %d: the program answered %d bytes %.80r, '
                                 'compress returns %d: %.80r'
                                 % (sess.fmt(jb), x, len(wants[x]), wants[x], len(back),
                                    back), rep)
        run.case((bins[p], ev['w'], said[0]['got']))
        run.count('messages_binary' if bins[p] else 'messages_text')
        run.peak('peak_answer', len(back))
        run.peak('peak_message', len(said[0]['got']) // 2)
    for p in logs:
        if any('got' in e for e in logs[p][seen.get(p, 0):]):
            return run.violation('%s: the program was given more messages than were '
                                 'compressed' % sess.fmt(jb), rep)
    run.count('sessions')
    run.sample({'session': jb['tag'], 'last': [said[0]['got'][:80], ev['w'][:60]]})


def echo_job(s, n):
    ms = [m for m in sess.history(s, 'web', s % 2 == 0, n) if p_stream.fits1(m[0])]
    jb = p_stream.send_only(sess.job('fork', [os.path.join(core.REPO,
                                                           'sample_exec_codec.py')],
                                     'web', s % 2 == 0, 0, s, msgs=ms))
    return jb


def judge_echo(run, jb, events):
    for ev in events:
        if sess.crash(run, jb, ev):
            return
        x = jb['script'][ev['i']][2]
        text = bytes.fromhex(ev['w'][1:]).decode('utf-8')
        want = p_stream.http1_lines(p_tool.http1(jb['msgs'][x][0]))
        if p_stream.http1_lines(text + '\r\n') != want:
            return run.violation('%s: message %d comes back from the sample program as '
                                 '%.300r' % (sess.fmt(jb), x, text),
                                 {'kind': 'session', 'job': sess.cut(jb, ev['i'])})
        run.case(('echo', ev['w']))
        run.count('messages_echoed')


def p28(run):
    run.rule = ('a case is one message handed to a program and its answer; distinct by the '
                'bytes of both')
    folder = tempfile.mkdtemp(prefix='verif-fork-')
    try:
        todo = {}
        jobs = []
        for k in range(run.n(60, 500)):
            jb, wants, bins = fork_job(folder, sess.seed_of('P28', run.seed, k), 30)
            todo[jb['tag'][5]] = (wants, bins)
            jobs.append(jb)
        for jb, ev in core.run_jobs('py3', jobs):
            judge_fork(run, jb, ev, *todo[jb['tag'][5]])
            if not run.violations:
                sess.expect_complete(run, jb, ev)
        if shutil.which('python', path=core.environ(False)['PATH']):
            for jb, ev in core.run_jobs('py3', [echo_job(sess.seed_of(run.seed, k), 40)
                                                for k in range(run.n(6, 40))]):
                sess.expect_complete(run, jb, ev)
                judge_echo(run, jb, ev)
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    if not run.violations:
        run.require('messages_text', 300)
        run.require('messages_binary', 300)


REGISTRY['P28'] = p28
