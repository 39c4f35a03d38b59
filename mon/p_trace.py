# P31: what delta2 tells about what it sends: the trace it prints at verbosity 5 and
# its letter counts, against the operations an independent receiver reads from the
# frames.
import ast
import random
import re

import core
import gen
import refdec
import reference
import sess

REGISTRY = {}
OPS = {'stoggl': 0, 'etoggl': 1, 'strang': 2, 'etrang': 3, 'sclone': 4, 'eclone': 5,
       'skvsto': 6, 'ekvsto': 7}


def params(r):
    p = []
    if r.random() < .5:
        p.append('max_byte_size=%d' % r.choice([0, 100, 600, 4096, 30000]))
    for k in ('small_index', 'varint_encoding', 'idx_from_end', 'implicit_hg_add',
              'hg_adjust', 'only_etoggles'):
        if r.random() < .2:
            p.append('%s=%d' % (k, r.random() < .5))
    return p


def p31(run):
    run.rule = ('a case is one frame compared with the trace printed and the letters '
                'counted; distinct by its bytes; non-trivial if it has an operation')
    jobs = []
    for k in range(run.n(40, 300)):
        s = sess.seed_of('P31', run.seed, k)
        r = random.Random(s)
        profile = r.choice(['web', 'mixed', 'groups', 'churn', 'lengths', 'count', 'tiny'])
        msgs = sess.history(s, profile, True, 14, True)
        msgs.insert(1, [{}, 'a.com'])
        for h, _ in msgs[2:]:           # a value that is the name, one of another header
            if r.random() < .15:
                a, b = gen.Gen(r.random(), 'web', True).word(3, 9), r.choice(sorted(h) or [''])
                h[a] = a
                h['x-as'] = h.get(b, '') + '\0' + b
        if k % 13 == 0:                 # a frame and its continuation
            msgs[3:] = [[{'x-long': gen.Gen(s, 'web', True).word(105000, 115000)}, 'a.com']] + \
                msgs[3:6]
        jb = sess.job('delta2', params(r), profile, True, 0, s, msgs=msgs)
        jb['kind'] = 'trace'
        # a request and a response stream of one process
        jb['procs'] = [{'req': q, 'params': jb['procs'][0]['params'],
                        'verbose': r.choice([0, 4, 5, 5, 6])} for q in (True, False)]
        jb['script'] = [['c', r.randint(0, 1), i] for i in range(len(msgs))]
        jobs.append(jb)
    for jb, ev in core.run_jobs('jy', jobs):
        sess.expect_complete(run, jb, ev[1:])
        judge(run, jb, ev)
    if not run.violations:
        run.require('traces', 150)
        run.require('silent', 40)
        run.require('strings_counted', 1500)
        run.require('frames_in_parts', 2)


def judge(run, jb, events):
    refs = [reference.receiver('delta2', p['req'], p['params']) for p in jb['procs']]
    sums = {}
    for k, (freqs, _) in events[0]['wf'].items():
        sums[k] = list(freqs)
    for ev in events[1:]:
        if sess.crash(run, jb, ev):
            return
        _, p, x = jb['script'][ev['i']]
        verbose = jb['procs'][p]['verbose']

        def bad(what):
            run.violation('%s: message %d (verbosity %d): %s' % (sess.fmt(jb), x, verbose,
                                                                 what),
                          {'kind': 'trace', 'job': sess.cut(jb, ev['i'])})
        wire = bytes.fromhex(ev['w'][1:])
        try:
            refs[p].decode(wire)
        except refdec.Bad as e:
            return bad('cannot be read by the reference receiver: %s' % e)
        ops = refs[p].last_ops
        run.case((p, ev['w']), bool(ops))
        # the letters
        name = 'request' if jb['procs'][p]['req'] else 'response'
        mine = sums.setdefault(name, [0] * 257)
        for op in ops:
            for text in [t for t in op[1:] if isinstance(t, str)]:
                run.count('strings_counted')
                mine[256] += 1
                for c in text:
                    mine[ord(c)] += 1
        for k, want in sums.items():
            got, shown = ev['wf'].get(k, [[0] * 257, None])
            if got != want:
                i = [a != b for a, b in zip(got, want)].index(True)
                return bad('of symbol %d, %d are counted in %s texts, %d were sent'
                           % (i, got[i], k, want[i]))
            if shown is not None:
                t = ast.literal_eval(shown)
                if [(ord(a) if isinstance(a, str) else a, n) for a, n in t] != list(
                        enumerate(want)):
                    return bad('the printed table of letters is not that of the counts: %s'
                               % shown[:300])
        # the trace
        run.count('frames_in_parts', len(wire) > 65535)
        if verbose < 5:
            run.count('silent')
            if ev['t']:
                return bad('prints %.200r' % ev['t'])
            continue
        run.count('traces')
        lines = ev['t'].split('\n')
        told = []
        for line in lines:
            if line.startswith('{'):
                # a line of operation is what Python reads as one
                o = ast.literal_eval(line)
                told.append((OPS[o['opcode']],) + tuple(
                    o[f] for f in ('index', 'index_start', 'key', 'val') if f in o))
        if sorted(map(repr, told)) != sorted(map(repr, ops)):
            return bad('shows the operations %.300r, sends %.300r' % (
                [t for t in told if t not in ops], [o for o in ops if o not in told]))
        dump = []
        for line in lines:
            m = re.match('((?:[0-9A-F]{2} )*[0-9A-F]{2}) *[|] (.{0,16})$', line)
            if m:
                b = bytes.fromhex(m.group(1))
                if m.group(2) != ''.join(chr(c) if 31 < c < 127 else '.' for c in b):
                    return bad('shows %r as text of %r' % (m.group(2), m.group(1)))
                dump.append(b)
        if not b''.join(dump).startswith(wire):
            return bad('shows the frame as %s.., sends %s' % (
                b''.join(dump)[:40].hex(), wire[:40].hex()))
    run.count('sessions')
    run.sample({'session': jb['tag'], 'frames': len(events) - 1,
                'counted': {k: sum(v) for k, v in sums.items()}})


REGISTRY['P31'] = p31
