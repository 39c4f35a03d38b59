"""What all codecs have in common: they load by name and take any history."""
import os
import random

import core
import p_stream
import sess

REGISTRY = {}
# 'fork' needs a program to hand its messages to (P28)
CODECS = ['bohe', 'delta', 'delta2', 'delta2_bohe', 'delta_bohe', 'headerdiff', 'http1',
          'http1_gzip', 'http1_huffman', 'http2', 'hyper_hpack', 'simple', 'spdy3']
# domains: one byte for the number of lines, 16 bits for the length of a frame
BOUND = {'headerdiff': (250, 60000), 'http2': (9999, 60000), 'hyper_hpack': (9999, 60000)}
PROFILES = ['web', 'mixed', 'groups', 'churn', 'lengths', 'huge', 'count', 'tiny']


def odd_value(r, name, req):
    v = p_stream.typed_value(r, name, req)
    for _ in range(r.choice([0, 1, 1, 2, 5])):
        i = r.randint(0, len(v))
        v = v[:i] + r.choice('ab0;$:/,= "{}()<>?@[]\\%-.\0') + v[i + r.randint(0, 1):]
    return v


def p26(run):
    run.rule = ('a case is one message given to two compressors of one codec, which have '
                'seen the same messages; distinct by codec, message and output')
    jobs = []
    for codec in CODECS:
        slow = sess.interp(codec) == 'jy'
        for k in range(run.n(len(PROFILES), 6 * len(PROFILES))):
            profile = PROFILES[k % len(PROFILES)]
            s = sess.seed_of('P26', run.seed, codec, k)
            req = (k // len(PROFILES) + k) % 2 == 0
            lines, size = BOUND.get(codec, (1 << 30, 1 << 30))
            bohe = codec.endswith('bohe')
            n = 4 if profile == 'huge' and slow else 12 if profile == 'count' else \
                run.n(20, 40) if slow else 60
            ms = sess.history(s, profile, req, n, latin1=True,
                              ok=lambda h: sess.lines(h) <= lines and sess.size(h) < size)
            if bohe:    # and values the typed encoders are made for, or made to trip over
                g = random.Random(s + 1)
                for h, host in ms:
                    for k in g.sample(p_stream.TYPED, g.choice([0, 0, 1, 3])):
                        h[k] = odd_value(g, k, req)
            ms.insert(2, [{}, 'empty.example'])
            ms.insert(3, [{'x': ''}, ''])
            # two compressors: taking turns, or one after the other
            r = random.Random(s)
            late = r.random() < .5
            script = [['c', 0, i] for i in range(len(ms))]
            twin = [['c', 1, i] for i in range(len(ms))]
            script = script + twin if late else [x for p in zip(script, twin) for x in p]
            jb = sess.job(codec, [], profile, req, 0, s, msgs=ms)
            jb['script'] = script
            jb['procs'][1]['verbose'] = r.choice([0, 1, 3, 5, 5])
            jb['cost'] *= 2
            jobs.append(jb)
    for interp in ('jy', 'py3'):
        mine = [j for j in jobs if sess.interp(j['codec']) == interp]
        for jb, ev in core.run_jobs(interp, mine):
            sess.expect_complete(run, jb, ev)
            judge(run, jb, ev)
    have = sorted(d for d in os.listdir(os.path.join(core.REPO, 'compressor'))
                  if os.path.exists(os.path.join(core.REPO, 'compressor', d, '__init__.py')))
    for d in set(have) - set(CODECS) - {'fork'}:
        run.count('codecs_not_run')
    if not run.violations:
        for c in CODECS:
            run.require('messages_' + c, 150)
        run.require('verbose_twins', 40)


def judge(run, jb, events):
    codec = jb['codec']
    seen = {}
    for ev in events:
        if sess.crash(run, jb, ev):
            return
        _, proc, x = jb['script'][ev['i']]

        def bad(what):
            run.violation('%s: message %d, compressor %d (verbosity %d): %s' % (
                sess.fmt(jb), x, proc, jb['procs'][proc].get('verbose', 0), what),
                          {'kind': 'all', 'job': sess.cut(jb, ev['i'])})
        if 'ni' in ev:
            return bad('has no compress')
        if 'mut' in ev:
            return bad('changed the headers it was given')
        if 'w' not in ev:
            return bad('gave no bytes: %r' % ev)
        if x not in seen:
            seen[x] = ev['w']
        elif seen[x] != ev['w']:
            return bad('does not depend on its own history alone: %d and %d bytes, or other '
                       'ones, for the same messages' % (len(seen[x]) // 2,
                                                        len(ev['w']) // 2))
        else:
            run.case((codec, repr(sorted(jb['msgs'][x][0].items())), ev['w']),
                     bool(jb['msgs'][x][0]))
        run.count('messages_' + codec)
    run.count('sessions')
    run.count('verbose_twins', jb['procs'][1]['verbose'] > 0)
    run.sample({'session': jb['tag'], 'messages': len(events)})


REGISTRY['P26'] = p26
