"""P29: the page that draws the TSV files of the tool, run in node against a recording
stand-in for d3."""
import json
import os
import random
import re
import shutil
import subprocess

import core
import p_tool
import sess

REGISTRY = {}
NODE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'node', 'page.js')
PAGE = 'display_tsv.html'


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


# -- the tables -----------------------------------------------------------------------
def written(r):
    """A table as the tool writes it: [(stream, [size])], codecs."""
    codecs = r.sample(['http1', 'spdy3 (dict)', 'http2', 'delta2 (hg_adjust=1, max=4)',
                       'simple', 'headerdiff', 'fork ("x y.py")', 'numb', 'namely', 'bohe',
                       'hyper_hpack', 'a', '7', 'toString', 'delta', 'length'],
                      r.choice([1, 1, 2, 2, 3, 5, 12]))
    kind = r.choice(['few', 'many', 'flat', 'zero', 'large', 'runs', 'one'])
    rows = []
    for _ in range(1 if kind == 'one' else r.choice([1, 2, 3, 8, 40])):
        name = r.choice(['a.com', 'b.org', 'www.a.com', 'x-y.co.uk', 'localhost:8080',
                         'all', '10.0.0.1', 'toString'])
        for _ in range(r.choice([1, 1, 2, 7]) if kind != 'one' else 1):
            top = {'flat': 1, 'zero': 1, 'large': 10 ** 7}.get(kind, 900)
            rows.append((name, [57 if kind == 'flat' else r.randint(0, top)
                                for _ in codecs]))
    return codecs, rows


def text_of(codecs, rows):
    out = ['\t'.join(['num', 'name'] + codecs)]
    for n, (name, sizes) in enumerate(rows):
        out.append('\t'.join([str(n + 1), name] + [str(x) for x in sizes]))
    return '\n'.join(out) + '\n'


def read_table(text):
    tab = [x.split('\t') for x in text.split('\n')[:-1]]
    return tab[0][2:], [(x[1], [int(y) for y in x[2:]]) for x in tab[1:]]


# -- the oracle ------------------------------------------------------------------------
def walk(n, path=()):
    yield n, path
    for k in n['kids']:
        yield from walk(k, path + (n,))


def place(axis, v):
    (a, b), (p, q) = axis['domain'][::len(axis['domain']) - 1], \
        axis['range'][::len(axis['range']) - 1]
    if a == b:
        return None
    return p + (v - a) / (b - a) * (q - p)


def close(a, b):
    return a is not None and b is not None and abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def judge_svg(svg, codecs, rows):
    """None, or what is wrong with the drawing of one table."""
    axes = [n['axis'] for n, _ in walk(svg) if n.get('axis')]
    xs = [a for a in axes if a['orient'] in ('bottom', 'top')]
    ys = [a for a in axes if a['orient'] in ('left', 'right')]
    if len(xs) != 1 or len(ys) != 1:
        return '%d horizontal and %d vertical axes' % (len(xs), len(ys))
    x, y = xs[0], ys[0]
    sizes = [s for _, ss in rows for s in ss]
    lo, hi = min(sizes), max(sizes)
    if not min(x['domain']) <= 1 or not max(x['domain']) >= len(rows):
        return 'the axis of messages is %r for %d messages' % (x['domain'], len(rows))
    if not min(y['domain']) <= lo or not max(y['domain']) >= hi:
        return 'the axis of sizes is %r for sizes %d to %d' % (y['domain'], lo, hi)
    if not x['range'][0] < x['range'][-1] or not y['range'][0] > y['range'][-1]:
        return 'the axes run backwards: %r and %r' % (x['range'], y['range'])
    lines = [(n, path) for n, path in walk(svg)
             if n['tag'] == 'path' and 'd' in n['attrs']]
    if len(lines) != len(codecs):
        return '%d lines for %d codecs' % (len(lines), len(codecs))
    colours = set()
    drawn = {}
    for n, path in lines:       # the text beside it says whose line it is
        names = [t['text'] for t, _ in walk(path[-1]) if t['tag'] == 'text']
        if len(names) != 1 or names[0] not in codecs or names[0] in drawn:
            return 'a line is labelled %r, the codecs are %r' % (names, codecs)
        drawn[names[0]] = n, path
    for i, codec in enumerate(codecs):
        n, path = drawn[codec]
        pts = json.loads(n['attrs']['d'][1:])
        if len(pts) != len(rows):
            return 'the line of %s has %d points for %d messages' % (
                codec, len(pts), len(rows))
        for k, (p, (_, ss)) in enumerate(zip(pts, rows)):
            if p['x'] is None or p['y'] is None:
                return 'message %d of %s is drawn nowhere' % (k + 1, codec)
            if not close(p['x'], place(x, k + 1)):
                return 'message %d of %s is drawn at %.2f, which is not its place (%r)' \
                    % (k + 1, codec, p['x'], place(x, k + 1))
            want = place(y, ss[i])
            if want is not None and not close(p['y'], want):
                return 'message %d of %s has %d bytes and is drawn at height %.2f, not ' \
                    '%.2f' % (k + 1, codec, ss[i], p['y'], want)
        colour = n['style'].get('stroke') or n['attrs'].get('stroke')
        if not colour or (len(codecs) <= 10 and colour in colours):
            return 'the line of %s has the colour %r, like another' % (codec, colour)
        colours.add(colour)
        # its label: beside it, in its colour, at its last point
        t = [t for t, _ in walk(path[-1]) if t['tag'] == 'text'][0]
        if (t['style'].get('fill') or t['attrs'].get('fill')) != colour:
            return 'the label of %s has another colour than its line' % codec
        m = re.match(r'translate\(([-\d.e+]+),([-\d.e+]+)\)', t['attrs'].get('transform', ''))
        if not m or not close(float(m.group(1)), pts[-1]['x']) or \
                not close(float(m.group(2)), pts[-1]['y']):
            return 'the label of %s is at %r, its line ends at %r' % (
                codec, t['attrs'].get('transform'), pts[-1])
    # one note where each stream begins
    notes = [(n['text'], n['attrs'].get('y')) for n, path in walk(svg)
             if n['tag'] == 'text' and any(p['attrs'].get('class') == 'note' for p in path)]
    want = [(name, place(x, k + 1)) for k, (name, _) in enumerate(rows)
            if not k or rows[k - 1][0] != name]
    if [n for n, _ in notes] != [n for n, _ in want]:
        return 'the streams named are %r, should be %r' % (
            [n for n, _ in notes][:6], [n for n, _ in want][:6])
    for (name, at), (_, exp) in zip(notes, want):
        if not close(float(at), exp):
            return 'stream %s is named at %s, begins at %.2f' % (name, at, exp)
    return None


TITLES = {'req.tsv': 'Requests', 'res.tsv': 'Responses'}


def run_page(jobs):
    p = subprocess.run(['node', NODE], input=json.dumps(
        {'html': os.path.join(core.REPO, PAGE), 'jobs': jobs}).encode(),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    out = [json.loads(x) for x in p.stdout.decode().split('\n') if x]
    if len(out) != len(jobs):
        raise core.Inconclusive('node ended with %d: %s' % (
            p.returncode, p.stderr.decode()[-600:]))
    return out


@prop('P29')
def p29(run):
    run.rule = ('a case is one table drawn by the page; distinct by its text; non-trivial '
                'if it has messages')
    run.assumptions += ['d3 is a recording stand-in for version 3: what it would paint '
                        'from the calls is not looked at', 'at least one message per table']
    if not shutil.which('node'):
        raise core.Inconclusive('node is not installed')
    tables = []
    # tables the tool wrote
    cases = [p_tool.Case(sess.seed_of(run.seed, 'page', i)) for i in range(run.n(60, 600))]
    for c in cases:
        if not c.tsv:
            c.argv.insert(0, '-t')
            c.tsv = True
    psl, evs = None, p_tool.run_tool([c.job for c in cases])
    by = {id(jb): ev for jb, ev in evs}
    for c in cases:
        ev = by[id(c.job)]
        made = {k[len(c.prefix):]: v for k, v in ev['made'].items()}
        if ev['status'] or sorted(made) != ['req.tsv', 'res.tsv']:
            run.count('tool_runs_without_tables')
            continue
        run.count('tables_of_the_tool', 2)
        tables.append(made)
    # and tables of that form
    for i in range(run.n(400, 6000)):
        r = random.Random(sess.seed_of(run.seed, 'table', i))
        tables.append({t: text_of(*written(r)) for t in TITLES})
    for at in range(0, len(tables), 200):
        jobs = [{'files': t, 'reverse': (at + i) % 2 == 1}
                for i, t in enumerate(tables[at:at + 200])]
        for jb, ev in zip(jobs, run_page(jobs)):
            judge(run, jb, ev)
    if not run.violations:
        run.require('tables_drawn', 600)
        run.require('tables_of_the_tool', 60)
        run.require('points', 10000)
        run.require('tables_of_one_codec', 50)


def judge(run, jb, ev):
    rep = {'kind': 'page', 'job': jb}
    if ev['missing']:
        raise core.Inconclusive(ev['missing'])
    if ev['errors']:
        return run.violation('the page fails: %s' % ev['errors'][0], rep)
    svgs = [n for n, path in walk(ev['tree']) if n['tag'] == 'svg']
    for name, text in sorted(jb['files'].items()):
        codecs, rows = read_table(text)
        mine = [s for s in svgs if any(n['tag'] == 'text' and n['text'] == TITLES[name]
                                       for n, _ in walk(s))]
        if len(mine) != 1:
            return run.violation('%d drawings are called %r' % (len(mine), TITLES[name]), rep)
        run.case((text,), bool(rows))
        what = judge_svg(mine[0], codecs, rows)
        if what:
            return run.violation('%s: %s' % (name, what), rep)
        run.count('tables_drawn')
        run.count('tables_of_one_codec', len(codecs) == 1)
        run.count('points', len(rows) * len(codecs))
        run.sample({'codecs': codecs, 'messages': len(rows), 'streams': rows[0][0]})
