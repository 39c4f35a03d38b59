// Runs the script of a page that draws TSV files with d3 (version 3) against a
// stand-in for d3 that records the tree of elements.  No oracle here.
//   node page.js < {"html": PATH, "jobs": [{"files": {name: text}}]}   one line out per job
'use strict';
const fs = require('fs');
const vm = require('vm');
const input = JSON.parse(fs.readFileSync(0, 'utf8'));
const html = fs.readFileSync(input.html, 'utf8');

class Missing extends Error {}

// anything of d3 that the stand-in does not have: said, and not taken for a fault
function strict(obj, path) {
  return new Proxy(obj, {get(t, k) {
    if (k in t || typeof k === 'symbol' || k === 'then' || k === 'toJSON') return t[k];
    throw new Missing('the stand-in has no ' + path + '.' + String(k));
  }});
}

function parseRows(text, sep) {            // d3.dsv of version 3
  const rows = [];
  let row = [], i = 0, cell = '', q = false, any = false;
  const endCell = () => { row.push(cell); cell = ''; };
  for (; i < text.length; i++) {
    const c = text[i];
    if (q) {
      if (c === '"' && text[i + 1] === '"') { cell += '"'; i++; }
      else if (c === '"') q = false;
      else cell += c;
    } else if (c === '"' && cell === '') { q = true; any = true; }
    else if (c === sep) { endCell(); any = true; }
    else if (c === '\n' || c === '\r') {
      if (c === '\r' && text[i + 1] === '\n') i++;
      endCell(); rows.push(row); row = []; any = false;
    } else { cell += c; any = true; }
  }
  if (any || cell) { endCell(); rows.push(row); }
  return rows;
}

function parse(text, sep, f) {
  const rows = parseRows(text, sep);
  const head = rows.shift() || [];
  const out = rows.map((r, i) => {
    const o = {};
    head.forEach((h, k) => { if (k in r) o[h] = r[k]; });
    return f ? f(o, i) : o;
  }).filter((o) => o != null);
  out.columns = head;
  return out;
}

function makeD3(files, record) {
  const root = {tag: 'body', attrs: {}, style: {}, text: null, kids: []};
  const later = [];
  const fn = (v) => typeof v === 'function' ? v : () => v;

  function selection(groups) {             // groups: [[node or null]] with parents
    const each = (f) => {
      groups.forEach((g) => g.nodes.forEach((n, i) => { if (n) f(n, i, g); }));
      return sel;
    };
    const map = (f) => selection(groups.map((g) => ({parent: g.parent,
      nodes: g.nodes.map((n, i) => n ? f(n, i, g) : null)})));
    const first = () => {
      for (const g of groups) for (const n of g.nodes) if (n) return n;
      return null;
    };
    const setter = (put, get) => function (name, value) {
      if (name && typeof name === 'object') {
        for (const k of Object.keys(name)) sel_set(put, k, name[k]);
        return sel;
      }
      if (arguments.length < 2) { const n = first(); return n ? get(n, name) : null; }
      return sel_set(put, name, value);
    };
    const sel_set = (put, name, value) => each((n, i) => put(n, name, fn(value).call(n, n.data, i)));
    const append = (tag) => map((n, i) => {
      if (n.entering) {
        const k = {tag, attrs: {}, style: {}, text: null, kids: [], data: n.data};
        n.parent.kids.push(k);
        return k;
      }
      const k = {tag: typeof tag === 'function' ? 'g' : tag, attrs: {}, style: {},
                 text: null, kids: [], data: n.data};
      n.kids.push(k);
      return k;
    });
    const matches = (n, q) => q[0] === '.' ?
      (' ' + (n.attrs['class'] || '') + ' ').includes(' ' + q.slice(1) + ' ') :
      q[0] === '#' ? n.attrs.id === q.slice(1) : q.includes('.') ?
      n.tag === q.split('.')[0] && matches(n, '.' + q.split('.')[1]) : n.tag === q;
    const find = (n, q, out) => {
      n.kids.forEach((k) => { if (matches(k, q)) out.push(k); find(k, q, out); });
      return out;
    };
    const sel = strict({
      append,
      insert: (tag) => append(tag),
      attr: setter((n, k, v) => { if (v == null) delete n.attrs[k]; else n.attrs[k] = String(v); },
                   (n, k) => n.attrs[k]),
      style: setter((n, k, v) => { n.style[k] = String(v); }, (n, k) => n.style[k]),
      property: setter((n, k, v) => { n[k] = v; }, (n, k) => n[k]),
      classed: (name, on) => each((n) => {
        const c = (n.attrs['class'] || '').split(' ').filter((x) => x && x !== name);
        if (on) c.push(name);
        n.attrs['class'] = c.join(' ');
      }),
      text(v) {
        if (!arguments.length) return first().text;
        return each((n, i) => { const t = fn(v).call(n, n.data, i);
                                n.text = t == null ? '' : String(t); });
      },
      html(v) { return this.text(v); },
      title(v) { return this.text(v); },
      call(f, ...more) { f(sel, ...more); return sel; },
      each(f) { return each((n, i) => f.call(n, n.data, i)); },
      node: () => first(),
      empty: () => !first(),
      size: () => groups.reduce((a, g) => a + g.nodes.filter(Boolean).length, 0),
      remove: () => each((n) => { n.removed = true; }),
      transition: () => sel,
      duration: () => sel,
      on: () => sel,
      select: (q) => map((n) => find(n, q, [])[0] || null),
      selectAll: (q) => selection([].concat(...groups.map((g) => g.nodes.filter(Boolean).map(
        (n) => ({parent: n, nodes: find(n, q, [])}))))),
      datum(v) {
        if (!arguments.length) { const n = first(); return n ? n.data : undefined; }
        return each((n, i) => { n.data = fn(v).call(n, n.data, i); });
      },
      filter: (f) => selection(groups.map((g) => ({parent: g.parent, nodes: g.nodes.filter(
        (n, i) => n && (typeof f === 'function' ? f.call(n, n.data, i) : matches(n, f)))}))),
      data(values) {
        const update = [], enter = [], exit = [];
        groups.forEach((g, gi) => {
          const vs = typeof values === 'function' ?
            values.call(g.parent, g.parent.data, gi) : values;
          const up = [], en = [];
          vs.forEach((v, i) => {
            if (g.nodes[i]) { g.nodes[i].data = v; up.push(g.nodes[i]); en.push(null); }
            else { up.push(null); en.push({entering: true, parent: g.parent, data: v}); }
          });
          update.push({parent: g.parent, nodes: up});
          enter.push({parent: g.parent, nodes: en});
          exit.push({parent: g.parent, nodes: g.nodes.slice(vs.length)});
        });
        const s = selection(update);
        const base = {enter: () => selection(enter), exit: () => selection(exit)};
        return new Proxy(s, {get: (t, k) => k in base ? base[k] : t[k]});
      },
    }, 'selection');
    return sel;
  }

  function linear() {
    let domain = [0, 1], range = [0, 1], clamp = false;
    const scale = (v) => {
      const a = +domain[0], b = +domain[domain.length - 1];
      let t = (v - a) / ((b - a) || 1 / b);
      if (clamp) t = Math.max(0, Math.min(1, t));
      return +range[0] * (1 - t) + +range[range.length - 1] * t;
    };
    const me = Object.assign(scale, {
      domain(d) { if (!arguments.length) return domain; domain = d.map(Number); return me; },
      range(d) { if (!arguments.length) return range; range = d; return me; },
      rangeRound(d) { range = d; return me; },
      clamp(v) { if (!arguments.length) return clamp; clamp = v; return me; },
      nice() { record.nice = true; return me; },
      ticks: () => [], tickFormat: () => String,
      invert: (p) => { const a = domain[0], b = domain[1];
                       return a + (p - range[0]) / (range[1] - range[0]) * (b - a); },
      copy() { return linear().domain(domain).range(range); },
    });
    return me;
  }

  function ordinal(colours) {
    let domain = [], range = colours || [];
    const scale = (v) => {
      let i = domain.indexOf(String(v));
      if (i < 0) { domain.push(String(v)); i = domain.length - 1; }
      return range[i % range.length];
    };
    const me = Object.assign(scale, {
      domain(d) {
        if (!arguments.length) return domain.slice();
        domain = [];
        d.forEach((x) => { if (!domain.includes(String(x))) domain.push(String(x)); });
        return me;
      },
      range(d) { if (!arguments.length) return range; range = d; return me; },
    });
    return me;
  }

  function shape(names) {                  // line and area generators
    const acc = {}, opt = {};
    const me = (values, i) => 'P' + JSON.stringify(values.map((v, k) => {
      const p = {};
      for (const n of names) if (acc[n]) p[n] = +fn(acc[n]).call(null, v, k);
      return p;
    }));
    for (const n of names) me[n] = function (f) {
      if (!arguments.length) return acc[n]; acc[n] = f; return me; };
    for (const n of ['interpolate', 'tension', 'defined']) me[n] = (v) => { opt[n] = v; return me; };
    return me;
  }

  function axis() {
    const opt = {};
    const me = (sel) => {
      sel.each(function () {
        this.axis = {orient: opt.orient || 'bottom', domain: opt.scale.domain().slice(),
                     range: opt.scale.range().slice()};
      });
      return me;
    };
    for (const n of ['scale', 'orient', 'ticks', 'tickSize', 'tickFormat', 'tickValues',
                     'tickPadding', 'innerTickSize', 'outerTickSize', 'tickSubdivide']) {
      me[n] = function (v) { if (!arguments.length) return opt[n]; opt[n] = v; return me; };
    }
    return me;
  }

  function fetch(sep) {
    return (name, row, done) => {
      if (done === undefined) { done = row; row = null; }
      later.push(() => {
        if (!(name in files)) return done({status: 404}, undefined);
        done(null, parse(files[name], sep, row));
      });
    };
  }
  const best = (pick) => (a, f) => {
    let out;
    a.forEach((v, i) => {
      const x = f ? f.call(a, v, i) : v;
      if (x != null && x >= x && (out === undefined || pick(x, out))) out = x;
    });
    return out;
  };
  const palette = (n) => () => ordinal(Array.from({length: n}, (_, i) => '#c' + i));
  const min = best((a, b) => a < b), max = best((a, b) => a > b);
  const d3 = strict({
    select: (q) => selection([{parent: root, nodes: [typeof q === 'object' ? q : root]}]),
    selectAll: (q) => selection([{parent: root, nodes: [root]}]).selectAll(q),
    tsv: Object.assign(fetch('\t'), {parse: (t, f) => parse(t, '\t', f)}),
    csv: fetch(','),
    keys: (m) => { const k = []; for (const x in m) k.push(x); return k; },
    values: (m) => { const k = []; for (const x in m) k.push(m[x]); return k; },
    entries: (m) => { const k = []; for (const x in m) k.push({key: x, value: m[x]}); return k; },
    min, max, extent: (a, f) => [min(a, f), max(a, f)],
    sum: (a, f) => a.reduce((s, v, i) => s + +(f ? f(v, i) : v), 0),
    range: (n) => Array.from({length: n}, (_, i) => i),
    merge: (a) => [].concat(...a),
    format: () => String,
    scale: strict({linear, ordinal: () => ordinal(), category10: palette(10),
                   category20: palette(20), category20b: palette(20), category20c: palette(20)},
                  'd3.scale'),
    svg: strict({axis, line: () => shape(['x', 'y']), area: () => shape(['x', 'y', 'y0', 'y1'])},
                'd3.svg'),
  }, 'd3');
  return {d3, root, later};
}

function tidy(n) {
  return {tag: n.tag, attrs: n.attrs, style: n.style, text: n.text, axis: n.axis,
          kids: n.kids.filter((k) => !k.removed).map(tidy)};
}

const scripts = [];
html.replace(/<script\b([^>]*)>([\s\S]*?)<\/script>/gi, (_, at, body) => {
  if (!/\bsrc\s*=/.test(at)) scripts.push(body);
  return '';
});

for (const job of input.jobs) {
  const record = {};
  const {d3, root, later} = makeD3(job.files, record);
  const out = {errors: [], missing: null};
  const guard = (f) => {
    try { f(); } catch (e) {
      if (e instanceof Missing) out.missing = e.message;
      else out.errors.push(String(e && e.stack || e).split('\n').slice(0, 3).join(' | '));
    }
  };
  const context = vm.createContext({d3, console: {log() {}, warn() {}, error() {}}});
  for (const s of scripts) guard(() => vm.runInContext(s, context, {timeout: 20000}));
  // the answers to the requests may come in any order
  const order = job.reverse ? later.reverse() : later;
  while (order.length) guard(order.shift());
  out.requests = scripts.length;
  out.tree = tidy(root);
  process.stdout.write(JSON.stringify(out) + '\n');
}
