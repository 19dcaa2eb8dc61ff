'use strict';
const { ts, SK, isFn, unparen } = require('../lib/program');
const { Interp, V, UNDEF, saysEmpty } = require('../lib/flow');
exports.rule = 'Every path of View.run and of the evaluation it starts (helpers of the view inlined) is executed abstractly; the order of the phases on each path is compared with the contract: replaced grammars are reused, then detached, before the first dataflow pass; the size of the renderer is settled before it and again before rendering; the layout tree, the layout, the re-evaluation of what layout committed and the end of layout follow it in that order; morphing precedes the release of cached grammars, which precedes rendering; rendering happens exactly once, last, on every path that evaluated, and only a path with nothing to do evaluates nothing.';
const LABEL = { R: 'reusing replaced grammars', T: 'detaching the replaced grammars', U: 'detaching a reused grammar', E: 'the dataflow evaluation', B: 'building the layout tree', L: 'the layout', H: 'the end of layout', M: 'morphing', X: 'the release of cached grammars', Z: 'resizing the renderer', D: 'rendering' };
exports.run = (p, rep) => {
  const view = p.class('View'), flow = p.class('Dataflow');
  if (!rep.need(view, 'class View') || !rep.need(flow, 'class Dataflow')) return;
  const entry = view.members.get('run');
  if (!rep.need(entry && entry.fn, 'View.run')) return;
  const vfile = view.node.getSourceFile();
  const own = f => p.enclosingClass(f) === view || f.getSourceFile() === vfile;
  const canvas = fn => { const c = p.enclosingClass(fn); return c && c.name; };
  const nodes = new Map();
  const put = (c, k, extra) => {
    const l = c.st.list();
    if (/[RTU]/.test(k)) { const i = l.map(e => e.t).lastIndexOf(k); if (i >= 0 && !l.slice(i).some(e => e.t === 'E' || k === 'U' && e.t === 'R')) return; }
    c.st.push({ t: k, key: k + (/[QTU]/.test(k) ? l.filter(e => e.t === k).length : '') + (extra || ''), v: extra, node: c.node });
    if (!nodes.has(k)) nodes.set(k, []); nodes.get(k).push(c.node);
  };
  const rel = new Set(p.functions.filter(f => f.node.body && own(f.node) && !ts.isConstructorDeclaration(f.node)).map(f => f.node));
  // iteration over the recorded grammars (functions that only call their callback) is followed
  for (const f of p.functions) if (f.node.body && f.cls && /grammar-record\.ts$/.test(f.node.getSourceFile().fileName) && f.node.parameters.length && f.node.parameters[0].type && ts.isFunctionTypeNode(f.node.parameters[0].type) && f.node.type === undefined) rel.add(f.node);
  // helpers of the view that (transitively) perform a phase are inlined
  const I = new Interp(p, { relevantSet: rel, stepLimit: 600000, maxStates: 2000, maxDepth: 8, smallNodes: 0, maxTargets: 1,
    onCall(c) {
      const r = c.recv, k = r ? r.key : '', t0 = c.targets && c.targets[0];
      const cls = t0 && p.enclosingClass(t0);
      if (c.name === 'evaluate' && (k === 'this._dataflow' || cls === flow)) { put(c, 'E'); return { value: V.lit(true) }; }
      if (c.name === 'hasCommitted' && (k === 'this._dataflow' || cls === flow)) { const v = V.root('?committed' + c.st.list().filter(e => e.t === 'Q').length + '~' + c.st.list().filter(e => e.t === 'E').length); c.st.push({ t: 'Q', key: 'Q' + v.key, v: v.key, node: c.node }); return { value: v }; }
      if (c.name === 'emit' && c.args[0] && c.args[0].k === 'lit') { const h = c.args[0].v; if (h === 'beforeDoLayout') put(c, 'L'); else if (h === 'beforeMarkLayoutEnd') put(c, 'H'); return { value: UNDEF }; }
      if (c.name === 'reuse' && r && !/^this$/.test(k)) { put(c, 'R', c.args[0] ? c.args[0].key : ''); return { value: r }; }
      if (c.name === 'detachAll' && r && k !== 'this') { put(c, c.st.list().some(e => e.t === 'R' && e.v === k) ? 'U' : 'T'); return { value: r }; }
      if (c.name === 'morph' && k === 'this') { put(c, 'M'); return { value: UNDEF }; }
      if (k === 'this._cachedGrammars' && c.name === 'clear') { put(c, 'X'); return { value: UNDEF }; }
      if (k === 'this._cachedGrammars' && c.name === 'size') return { value: V.root('?cached') };
      if (c.name === 'shouldResize' && k === 'this.renderer') { put(c, 'Z'); return { value: V.root('?resize' + c.st.list().filter(e => e.t === 'Z').length) }; }
      if (c.name === 'render' && k === 'this.renderer') { put(c, 'D'); return { value: UNDEF }; }
      if (r && t0 && !rel.has(t0) && !c.args.some(a => a.k === 'fn' || a.k === 'closure')) return { value: V.app(c.name, r ? [r, ...c.args] : c.args) };
    },
    onWrite(w) {
      if (w.base.key !== 'this') return;
      if (w.prop === '_layoutMarks') put({ st: w.st, node: w.node }, 'B');
    } });
  const exits = I.runMethod(view, 'run') || [];
  if (I.overflow) rep.error('analysis of View.run exceeded its step bound');
  const where = k => nodes.has(k) ? p.loc(nodes.get(k)[0]) : p.loc(entry.fn);
  if (process.env.DBG) for (const x of exits) console.log(x.st.list().map(e => e.key).join(' '), [...x.st.facts].filter(([k]) => /committed|cached|resize|_layoutState/.test(k)).join(' '));
  // ---- order
  const viol = new Map(); let judged = 0;
  const fail = (key, k, msg) => { if (!viol.has(key)) viol.set(key, { k, msg }); };
  const RULES = [];
  const before = (a, b, why) => RULES.push({ key: a + '<' + b, b, text: `${LABEL[a]} comes after ${LABEL[b]}`, test: s => { const la = s.lastIndexOf(a), fb = s.indexOf(b); return la < 0 || fb < 0 || la < fb; } });
  before('R', 'E'); before('T', 'E'); before('U', 'E'); before('R', 'T'); before('M', 'X'); before('X', 'D'); before('E', 'M'); before('E', 'D'); before('E', 'H'); before('B', 'L'); before('L', 'H'); before('H', 'D'); before('L', 'D');
  RULES.push({ key: 'reused is detached', b: 'R', text: 'a grammar that was reused is not detached before the dataflow evaluation', test: s => { const r = s.lastIndexOf('R'); return r < 0 || s.slice(r).includes('U'); } });
  const some = (a, b) => RULES.push({ key: a + ' needs ' + b, b: a, text: `${LABEL[a]} is reached without ${LABEL[b]} before it`, test: s => { const i = s.indexOf(a); return i < 0 || s.slice(0, i).includes(b); } });
  some('D', 'E'); some('L', 'E'); some('E', 'Z'); some('D', 'X'); some('D', 'M'); some('B', 'E');
  RULES.push({ key: 'E then D', b: 'E', text: 'a path evaluates the dataflow but never renders', test: (s, x) => !s.includes('E') || s.includes('D') || falsyFact(x, /this\.renderer$/) });
  RULES.push({ key: 'D once', b: 'D', text: 'a path renders more than once', test: s => s.indexOf('D') === s.lastIndexOf('D') });
  RULES.push({ key: 'resize after E', b: 'Z', text: 'a path renders without adapting the size of the renderer after the dataflow evaluation', test: s => { const d = s.indexOf('D'); return d < 0 || s.slice(s.lastIndexOf('E'), d).includes('Z'); } });
  RULES.push({ key: 're-evaluate', b: 'L', text: 'what the layout committed is not evaluated before the end of layout and rendering', test: (s, x) => { const l = s.lastIndexOf('L'); if (l < 0) return true; const rest = s.slice(l); const stop = rest.findIndex(e => e === 'H' || e === 'D'); const seg = stop < 0 ? rest : rest.slice(0, stop); if (seg.includes('E')) return true; const ev = x.st.list(); let n = -1, li = -1; ev.forEach((e, i) => { if (e.t === 'L') li = i; }); return ev.slice(li).some(e => e.t === 'Q' && x.st.facts.get('T|' + e.v) === false); } });
  const subjectOf = (k, re) => { const m = new RegExp('[\\w.@$#]*' + re.source + '[\\w.~]*').exec(k.replace(/^\w+\|/, '')); return m ? m[0] : ''; };
  const falsyFact = (x, re) => [...x.st.facts].some(([k, v]) => (k.startsWith('T|') && v === false || k.startsWith('N|') && v === true) && re.test(k.slice(2)));
  for (const [name, re, what] of [['committed', /\?committed/, 'committed grammars'], ['replaced', /\?cached/, 'replaced grammars'], ['layout', /_layoutState/, 'a pending layout'], ['resize', /\?resize/, 'a changed size']])
    RULES.push({ key: 'skip without ' + name, b: 'E', text: `a run can end without evaluating although there is ${what}`, test: (s, x) => s.includes('E') || [...x.st.facts].some(([k, v]) => re.test(k) && saysEmpty(k, v, subjectOf(k, re))) });
  const seen = new Set();
  for (const x of exits) {
    const s = x.st.list().map(e => e.t); for (const k of s) seen.add(k);
    for (const r of RULES) { judged++; if (!r.test(s, x)) fail(r.key, r.b, r.text + ' (path: ' + s.filter(k => LABEL[k]).map(k => LABEL[k]).join(', ') + ')'); }
  }
  for (const k of ['R', 'T', 'U', 'E', 'B', 'L', 'H', 'M', 'X', 'Z', 'D']) rep.ob('phase-present', seen.has(k), { key: k, where: p.loc(entry.fn), msg: `${LABEL[k]} does not happen on any path of a view run` });
  for (const r of RULES) { const v = viol.get(r.key); rep.ob('order', !v, { key: r.key, where: v ? where(v.k) : where(r.b), msg: v ? 'in a view run, ' + v.msg : '' }); }
  rep.need(exits.length >= 4, 'several paths through View.run');
  rep.extra.paths = exits.length; rep.extra.judgements = judged;
  rep.assumptions.push('Only normal exits; the phases themselves do not call back into View.run.');
};
