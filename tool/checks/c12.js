'use strict';
const { ts, SK, isFn, unparen } = require('../lib/program');
const { Interp, V, UNDEF } = require('../lib/flow');
exports.rule = 'Every function that emits a hook of HOOK_EVENT is executed abstractly over all its paths (helpers that emit only one half, or a hook passed as a parameter, are inlined; a callback handed to the renderer counts as the emission it makes): on every normal path each BEFORE_X is followed by exactly one AFTER_X on the same emitter, no AFTER_X occurs without its BEFORE_X, and the work that belongs to a phase lies between the two. Every hook name published in a HOOK_EVENT enumeration is passed to some emission.';
// the calls that are the work of a phase: inside a function that announces the phase they happen between the two announcements
const WORK = {
  MARK_JOIN: /^evaluateJoin/, MARK_STATE: /^evaluateState$/, MARK_ENCODE: /^evaluateEncode/, MARK_UPDATE: /^updateGraphicItem$/, ELEMENT_ENCODE: /^(encodeItems|encodeGraphic)$/, ELEMENT_STATE: /^useStates$/,
  TRANSFORM: /^transform$/, EVALUATE_DATA: /^(evaluateTransform|_evaluateFilter)$/, EVALUATE_SCALE: /^(configureScale|createScale)$/, DO_LAYOUT: /^doLayout$/, MARK_LAYOUT_END: /^handleLayoutEnd$/, MARK_RENDER_END: /^handleRenderEnd$/, DO_RENDER: /^(render|animate)$/,
  STAGE_RESIZE: /^resize$/, CREATE_VRENDER_STAGE: /^createStage$/, ADD_VRENDER_MARK: /^(appendChild|insertIntoKeepIdx)$/, VRENDER_DRAW: /^afterNextRender$/, PARSE_VIEW: /^(parse|parseMarkSpec)$/
};
exports.run = (p, rep) => {
  // ---- published hooks
  const hooks = new Map(); const members = [];
  for (const sf of p.files) for (const s of sf.statements) if (ts.isEnumDeclaration(s) && /HOOK_EVENT$/.test(s.name.text)) for (const m of s.members) {
    const v = m.initializer && p.constOf(m.initializer); const name = m.name.text;
    members.push({ name, v, node: m, en: s.name.text }); if (s.name.text === 'HOOK_EVENT' && typeof v === 'string') hooks.set(v, name);
  }
  if (!rep.need(hooks.size, 'enum HOOK_EVENT')) return;
  const phases = new Set([...hooks.values()].filter(n => /^BEFORE_/.test(n)).map(n => n.slice(7)).filter(x => [...hooks.values()].includes('AFTER_' + x)));
  // ---- every hook is fired
  const fired = new Set(); const LISTEN = /^(on|off|once|addEventListener|removeEventListener|tap|unTap)$/;
  for (const sf of p.files) p.forEachNode(sf, n => {
    if (!ts.isPropertyAccessExpression(n) || !/HOOK_EVENT$/.test(n.expression.getText())) return;
    let a = n; for (; a && !ts.isCallExpression(a) && !ts.isStatement(a) && !ts.isTypeNode(a) && !ts.isTypeElement(a); a = a.parent) if (ts.isPropertyAssignment(a) && a.name.getText() === 'type') return;
    if (!a || ts.isTypeNode(a) || ts.isTypeElement(a)) return;
    if (ts.isCallExpression(a)) { const nm = a.expression.getText().replace(/^.*\./, ''); if (LISTEN.test(nm)) return; }
    fired.add(n.expression.getText() + '.' + n.name.text);
  });
  for (const m of members) rep.ob('fired', fired.has(m.en + '.' + m.name), { key: 'fired|' + m.name, where: p.loc(m.node), msg: `the hook ${m.name} is published but nothing emits it` });
  // ---- paths
  const mentions = fn => { let h = false; p.forEachNode(fn.body, n => { if (h) return false; if (ts.isPropertyAccessExpression(n) && n.expression.getText() === 'HOOK_EVENT') h = true; }); return h; };
  const emitsParam = fn => { let h = false; p.forEachNode(fn.body, n => { if (h) return false; if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && n.expression.name.text === 'emit' && n.arguments[0] && p.constOf(n.arguments[0]) === undefined) { const c = p.enclosingClass(n); if (!c || !/Emitter|Mixin/.test(c.name)) h = true; } }); return h; };
  const all = p.functions.filter(f => f.node.body);
  const param = new Set(all.filter(f => emitsParam(f.node) && p.fnName(f.node) !== 'emit').map(f => f.node));
  const inl = new Set(param);
  // a function nested in another belongs to the outermost one, unless it is a class member
  const outer = fn => { let o = fn; for (let a = fn.parent; a; a = a.parent) { if (isFn(a)) o = a; if (ts.isClassLike(a)) break; } return o; };
  let todo = new Set(); for (const f of all) if (mentions(f.node)) todo.add(outer(f.node));
  for (const f of todo) if (ts.isPropertyAccessExpression(f)) todo.delete(f);
  const results = new Map(); let runs = 0, paths = 0;
  const unmatched = new Map(); // fn -> events left over on its own
  // what a function that is handed over announces when it is called
  const later = (f, handed) => {
    if (unmatched.has(f)) { handed.add(f); return unmatched.get(f); }
    if (ts.isPropertyDeclaration(f.parent) || ts.isMethodDeclaration(f)) return null;
    const called = []; p.forEachNode(f.body, n => { if (ts.isCallExpression(n)) for (const t of p.resolveCall(n).targets || []) if (unmatched.has(t)) called.push(t); });
    if (!called.length) return null;
    const r = analyse(f, false); for (const t of r.took) handed.add(t);
    return [...r.left.values()];
  };
  const analyse = (fn, strict) => {
    runs++;
    const open = st => { const o = []; for (const e of st.list()) { if (e.t === 'B') o.push(e); else if (e.t === 'A') { const i = o.map(x => x.id).lastIndexOf(e.id); if (i >= 0) o.splice(i, 1); } } return o; };
    const handed = new Set();
    const I = new Interp(p, { stepLimit: 150000, maxStates: 64, maxDepth: 8, relevantSet: inl, smallNodes: 0,
      onCall(c) {
        if (c.name === 'emit' && c.recv && c.args[0]) {
          const h = c.args[0].k === 'lit' && hooks.get(c.args[0].v); if (!h) return { value: UNDEF };
          const m = /^(BEFORE|AFTER)_(.*)$/.exec(h); if (!m || !phases.has(m[2])) return { value: UNDEF };
          const e = { t: m[1][0], x: m[2], recv: c.recv.key, id: m[2] + '|' + c.recv.key, key: m[1][0] + '|' + m[2] + '|' + c.recv.key, node: c.node };
          c.st.push(e); return { value: UNDEF };
        }
        const deep = c.targets && c.targets.some(t => inl.has(t));
        if (!deep) { for (const x in WORK) if (WORK[x].test(c.name)) { const o = open(c.st); c.st.push({ t: 'W', x, id: x, key: 'W|' + x + '|' + o.some(y => y.x === x), inside: o.some(y => y.x === x), node: c.node, name: c.name }); } }
        // a function handed over to be called later
        if (c.targets && c.targets.length) return;
        for (const a of c.args) for (const e of a && a.k === 'fn' && later(a.node, handed) || []) { const th = a.thisVal || c.ctx.thisVal, recv = th ? e.recv.replace(/^this(?=\.|$)/, th.key) : e.recv; c.st.push(Object.assign({}, e, { node: c.node, recv, id: e.x + '|' + recv, key: e.t + '|' + e.x + '|' + recv })); }
      } });
    const cls = p.enclosingClass(fn);
    const took = new Set(); const exits = I.runEntry(fn, cls ? { thisVal: V.root('this', cls), cls } : {});
    if (I.overflow) { if (strict) rep.error('analysis of ' + p.fnName(fn) + ' exceeded its step bound'); else return { bad: new Map([['?', { e: { node: fn } }]]), left: new Map(), emits: new Set(), work: new Map(), exits: 0, took: new Set() }; }
    paths += exits.length; for (const q of I.inlined) took.add(q); for (const q of handed) took.add(q);
    const bad = new Map(), left = new Map(), work = new Map(); let emits = new Set();
    for (const x of exits) {
      const o = [];
      for (const e of x.st.list()) {
        if (e.t === 'B') { emits.add(e.x); o.push(e); }
        else if (e.t === 'A') { emits.add(e.x); const i = o.map(y => y.id).lastIndexOf(e.id); if (i >= 0) o.splice(i, 1); else { bad.set(e.x, { e, what: 'without' }); left.set(e.key, e); } }
      }
      for (const e of o) { bad.set(e.x, { e, what: 'open' }); left.set(e.key, e); }
    }
    for (const x of exits) for (const e of x.st.list()) if (e.t === 'W' && emits.has(e.x)) { const w = work.get(e.x + '|' + e.name) || { e, out: false, x: e.x }; if (!e.inside) w.out = true; work.set(e.x + '|' + e.name, w); }
    return { bad, left, emits, work, exits: exits.length, took };
  };
  // callees of each function (calls, and members handed over as callbacks)
  const uses = new Map();
  for (const f of all) { const o = outer(f.node); const set = uses.get(o) || new Set(); uses.set(o, set); p.forEachNode(f.node.body, n => {
    if (ts.isCallExpression(n)) for (const t of p.resolveCall(n).targets || []) set.add(outer(t));
    else if (ts.isPropertyAccessExpression(n) && n.expression.kind === SK.ThisKeyword) { const c = p.enclosingClass(n), m = c && p.member(c, n.name.text); if (m && m.fn) set.add(m.fn); }
  }); }
  const callers = fn => [...uses].filter(([o, s]) => o !== fn && s.has(fn)).map(x => x[0]);
  const step = (fns, strict) => { // to a fixpoint: helpers that emit one half are inlined where they are used
    let work = new Set(fns);
    for (let round = 0; round < 8 && work.size; round++) {
      const changed = new Set();
      for (const fn of work) {
        if (param.has(fn) && !mentions(fn)) continue;
        const prev = results.get(fn);
        inl.delete(fn); const r = analyse(fn, strict); results.set(fn, r);
        const k = [...r.left.keys()].join(); if (r.bad.size) { inl.add(fn); unmatched.set(fn, [...r.left.values()]); } else { unmatched.delete(fn); if (param.has(fn)) inl.add(fn); }
        r.k = k; if (!prev || prev.k !== k) changed.add(fn); if (process.env.DBG) console.log(round, p.fnName(fn), k);
      }
      work = new Set([...fns].filter(f => [...changed].some(c => c !== f && uses.get(f) && uses.get(f).has(c))));
    }
  };
  for (const q of param) for (const c of callers(q)) todo.add(c);
  step(todo, true);
  // what is still open may be completed by the callers (two levels up)
  let up = new Set([...results].filter(([, r]) => r.bad.size).map(x => x[0]));
  for (let lvl = 0; lvl < 2 && up.size; lvl++) { const cs = new Set(); for (const f of up) for (const c of callers(f)) if (!results.has(c)) cs.add(c); if (!cs.size) break; step(cs, false); up = new Set([...cs].filter(c => results.get(c) && results.get(c).bad.size)); }
  // ---- verdicts
  const done = (fn, x, seen = new Set()) => { if (seen.has(fn)) return false; seen.add(fn); const r = results.get(fn); if (!r || r.bad.has('?')) return false; if (!r.bad.has(x)) return true; const cs = callers(fn); return cs.length > 0 && cs.every(c => results.get(c) && results.get(c).took && results.get(c).took.has(fn) && done(c, x, seen)); };
  for (const [fn, r] of results) {
    const direct = mentions(fn), name = ((p.enclosingClass(fn) || {}).name ? p.enclosingClass(fn).name + '.' : '') + p.fnName(fn);
    if (!direct && !r.emits.size) continue;
    for (const x of r.emits) {
      const b = r.bad.get(x);
      if (!direct && b) continue; // blamed on the function that emits
      rep.ob('pair', !b || done(fn, x), { key: name + '|' + x, where: b ? p.loc(b.e.node) : p.loc(fn), msg: !b ? '' : b.what === 'open' ? `${name} announces BEFORE_${x}, but a normal path leaves the phase without AFTER_${x} (or announces it on another emitter)` : `${name} announces AFTER_${x} on a path on which BEFORE_${x} was not announced before it (or was ended already)` });
    }
    if (direct) for (const [k, w] of r.work) rep.ob('work-inside', !w.out, { key: name + '|' + k, where: p.loc(w.e.node), msg: `${name} calls ${w.e.name}() outside the phase ${w.x} that it announces` });
  }
  rep.atLeast('pair', 18); rep.atLeast('fired', 40);
  rep.extra.functions = results.size; rep.extra.exit_paths = paths; rep.extra.runs = runs;
  rep.assumptions.push('Only normal (non-throwing) exits are considered; a callback handed to the renderer is called once.');
};
