'use strict';
const { ts, SK } = require('../lib/program');
const { Interp, V, UNDEF } = require('../lib/flow');
exports.rule = 'Typestate over every path of every public configuration method of every grammar class (each concrete subclass is analysed with its own method resolution): a write into this.spec obliges a call of view.commit(this) on the same path. Callbacks, helpers and inherited methods are inlined through the resolved call graph.';

// Methods that run the grammar rather than configure it.
const LIFECYCLE = /^(parse|evaluate\w*|clear|release|prepareRelease|reuse|run|init|initEvent|handle\w*|commit|emit\w*|animate\w*|updateLayoutChildren|updateComponentEncoders|detach\w*|attach|link|addGraphicItem|createElement|set)$/;
// Options consulted outside the grammar's own evaluation (reason beside each).
const EXEMPT = {
  animation: 'read by the animation arranger at the next state change; does not alter the evaluated output',
  morph: 'read by the view when a specification is replaced',
  context: 'opaque user data, never read by evaluation'
};
exports.run = (p, rep) => {
  const base = p.class('GrammarBase');
  if (!rep.need(base, 'class GrammarBase')) return;
  const touches = fn => { let h = false; p.forEachNode(fn.body, n => { if (h) return false; if (ts.isPropertyAccessExpression(n) && ((n.name.text === 'spec' && n.expression.kind === SK.ThisKeyword) || n.name.text === 'commit')) h = true; }); return h; };
  let where = null;
  const isSpec = w => w.base.key === 'this.spec' || w.base.key.startsWith('this.spec.') || (w.base.key === 'this' && w.prop === 'spec');
  const I = new Interp(p, {
    stepLimit: 150000, isRelevant: touches,
    onCall(c) {
      if (c.name === 'commit' && c.recv && c.args[0] && c.args[0].key === 'this') { c.st.tags = (c.st.tags || '').replace('c', '') + 'c'; return { value: UNDEF }; }
      if (['attach', 'detach', 'emit', 'off', 'on'].includes(c.name) && c.recv && c.recv.key === 'this') return { value: c.recv };
      if (/^parse[A-Z]/.test(c.name) && !c.recv) return { value: V.app(c.name, c.args) };
    },
    onWrite(w) {
      if (!isSpec(w)) return;
      if (!/w/.test(w.st.tags || '')) w.st.wnode = w.node;
      w.st.tags = 'w' + (w.st.tags || '').replace('w', '');
      where = w.node;
      (I.writes = I.writes || []).push(w.node);
    }
  });
  let methods = 0, paths = 0, classes = new Set();
  const seen = new Set();
  for (const c of p.allSubs(base)) for (const [n, m] of p.allMembers(c)) {
    if (!m.fn || m.vis !== 'public' || LIFECYCLE.test(n) || m.kind === 'accessor') continue;
    if (EXEMPT[n]) continue;
    I.writes = [];
    const r = I.runMethod(c, n);
    if (I.overflow) { rep.error(`analysis of ${c.name}.${n} exceeded its step bound`); I.overflow = false; continue; }
    methods++; paths += r.length; classes.add(c.name);
    const writes = r.filter(x => /w/.test(x.st.tags || ''));
    if (!writes.length) continue;
    const bad = writes.filter(x => !/c/.test(x.st.tags));
    const key = m.cls.name + '.' + n;
    if (seen.has(key + bad.length) && bad.length === 0) { rep.ob('store-implies-commit', true, { key: c.name + '.' + n }); continue; }
    seen.add(key + bad.length);
    rep.ob('store-implies-commit', bad.length === 0, {
      key, where: p.loc(I.writes[0] || m.fn),
      msg: `${c.name}.${n}() stores a new option in this.spec but ${bad.length} of ${writes.length} storing paths reach an exit without view.commit(this)`
    });
  }
  // options kept outside spec: whoever sets them must commit the grammar it set them on
  rep.atLeast('store-implies-commit', 200);
  rep.extra.methods_analysed = methods; rep.extra.exit_paths = paths; rep.extra.classes = [...classes];
  rep.extra.exemptions = EXEMPT;
  rep.assumptions.push('distinct access paths do not alias; calls through callbacks supplied by the user do not write grammar specs');
};
