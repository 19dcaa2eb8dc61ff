'use strict';
// What each registration function registers: abstract execution of every exported function that reaches Factory.registerX.
const { ts, SK, isFn, unparen } = require('./program');
const { Interp, V, UNDEF, alts } = require('./flow');
function exportedFns(p) {
  const out = [];
  for (const sf of p.files) {
    for (const s of sf.statements) {
      const exp = (s.modifiers || []).some(m => m.kind === SK.ExportKeyword);
      if (ts.isFunctionDeclaration(s) && s.body) out.push({ name: s.name ? s.name.text : 'default', fn: s, decl: s, exp });
      else if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) {
        const f = d.initializer && p.fnOfDecl(d);
        if (f && ts.isIdentifier(d.name)) out.push({ name: d.name.text, fn: f, decl: d, exp });
      }
    }
  }
  return out;
}
function registry(p) {
  if (p._registry) return p._registry;
  const factory = p.class('Factory');
  const isReg = name => /^register[A-Z]/.test(name) && factory && factory.statics.has(name);
  const isRegCall = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(unparen(n.expression)) && isReg(unparen(n.expression).name.text) && p.classOfExpr(unparen(n.expression).expression) === factory;
  const direct = fn => { let h = false; p.forEachNode(fn.body, n => { if (h) return false; if (isRegCall(n)) h = true; }); return h; };
  const reach = p.reaching(fn => direct(fn) || hasMixin(p, fn));
  const entries = [];
  const I = new Interp(p, {
    relevantSet: reach, stepLimit: 40000, maxDepth: 10, smallNodes: 0,
    onCall(c) {
      if (c.recv && c.recv.k === 'cls' && c.recv.cls === factory && isReg(c.name)) {
        entries.push({ kind: c.name.replace('register', ''), key: c.args[0], impl: c.args[1], args: c.args, node: c.node, st: c.st, caller: I.cur });
        return { value: UNDEF };
      }
      if (c.name === 'mixin' && !c.recv && c.args.length >= 2) { entries.push({ kind: 'mixin', key: c.args[0], impl: c.args[1], args: c.args, node: c.node, st: c.st, caller: I.cur }); return { value: UNDEF }; }
      if (I.cur && c.targets && c.targets.length === 1 && !c.recv) { const t = p._regFnByNode && p._regFnByNode.get(c.targets[0]); if (t && t !== I.cur) I.cur.calls.add(t); }
    }
  });
  const fns = exportedFns(p).filter(f => reach.has(f.fn) && !f.fn.parameters.some(x => !x.initializer && !x.questionToken && !x.dotDotDotToken));
  p._regFnByNode = new Map(fns.map(f => [f.fn, f]));
  for (const f of fns) { f.calls = new Set(); f.entries = []; }
  for (const f of fns) { I.cur = f; const from = entries.length; I.overflow = false; I.runEntry(f.fn); f.overflow = I.overflow; f.entries = entries.slice(from); }
  p._registry = { entries, fns, factory };
  return p._registry;
}
function hasMixin(p, fn) { let h = false; p.forEachNode(fn.body, n => { if (h) return false; if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'mixin') h = true; }); return h; }
// transform functions: [{key, fn, phase, where}]
function transforms(p) {
  const r = registry(p);
  const I = new Interp(p, {});
  const out = new Map();
  for (const e of r.entries) if (e.kind === 'Transform') {
    const impl = e.impl;
    const props = impl && (impl.k === 'obj' || impl.globalInit || impl.k === 'root') ? I.getProp(impl, 'transform', e.st) : null;
    for (const v of props ? alts(props) : [null]) {
      const k = e.key.k === 'lit' ? e.key.v : e.key.key;
      const ph = impl ? I.getProp(impl, 'markPhase', e.st) : null;
      const id = k + '|' + (v && v.k === 'fn' ? p.nid(v.node) : '?');
      if (!out.has(id)) out.set(id, { key: k, fn: v && v.k === 'fn' ? v.node : null, val: v, phase: ph && ph.k === 'lit' ? ph.v : undefined, node: e.node });
    }
  }
  return [...out.values()];
}
module.exports = { registry, transforms, exportedFns };
