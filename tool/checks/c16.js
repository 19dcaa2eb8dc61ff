'use strict';
const { ts, SK, isFn, unparen } = require('../lib/program');
const { shared, holder, enclosing } = require('../lib/shared');
const { registry } = require('../lib/registry');
exports.rule = 'Whole-program points-to and effect analysis: every write to a module-level or static variable, every modification of a module-level or static container and every call of a process-wide service setter is located. Allowed are unique-id counters and the registration functions; registration functions are called only from registration entry points, never from the operations of a view.';
// functions that own process-wide registries, with the helpers only they use
function registration(p) {
  if (p._registration) return p._registration;
  const writers = new Set();
  for (const c of p.classes) if (['Factory', 'ThemeManager'].includes(c.name)) for (const [n, m] of c.statics) if (m.fn && /^(un)?register/.test(n)) writers.add(m.fn);
  for (const f of p.functions) if (f.name === 'projection' && !f.cls && !f.parent) writers.add(f.node);
  const callers = new Map();
  for (const f of p.functions) for (const t of p.calleesOf(f.node)) { if (!callers.has(t)) callers.set(t, new Set()); callers.get(t).add(f.node); }
  const roots = new Set(writers);
  const close = set => { for (let ch = true; ch;) { ch = false; for (const f of p.functions) if (!set.has(f.node)) { const cs = callers.get(f.node); if (cs && cs.size && [...cs].every(x => set.has(x))) { set.add(f.node); ch = true; } } } };
  close(writers);
  return (p._registration = { writers, roots, callers, close });
}
exports.registration = registration;
const SETTERS = { Logger: /^set/, container: /^(load|bind|rebind|unbind)/, application: /^set/ };
exports.run = (p, rep) => {
  const S = shared(p), R = registration(p), reg = registry(p);
  if (!S.A.converged) rep.error('points-to analysis did not converge');
  const qual = n => { const f = enclosing(n); return f ? p.qual(f) : 'module'; };
  // 1. variables
  const vars = new Map();
  for (const sf of p.files) for (const s of sf.statements) if (ts.isVariableStatement(s) && !(s.declarationList.flags & ts.NodeFlags.Const)) for (const d of s.declarationList.declarations) if (ts.isIdentifier(d.name)) vars.set(d, []);
  for (const w of S.varWrites) { if (!vars.has(w.decl)) vars.set(w.decl, []); vars.get(w.decl).push(w); }
  const counter = w => { // ++x, x++, x += c, x = x + c of a numeric module variable
    const n = w.node;
    if (n.kind === SK.PrefixUnaryExpression || n.kind === SK.PostfixUnaryExpression) return n.operator === SK.PlusPlusToken;
    if (!ts.isBinaryExpression(n)) return false;
    const num = e => { const v = p.constOf(e); return typeof v === 'number' && v > 0; };
    if (n.operatorToken.kind === SK.PlusEqualsToken) return num(n.right);
    const r = unparen(n.right);
    return n.operatorToken.kind === SK.EqualsToken && ts.isBinaryExpression(r) && r.operatorToken.kind === SK.PlusToken && ts.isIdentifier(unparen(n.left)) && [r.left, r.right].some(x => ts.isIdentifier(unparen(x)) && unparen(x).text === unparen(n.left).text) && [r.left, r.right].some(num);
  };
  for (const [d, ws] of vars) {
    const bad = ws.filter(w => !counter(w) && !(enclosing(w.node) && R.writers.has(enclosing(w.node))));
    rep.ob('module-variables', !bad.length, { key: d.name.getText() + (bad.length ? '|' + qual(bad[0].node) : ''), where: p.loc(bad.length ? bad[0].node : d), msg: bad.length ? `module-level variable ${d.name.getText()} is written by ${qual(bad[0].node)} at run time` : '' });
  }
  // 2. containers, statics and singletons
  const by = new Map();
  for (const m of S.muts) { if (!by.has(m.o)) by.set(m.o, []); by.get(m.o).push(m); }
  const empties = S.objects.filter(o => (ts.isObjectLiteralExpression(o.node) && !o.node.properties.length) || (ts.isArrayLiteralExpression(o.node) && !o.node.elements.length) || ts.isNewExpression(o.node) || o.kind === 'inst');
  for (const o of [...new Set([...empties, ...S.A.objs.filter(x => x.kind === 'cls')])]) {
    const bad = (by.get(o) || []).filter(m => { const f = enclosing(m.node); if (f && R.writers.has(f)) return false; if (o.kind === 'cls' && counter({ node: m.node })) return false; return true; });
    const name = o.kind === 'cls' ? o.cls.name : holder(p, o.node);
    rep.ob('shared-containers', !bad.length, { key: name + (bad.length ? '.' + bad[0].f + '|' + qual(bad[0].node) : ''), where: p.loc(bad.length ? bad[0].node : o.node), msg: bad.length ? `process-wide object ${name} is modified (${bad[0].how} ${bad[0].f}) by ${qual(bad[0].node)} outside the registration functions` : '' });
  }
  // 3. who calls the registration functions and process-wide setters
  const entry = new Set(R.writers);
  for (const f of reg.fns) entry.add(f.fn);
  for (const c of p.classes) for (const m of c.statics.values()) if (m.fn) entry.add(m.fn);
  for (const f of p.functions) { let x = f.parent; while (x) { if (entry.has(x.node)) entry.add(f.node); x = x.parent; } }
  R.close(entry);
  const globalRoot = e => { // declaration outside the repository reached without a local variable
    e = unparen(e);
    while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) e = unparen(e.expression);
    if (!ts.isIdentifier(e)) return null;
    const s = p.symbolOf(e);
    const d = s && (s.valueDeclaration || (s.declarations || [])[0]);
    if (!d) return ['window', 'globalThis', 'document', 'global', 'self'].includes(e.text) ? e.text : null;
    return p.inRepo(d) ? null : e.text;
  };
  let calls = 0, stores = 0;
  for (const f of p.functions) {
    const visit = n => {
      if (n !== f.node && isFn(n) && n.body) return;
      if (ts.isCallExpression(n)) {
        const t = p.resolveCall(n).targets.filter(x => R.roots.has(x));
        const c = unparen(n.expression);
        const ext = ts.isPropertyAccessExpression(c) && ts.isIdentifier(unparen(c.expression)) && SETTERS[unparen(c.expression).text] && SETTERS[unparen(c.expression).text].test(c.name.text) && globalRoot(c.expression) ? unparen(c.expression).text + '.' + c.name.text : null;
        const callee = t.length && !(p.fnInfo.get(t[0]).name === 'projection') ? p.qual(t[0]) : ext;
        if (callee) {
          calls++;
          const lit = n.arguments[0] && unparen(n.arguments[0]);
          // the logger and environment a view is created with are configuration
          const config = ext && lit && lit.kind !== SK.NullKeyword && !(ts.isIdentifier(lit) && lit.text === 'undefined');
          rep.ob('registration-only', entry.has(f.node) || !!config, { key: p.qual(f.node) + '|' + callee, where: p.loc(n), msg: `${p.qual(f.node)} changes process-wide state by calling ${callee}` });
        }
      }
      let L = null;
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment) L = unparen(n.left);
      else if (ts.isDeleteExpression(n)) L = unparen(n.expression);
      if (L && (ts.isPropertyAccessExpression(L) || ts.isElementAccessExpression(L))) {
        const g = globalRoot(L);
        if (g) { stores++; rep.ob('external-globals', entry.has(f.node), { key: p.qual(f.node) + '|' + L.getText().replace(/\s+/g, ''), where: p.loc(n), msg: `${p.qual(f.node)} assigns to ${L.getText()}, which belongs to the whole process` }); }
      }
      ts.forEachChild(n, visit);
    };
    ts.forEachChild(f.node, visit);
  }
  // 4. built-in transforms survive the release of a view (they are registered as built-in)
  const built = new Map();
  for (const e of reg.entries) if (e.kind === 'Transform') { const k = e.key.k === 'lit' ? e.key.v : e.key.key; built.set(k + p.loc(e.node), { k, e, ok: e.args[2] && e.args[2].k === 'lit' && e.args[2].v === true }); }
  for (const { k, e, ok } of built.values()) rep.ob('built-in-transforms', ok, { key: k, where: p.loc(e.node), msg: `transform '${k}' of the library is registered as a run-time transform; releasing any view unregisters it for all views` });
  rep.atLeast('module-variables', 4); rep.atLeast('shared-containers', 40); rep.atLeast('registration-only', 100); rep.atLeast('built-in-transforms', 30);
  rep.extra.entry_functions = S.entries; rep.extra.registration_calls = calls; rep.extra.global_stores = stores;
  rep.assumptions.push('objects kept inside third-party modules are changed only by the setters listed in the rule');
};
