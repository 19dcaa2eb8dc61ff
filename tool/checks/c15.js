'use strict';
const { ts, SK, isFn, unparen } = require('../lib/program');
const { shared, holder, enclosing } = require('../lib/shared');
const { transforms } = require('../lib/registry');
const { PTA } = require('../lib/pta');
exports.rule = 'Zone: every function of the layout, coordinate, projection, word cloud and utility packages, of the core transforms, layouts, scale/coordinate parsing, element diff and encoding, and everything the registered transforms can reach. In the zone no clock, random source or random UUID may be read unless the access is control dependent on a documented random or progressive-time option; no module-level or static variable or container that is modified at run time may be read; no stateful closure or stateful regular expression may be created once at module load; and no registered transform may modify the options, parameters or view it is given.';
const ZONE = /packages\/vgrammar-(hierarchy|sankey|venn|wordcloud|wordcloud-shape|coordinate|projection|util)\/src\/|vgrammar-core\/src\/(transforms\/|parse\/(scale|coordinate|option|util|transform)\.ts|graph\/layout|graph\/mark\/(differ|encode)|util\/)|vgrammar-core\/src\/view\/(scale|coordinate)\.ts/;
const OPT = /random|progressive/i;
exports.run = (p, rep) => {
  const file = n => n.getSourceFile().fileName;
  const roots = p.functions.filter(f => ZONE.test(file(f.node))).map(f => f.node);
  const tr = transforms(p);
  for (const t of tr) if (t.fn) roots.push(t.fn);
  // what the zone reaches through data: the view, grammars and renderer are not part of a layout computation
  const outside = n => /vgrammar-core\/src\/(view|component|interactions|semantic-marks|graph\/animation|core)\//.test(file(n)) && !ZONE.test(file(n));
  const zone = new Set(roots); const work = [...roots];
  while (work.length) { const x = work.pop(); for (const y of p.calleesOf(x)) if (!zone.has(y) && !outside(y)) { zone.add(y); work.push(y); } }
  // ---- 1. clocks and random sources
  const external = id => { const s = p.symbolOf(id); if (!s) return true; const d = s.valueDeclaration || (s.declarations || [])[0]; return !d || !p.inRepo(d); };
  const source = n => {
    if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(unparen(n.expression))) {
      const b = unparen(n.expression), k = b.text + '.' + n.name.text;
      if (/^(Math\.random|Date\.now|performance\.now|crypto\.(getRandomValues|randomUUID)|process\.hrtime|process\.uptime)$/.test(k) && external(b)) return k;
    }
    if (ts.isNewExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'Date' && external(n.expression) && !(n.arguments && n.arguments.length)) return 'new Date()';
    if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'Date' && external(n.expression)) return 'Date()';
    if (ts.isBindingElement(n) && /^(random|now)$/.test((n.propertyName || n.name).getText())) { const d = n.parent.parent; if (ts.isVariableDeclaration(d) && d.initializer && /^(Math|Date|performance)$/.test(d.initializer.getText())) return d.initializer.getText() + '.' + (n.propertyName || n.name).getText(); }
    return null;
  };
  // text of a condition with local single-assignment names expanded
  const condText = (e, depth = 0) => {
    let t = e.getText();
    if (depth < 3) p.forEachNode(e, x => { if (ts.isIdentifier(x) && !(x.parent && ts.isPropertyAccessExpression(x.parent) && x.parent.name === x)) { const s = p.symbolOf(x); const d = s && s.valueDeclaration; if (d && ts.isVariableDeclaration(d) && d.initializer && p.inRepo(d)) t += ' ' + condText(d.initializer, depth + 1); } if (ts.isCallExpression(x)) for (const f of p.resolveCall(x).targets) if (depth < 2 && f.body && f.body.getText().length < 400) t += ' ' + f.body.getText(); });
    return t;
  };
  const endsFlow = s => s && (ts.isReturnStatement(s) || ts.isThrowStatement(s) || (ts.isBlock(s) && s.statements.length && endsFlow(s.statements[s.statements.length - 1])));
  const guarded = n => {
    for (let c = n, q = n.parent; q; c = q, q = q.parent) {
      let cond = null;
      if (ts.isIfStatement(q) && c !== q.expression) cond = q.expression;
      else if (ts.isConditionalExpression(q) && c !== q.condition) cond = q.condition;
      else if (ts.isBinaryExpression(q) && c === q.right && [SK.AmpersandAmpersandToken, SK.BarBarToken, SK.QuestionQuestionToken].includes(q.operatorToken.kind)) cond = q.left;
      else if (ts.isCaseClause(q) && c !== q.expression) cond = q.expression;
      else if (ts.isBlock(q)) { // early exits before the use
        for (const s of q.statements) { if (s === c) break; if (ts.isIfStatement(s) && endsFlow(s.thenStatement) && OPT.test(condText(s.expression))) return true; }
      }
      if (cond && OPT.test(condText(cond) + (ts.isCaseClause(q) ? ' ' + String(p.constOf(q.expression)) : ''))) return true;
      if (ts.isParameter(q) && q.initializer === c && OPT.test(q.name.getText())) return true;
      if (ts.isBindingElement(q) && q.initializer === c && OPT.test((q.propertyName || q.name).getText())) return true;
    }
    return false;
  };
  const callers = new Map();
  for (const f of p.functions) p.forEachNode(f.node, n => { if ((ts.isCallExpression(n)) ) for (const t of p.resolveCall(n).targets) { if (!callers.has(t)) callers.set(t, new Set()); callers.get(t).add(n); } });
  const allowed = (n, seen = new Set()) => {
    if (guarded(n)) return true;
    let f = enclosing(n);
    if (!f || seen.has(f)) return false;
    seen.add(f);
    const cs = [...(callers.get(f) || [])];
    if (cs.length) return cs.every(c => allowed(c, seen));
    return false;
  };
  let sources = 0;
  for (const f of zone) {
    const bad = [];
    const visit = n => {
      if (n !== f && isFn(n) && n.body) return;
      const s = source(n);
      if (s) { sources++; if (!allowed(n)) bad.push([n, s]); }
      ts.forEachChild(n, visit);
    };
    ts.forEachChild(f, visit);
    rep.ob('no-hidden-source', !bad.length, { key: p.qual(f) + (bad.length ? '|' + bad[0][1] : ''), where: p.loc(bad.length ? bad[0][0] : f), msg: bad.length ? `${p.qual(f)} reads ${bad[0][1]}, which is not controlled by a random or progressive option` : '' });
  }
  for (const sf of p.files) if (ZONE.test(sf.fileName)) p.forEachNode(sf, n => { if (isFn(n)) return false; const s = source(n); if (s) rep.ob('no-hidden-source', false, { key: 'module|' + s, where: p.loc(n), msg: `module-level code reads ${s}` }); });
  // ---- 2. module-level and static state modified at run time
  const S = shared(p);
  if (!S.A.converged) rep.error('points-to analysis did not converge');
  const dirtyVars = new Set(S.varWrites.map(w => w.decl));
  const dirtyObjs = new Map();
  for (const m of S.muts) { const f = enclosing(m.node); if (f && zone.has(f)) dirtyObjs.set(m.o, m); }
  for (const f of zone) {
    const bad = [];
    const visit = n => {
      if (n !== f && isFn(n) && n.body) return;
      if (ts.isIdentifier(n) && !(n.parent && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n)) { const d = S.A.declOf(n); if (d && dirtyVars.has(d)) bad.push([n, d.name.getText()]); }
      ts.forEachChild(n, visit);
    };
    ts.forEachChild(f, visit);
    rep.ob('no-carried-state', !bad.length, { key: p.qual(f) + (bad.length ? '|' + bad[0][1] : ''), where: p.loc(bad.length ? bad[0][0] : f), msg: bad.length ? `${p.qual(f)} uses the module-level variable ${bad[0][1]}, which changes at run time` : '' });
  }
  for (const [o, m] of dirtyObjs) {
    if (/^register|^projection$/.test(p.fnInfo.get(enclosing(m.node)).name)) continue;
    const name = o.kind === 'cls' ? o.cls.name + '.' + m.f : holder(p, o.node);
    rep.ob('no-carried-state', false, { key: name + '|' + p.qual(enclosing(m.node)), where: p.loc(m.node), msg: `${p.qual(enclosing(m.node))} keeps state in ${name}, which outlives the computation` });
  }
  // stateful closures and regular expressions created at module load
  const stateful = fn => { let r = false; const locals = new Set(); const own = n => { if (n !== fn && isFn(n)) return; if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name)) locals.add(n); ts.forEachChild(n, own); }; if (fn.body) own(fn.body); for (const q of fn.parameters) if (ts.isIdentifier(q.name)) locals.add(q); for (const d of locals) if (S.A.nestedAssigned(d, fn) || incremented(d, fn)) r = true; return r; };
  const incremented = (d, fn) => { let r = false; const v = (n, nested) => { if (nested && (n.kind === SK.PostfixUnaryExpression || n.kind === SK.PrefixUnaryExpression) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) && ts.isIdentifier(unparen(n.operand))) { const s = p.symbolOf(unparen(n.operand)); if (s && s.valueDeclaration === d) r = true; } ts.forEachChild(n, c => v(c, nested || (isFn(n) && n !== fn))); }; v(fn, false); return r; };
  for (const sf of p.files) if (ZONE.test(sf.fileName)) {
    const bad = [];
    const visit = n => {
      if (isFn(n) && n.body) return;
      if (ts.isCallExpression(n) || ts.isNewExpression(n)) for (const t of p.resolveCall(n).targets) if (stateful(t)) bad.push([n, 'a closure with state of its own made by ' + p.qual(t)]);
      if (n.kind === SK.RegularExpressionLiteral && /\/[a-z]*[gy][a-z]*$/.test(n.text)) bad.push([n, 'the stateful regular expression ' + n.text]);
      ts.forEachChild(n, visit);
    };
    ts.forEachChild(sf, visit);
    // literals with /g used through replace/match/split only are stateless
    const real = bad.filter(([n]) => { if (n.kind !== SK.RegularExpressionLiteral) return true; const d = n.parent; if (!ts.isVariableDeclaration(d)) return true; let used = false; p.forEachNode(sf, x => { if (ts.isPropertyAccessExpression(x) && /^(test|exec)$/.test(x.name.text) && ts.isIdentifier(unparen(x.expression))) { const s = p.symbolOf(unparen(x.expression)); if (s && s.valueDeclaration === d) used = true; } }); return used || (d.parent.parent.modifiers || []).some(m => m.kind === SK.ExportKeyword); });
    rep.ob('no-module-closure', !real.length, { key: sf.fileName.split('/packages/')[1] + (real.length ? '|' + real[0][1] : ''), where: real.length ? p.loc(real[0][0]) : sf.fileName.split('/packages/')[1], msg: real.length ? `module load creates ${real[0][1]}, shared by all later computations` : '' });
  }
  // ---- 3. transforms do not write into what they are configured with
  const isView = fn => { for (let k = p.enclosingClass(fn); k; k = k.base) if (k.name === 'GrammarBase') return true; return false; };
  const nilGuard = (node, path) => { // modification under "this option is not given"
    for (let c = node, q = node.parent; q && !isFn(q); c = q, q = q.parent) if (ts.isIfStatement(q) && c === q.thenStatement && new RegExp('(!isValid|isNil)\\(' + path.replace(/[.[\]]/g, '\\$&') + '\\)|!' + path.replace(/[.[\]]/g, '\\$&') + '(?![\\w.])').test(q.expression.getText().replace(/\s/g, ''))) return true;
    return false;
  };
  const seen = new Set();
  for (const t of tr) {
    if (!t.fn || seen.has(t.key + p.nid(t.fn))) continue;
    seen.add(t.key + p.nid(t.fn));
    const A = new PTA(p, { skip: isView });
    const names = ['options', 'data', 'parameters', 'view'];
    A.entry(t.fn, t.fn.parameters.map((x, i) => names[i] && i !== 1 ? new Set([A.input(names[i])]) : A.EXTS));
    A.solve();
    if (!A.converged) rep.error(`points-to analysis of '${t.key}' did not converge`);
    const bad = [...A.muts.values()].filter(m => m.o.kind === 'input' && (m.o.path !== 'options' ? /^options[.[]/.test(m.o.path) || /^(parameters|view)/.test(m.o.path) : false) && !nilGuard(m.node, m.o.path) && !(t.key === 'identifier' && m.o.path === 'view'));
    const b = bad[0];
    rep.ob('configuration-read-only', !b, { key: t.key + (b ? '|' + b.o.path : ''), where: p.loc(b ? b.node : t.fn), msg: b ? `transform '${t.key}' modifies ${b.o.path} (${b.how}) in ${p.qual(enclosing(b.node) || t.fn)}, which the next evaluation receives again` : '' });
  }
  rep.atLeast('no-hidden-source', 600); rep.atLeast('no-carried-state', 600); rep.atLeast('no-module-closure', 90); rep.atLeast('configuration-read-only', 30);
  rep.extra.zone_functions = zone.size; rep.extra.sources_found = sources;
  rep.assumptions.push('third-party functions are deterministic; user callbacks are outside the property');
};
