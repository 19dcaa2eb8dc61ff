'use strict';
const fs = require('fs');
const path = require('path');
const { ts, SK, isFn, unparen, REPO } = require('../lib/program');
const { shared, holder, enclosing } = require('../lib/shared');
const { registration } = require('./c16');
exports.rule = 'For every module of the packages published with "sideEffects": false, everything that runs when the module is loaded (module statements, initialisers of module variables, static fields and enum-like tables, class heritage, and all functions these call, transitively) is collected and its effects determined: no registration call, no store into or reordering of an object, class or prototype that belongs to another module or package, no timer, listener, observer or environment access, and no import made only for its effects. A module may initialise its own variables.';
exports.run = (p, rep) => {
  const R = registration(p);
  const S = shared(p);
  if (!S.A.converged) rep.error('points-to analysis did not converge');
  const free = new Set();
  for (const d of fs.readdirSync(REPO + '/packages')) { const f = REPO + '/packages/' + d + '/package.json'; if (fs.existsSync(f)) { const j = JSON.parse(fs.readFileSync(f, 'utf8')); if (j.sideEffects === false) free.add(d); } }
  const dirOf = sf => path.relative(REPO + '/packages', sf.fileName).split(path.sep)[0];
  const must = ['vgrammar-coordinate', 'vgrammar-core', 'vgrammar-hierarchy', 'vgrammar-plot', 'vgrammar-projection', 'vgrammar-sankey', 'vgrammar-util', 'vgrammar-venn', 'vgrammar-wordcloud', 'vgrammar-wordcloud-shape'];
  for (const d of must) rep.ob('published-as-pure', free.has(d), { key: d, where: 'packages/' + d + '/package.json', msg: `${d} is no longer published as free of side effects` });
  const declOf = id => { const s = p.symbolOf(id); return s ? s.valueDeclaration || (s.declarations || [])[0] || null : null; };
  const GLOBAL_CALL = /^(setTimeout|setInterval|setImmediate|requestAnimationFrame|requestIdleCallback|queueMicrotask|addEventListener|fetch|alert|XMLHttpRequest|WebSocket|Worker|ResizeObserver|MutationObserver|IntersectionObserver|EventSource)$/;
  const ENV = /^(window|document|navigator|location|localStorage|sessionStorage|globalThis|global|self|process)$/;
  // root of an access path: {own:bool, text}; own = variable of the loading module or something created during this evaluation
  const rootOf = e => { e = unparen(e); while (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e) || ts.isNonNullExpression(e)) e = unparen(e.expression); return e; };
  const effects = (start, sf, bad) => {
    const seen = new Set();
    // nodes evaluated when x runs, without entering functions that are only defined
    const walk = (x, topLevel) => {
      const v = n => {
        if (isFn(n)) { // default parameter values and bodies run only when called
          return;
        }
        if (ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isTypeNode(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return;
        if (ts.isClassLike(n)) { // heritage, static initialisers, decorators, computed names
          for (const h of n.heritageClauses || []) if (h.token === SK.ExtendsKeyword) for (const t of h.types) v(t.expression);
          for (const m of n.members) { if (ts.isClassStaticBlockDeclaration && ts.isClassStaticBlockDeclaration(m)) ts.forEachChild(m.body, v); else if (ts.isPropertyDeclaration(m) && m.initializer && (m.modifiers || []).some(q => q.kind === SK.StaticKeyword)) v(m.initializer); }
          return;
        }
        if (ts.isCallExpression(n) || ts.isNewExpression(n)) call(n);
        if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment) store(unparen(n.left), n);
        else if ((n.kind === SK.PrefixUnaryExpression || n.kind === SK.PostfixUnaryExpression) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken)) store(unparen(n.operand), n);
        else if (ts.isDeleteExpression(n)) store(unparen(n.expression), n);
        else if (ts.isIdentifier(n) && ENV.test(n.text) && !(n.parent && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) && n.parent.name !== n && !ts.isTypeOfExpression(n.parent)) { const d = declOf(n); if ((!d || !p.inRepo(d)) && topLevelOnly(n)) bad.push([n, `reads ${n.text}`]); }
        ts.forEachChild(n, v);
      };
      v(x);
    };
    const topLevelOnly = () => true;
    const foreign = d => d && (ts.isVariableDeclaration(d) || ts.isClassDeclaration(d) || ts.isFunctionDeclaration(d) || ts.isEnumDeclaration(d) || ts.isModuleDeclaration(d) || ts.isInterfaceDeclaration(d)) && (function () { let f = d.parent; while (f && !isFn(f) && !ts.isSourceFile(f)) f = f.parent; return f && ts.isSourceFile(f) && d.getSourceFile() !== sf; })();
    const store = (L, n) => {
      if (ts.isIdentifier(L)) { const d = declOf(L); if (foreign(d)) bad.push([n, `assigns the variable ${L.text} of another module`]); return; }
      if (!ts.isPropertyAccessExpression(L) && !ts.isElementAccessExpression(L)) return;
      const r = rootOf(L);
      if (ts.isIdentifier(r)) { const d = declOf(r); if (!d || foreign(d)) bad.push([n, `stores into ${L.getText().replace(/\s+/g, ' ').slice(0, 60)}, which belongs to another module`]); }
      else if (r.kind === SK.ThisKeyword) { const f = enclosing(n); const c = f && p.enclosingClass(f); if (c && ts.isMethodDeclaration(f) && (f.modifiers || []).some(q => q.kind === SK.StaticKeyword) && c.node.getSourceFile() !== sf) bad.push([n, `stores into ${c.name}, a class of another module`]); }
    };
    const MUT = /^(push|unshift|splice|sort|reverse|fill|pop|shift|set|add|delete|clear|addEventListener|on|once|addListener|observe|register\w*|use|useRegisters|useMarks|load|bind)$/;
    const call = n => {
      const c = unparen(n.expression);
      if (ts.isNewExpression(n) && ts.isIdentifier(c) && GLOBAL_CALL.test(c.text)) { const d = declOf(c); if (!d || !p.inRepo(d)) { bad.push([n, `creates a ${c.text}`]); return; } }
      const name = ts.isPropertyAccessExpression(c) ? c.name.text : ts.isIdentifier(c) ? c.text : '';
      if (!ts.isNewExpression(n) && GLOBAL_CALL.test(name)) { const d = ts.isIdentifier(c) ? declOf(c) : null; if (!d || !p.inRepo(d)) { bad.push([n, `calls ${name}`]); return; } }
      const targets = p.resolveCall(n).targets;
      if (targets.some(t => R.roots.has(t)) && !targets.some(t => t.getSourceFile() === sf)) bad.push([n, `calls ${p.qual(targets[0])}`]);
      const inMod = t => t.getSourceFile() === sf;
      if (!targets.length || !targets.some(t => p.inRepo(t))) {
        // methods of foreign objects and mutating library calls
        if (ts.isPropertyAccessExpression(c) && MUT.test(name)) { const r = rootOf(c.expression); if (ts.isIdentifier(r)) { const d = declOf(r); if (!d || foreign(d)) bad.push([n, `calls ${c.getText().replace(/\s+/g, ' ').slice(0, 50)} on an object of another module`]); } }
        if (/^(assign|merge|mixin|defineProperty|defineProperties|setPrototypeOf)$/.test(name) && n.arguments && n.arguments[0]) { const a = unparen(n.arguments[0]); const r = rootOf(a); if (ts.isIdentifier(r)) { const d = declOf(r); if (!d || foreign(d)) bad.push([n, `modifies ${a.getText().slice(0, 50)}, which belongs to another module`]); } else if (name === 'mixin') bad.push([n, 'patches a class']); }
      }
      if (name === 'mixin' && n.arguments && n.arguments[0] && targets.every(t => !inMod(t))) { const r = rootOf(n.arguments[0]); if (ts.isIdentifier(r)) bad.push([n, `patches the class ${r.text}`]); }
      for (const t of targets) if (t.body && p.inRepo(t)) enter(t);
      // callbacks handed to array methods run as well
      if (ts.isPropertyAccessExpression(c) && /^(forEach|map|filter|reduce|reduceRight|some|every|find|findIndex|sort|flatMap|then)$/.test(name)) for (const a of n.arguments || []) { const f = unparen(a); if (isFn(f)) enter(f); else if (ts.isIdentifier(f)) { const d = declOf(f), g = d && p.fnOfDecl(d); if (g) enter(g); } }
    };
    const enter = t => { if (seen.has(t)) return; seen.add(t); fns++; for (const q of t.parameters) if (q.initializer) walk(q.initializer); if (t.body) { if (ts.isBlock(t.body)) for (const s of t.body.statements) walk(s); else walk(t.body); } if (ts.isConstructorDeclaration(t)) { const c = p.enclosingClass(t); for (let k = c; k; k = k.base) for (const m of k.members.values()) if (m.kind === 'prop' && m.init) walk(m.init); } };
    walk(start, true);
  };
  let fns = 0, stmts = 0;
  for (const sf of p.files) {
    const d = dirOf(sf);
    if (!free.has(d)) continue;
    const rel = path.relative(REPO + '/packages', sf.fileName);
    const bad = [];
    for (const s of sf.statements) {
      if (ts.isImportDeclaration(s)) { if (!s.importClause) bad.push([s, `imports ${s.moduleSpecifier.getText()} only for its effects`]); continue; }
      if (ts.isFunctionDeclaration(s)) continue;
      stmts++;
      effects(s, sf, bad);
    }
    // the two documented exceptions: the all-in-one plot entry registers the plot marks, the animator selects VRender's animation mode
    for (let k = bad.length - 1; k >= 0; k--) if ((/vgrammar-plot\/src\/plot-all\.ts$/.test(rel) && /Factory\.(registerPlotMarks|_plotMarks)/.test(bad[k][1])) || (bad[k][1].includes('Animate.mode') && /vgrammar-core\/src\/graph\/animation\//.test(rel))) bad.splice(k, 1);
    if (!bad.length) rep.ob('load-is-pure', true, { key: rel });
    const keys = new Set();
    for (const [n, what] of bad) { const k = rel + '|' + what.replace(/\s+/g, '_'); if (keys.has(k)) continue; keys.add(k); rep.ob('load-is-pure', false, { key: k, where: p.loc(n), msg: `loading ${rel} ${what}` }); }
  }
  for (const m of S.initWrites) { if (!free.has(dirOf(m.node.getSourceFile()))) continue; const f = enclosing(m.node); if (f && R.writers.has(f)) continue; rep.ob('load-is-pure', false, { key: holder(p, m.o.node) + '|' + m.how, where: p.loc(m.node), msg: `loading this module modifies ${holder(p, m.o.node)}, which belongs to ${p.loc(m.o.node)}` }); }
  rep.atLeast('load-is-pure', 280);
  rep.extra.module_statements = stmts; rep.extra.functions_run_at_load = fns;
  rep.assumptions.push('third-party functions called at load (concat, Symbol.for, geoPath, Math) are pure');
};
