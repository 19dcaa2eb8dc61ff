'use strict';
const fs = require('fs');
const path = require('path');
const { ts, SK, unparen, REPO } = require('../lib/program');
exports.rule = 'Every import, re-export, require and dynamic import of every published package is resolved: run-time imports name a declared dependency of the importing package or a file of its own source folder, imports of sibling packages go through the public entry point, and the graph of run-time package imports is acyclic with no layout package below core. No call or assignment anywhere evaluates a string as code (eval, Function, string timers, script injection) or injects raw HTML.';
exports.run = (p, rep) => {
  const pkgs = new Map();
  for (const d of fs.readdirSync(REPO + '/packages')) { const f = REPO + '/packages/' + d + '/package.json'; if (fs.existsSync(f)) { const j = JSON.parse(fs.readFileSync(f, 'utf8')); pkgs.set(d, { dir: d, name: j.name, deps: new Set([...Object.keys(j.dependencies || {}), ...Object.keys(j.peerDependencies || {}), ...Object.keys(j.optionalDependencies || {})]) }); } }
  const own = new Map([...pkgs.values()].map(x => [x.name, x]));
  const graph = new Map();
  const bare = s => s.startsWith('@') ? s.split('/').slice(0, 2).join('/') : s.split('/')[0];
  let imports = 0;
  for (const sf of p.files) {
    const dir = path.relative(REPO + '/packages', sf.fileName).split(path.sep)[0];
    const pk = pkgs.get(dir);
    if (!pk) continue;
    if (!graph.has(dir)) graph.set(dir, new Map());
    // an import is erased when it is type-only or when every name it brings in is used as a type only
    const isTypeOnly = n => {
      if (ts.isImportDeclaration(n)) {
        const c = n.importClause;
        if (!c) return false;
        if (c.isTypeOnly) return true;
        const names = [];
        if (c.name) names.push(c.name);
        if (c.namedBindings) { if (ts.isNamespaceImport(c.namedBindings)) names.push(c.namedBindings.name); else for (const e of c.namedBindings.elements) if (!e.isTypeOnly) names.push(e.name); }
        return names.length > 0 && names.every(x => { const s = p.unalias(p.checker.getSymbolAtLocation(x)); return s && s.declarations && s.declarations.length && !(s.flags & ts.SymbolFlags.Value); });
      }
      return n.isTypeOnly || (n.exportClause && ts.isNamedExports(n.exportClause) && n.exportClause.elements.length && n.exportClause.elements.every(e => e.isTypeOnly));
    };
    const check = (n, spec, typeOnly) => {
      imports++;
      if (spec.startsWith('.')) {
        const target = path.resolve(path.dirname(sf.fileName), spec);
        const inside = target === path.join(REPO, 'packages', dir, 'src') || target.startsWith(path.join(REPO, 'packages', dir, 'src') + path.sep);
        rep.ob('own-sources-only', inside, { key: dir + '|' + spec, where: p.loc(n), msg: `${dir} reaches outside its own sources: '${spec}'` });
        return;
      }
      const b = bare(spec);
      if (own.has(b)) rep.ob('public-entry-point', spec === b, { key: dir + '|' + spec, where: p.loc(n), msg: `${dir} imports '${spec}', an internal file of a sibling package` });
      if (typeOnly) return;
      rep.ob('declared-dependency', pk.deps.has(b) || b === pk.name, { key: dir + '|' + b, where: p.loc(n), msg: `${pk.name} imports '${b}' at run time without declaring it as a dependency` });
      if (own.has(b) && b !== pk.name) { const t = own.get(b).dir; if (!graph.get(dir).has(t)) graph.get(dir).set(t, n); }
      if (b === pk.name) rep.ob('public-entry-point', false, { key: dir + '|self', where: p.loc(n), msg: `${pk.name} imports itself through its own entry point` });
    };
    const visit = n => {
      if ((ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) && n.moduleSpecifier && ts.isStringLiteral(n.moduleSpecifier)) check(n, n.moduleSpecifier.text, isTypeOnly(n));
      else if (ts.isImportEqualsDeclaration(n) && ts.isExternalModuleReference(n.moduleReference)) check(n, n.moduleReference.expression.text, !!n.isTypeOnly);
      else if (ts.isCallExpression(n)) {
        const c = unparen(n.expression);
        if ((c.kind === SK.ImportKeyword || (ts.isIdentifier(c) && c.text === 'require' && !(p.symbolOf(c) && (p.symbolOf(c).declarations || []).some(d => p.inRepo(d))))) && n.arguments[0]) {
          const s = p.constOf(n.arguments[0]);
          if (typeof s === 'string') check(n, s, false); else rep.ob('no-string-code', false, { key: dir + '|dynamic import', where: p.loc(n), msg: 'module loaded under a computed name' });
        }
      }
      ts.forEachChild(n, visit);
    };
    ts.forEachChild(sf, visit);
    // ---- strings as code
    const ext = id => { const s = p.symbolOf(id); return !s || !(s.declarations || []).some(d => p.inRepo(d)); };
    const globalName = e => { e = unparen(e); if (ts.isIdentifier(e)) return ext(e) ? e.text : null; if (ts.isPropertyAccessExpression(e) && ts.isIdentifier(unparen(e.expression)) && /^(window|globalThis|self|global)$/.test(unparen(e.expression).text)) return e.name.text; if (ts.isElementAccessExpression(e) && ts.isIdentifier(unparen(e.expression)) && /^(window|globalThis|self|global)$/.test(unparen(e.expression).text)) { const k = p.constOf(e.argumentExpression); return typeof k === 'string' ? k : null; } return null; };
    let bad = null;
    // the Function constructor reached through a value: a callee of type FunctionConstructor, or the constructor of a function
    const fnCtor = e => {
      e = unparen(e);
      const t = p.checker.getTypeAtLocation(e);
      if (t.symbol && t.symbol.name === 'FunctionConstructor') return true;
      if (ts.isPropertyAccessExpression(e) && e.name.text === 'constructor') { const o = p.checker.getTypeAtLocation(e.expression); return o.getCallSignatures().length > 0 && o.getConstructSignatures().length === 0; }
      if (ts.isIdentifier(e)) { const s = p.symbolOf(e), d = s && s.valueDeclaration; return !!(d && ts.isVariableDeclaration(d) && d.initializer && (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) && (fnCtor(d.initializer) || /^(eval|Function)$/.test(globalName(d.initializer) || ''))); }
      return false;
    };
    const code = n => {
      if (bad) return;
      if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
        const c = unparen(n.expression), g = globalName(c), a = n.arguments || [];
        if (g === 'eval' || g === 'Function' || g === 'execScript') bad = [n, g + '()'];
        else if (fnCtor(c)) bad = [n, 'the Function constructor'];
        else if (ts.isElementAccessExpression(c) && /^(window|globalThis|self|global)$/.test(unparen(c.expression).getText()) && p.constOf(c.argumentExpression) === undefined) bad = [n, 'a global function under a computed name'];
        else if ((g === 'setTimeout' || g === 'setInterval' || g === 'setImmediate') && a[0]) { const t = p.checker.getTypeAtLocation(a[0]); if (t.flags & ts.TypeFlags.StringLike) bad = [n, g + ' with a string']; }
        else if (ts.isPropertyAccessExpression(c)) {
          const nm = c.name.text;
          if (nm === 'constructor' && ts.isPropertyAccessExpression(unparen(c.expression)) && unparen(c.expression).name.text === 'constructor') bad = [n, 'constructor.constructor()'];
          else if (nm === 'insertAdjacentHTML' || nm === 'createContextualFragment' || nm === 'parseFromString') bad = [n, nm + '()'];
          else if ((nm === 'write' || nm === 'writeln') && /document$/.test(unparen(c.expression).getText())) bad = [n, 'document.' + nm + '()'];
          else if (nm === 'createElement' && a[0] && /^script$/i.test(String(p.constOf(a[0])))) bad = [n, 'a script element'];
          else if ((nm === 'call' || nm === 'apply' || nm === 'bind') && /^(eval|Function)$/.test(globalName(c.expression) || '')) bad = [n, globalName(c.expression) + '.' + nm + '()'];
          else if (nm === 'setAttribute' && a[0] && /^(srcdoc|on[a-z]+)$/i.test(String(p.constOf(a[0])))) bad = [n, 'setAttribute(' + p.constOf(a[0]) + ')'];
        }
      } else if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment) {
        const l = unparen(n.left);
        const nm = ts.isPropertyAccessExpression(l) ? l.name.text : ts.isElementAccessExpression(l) ? p.constOf(l.argumentExpression) : null;
        if (nm === 'innerHTML' || nm === 'outerHTML' || nm === 'srcdoc') bad = [n, nm];
      } else if (ts.isIdentifier(n) && (n.text === 'eval' || n.text === 'Function') && ext(n) && !ts.isTypeReferenceNode(n.parent) && !(ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) && !(ts.isPropertyAssignment(n.parent) && n.parent.name === n) && !(ts.isBinaryExpression(n.parent) && n.parent.operatorToken.kind === SK.InstanceOfKeyword) && !ts.isTypeNode(n.parent) && !(n.parent.name === n) && !ts.isExpressionWithTypeArguments(n.parent)) bad = [n, n.text];
      ts.forEachChild(n, code);
    };
    ts.forEachChild(sf, code);
    rep.ob('no-string-code', !bad, { key: path.relative(REPO + '/packages', sf.fileName) + (bad ? '|' + bad[1] : ''), where: bad ? p.loc(bad[0]) : path.relative(REPO, sf.fileName), msg: bad ? `uses ${bad[1]}` : '' });
  }
  // ---- acyclic, and layered
  const BUNDLE = new Set(['vgrammar', 'vgrammar-full']);
  for (const [a, ts_] of graph) {
    for (const [b, n] of ts_) {
      const seen = new Set([b]), work = [b]; let cyc = false;
      while (work.length) { const x = work.pop(); if (x === a) cyc = true; for (const y of (graph.get(x) || new Map()).keys()) if (!seen.has(y)) { seen.add(y); work.push(y); } }
      rep.ob('acyclic', !cyc, { key: a + '>' + b, where: p.loc(n), msg: `packages ${a} and ${b} depend on each other` });
      rep.ob('layered', !BUNDLE.has(b) && !(/vgrammar-(core|util|coordinate)$/.test(a) && !/vgrammar-(util|coordinate)$/.test(b)), { key: a + '>' + b, where: p.loc(n), msg: `${a} builds on ${b}, which lies above it` });
    }
  }
  rep.atLeast('declared-dependency', 250); rep.atLeast('own-sources-only', 1000); rep.atLeast('no-string-code', 280); rep.atLeast('layered', 15);
  rep.extra.imports = imports;
};
