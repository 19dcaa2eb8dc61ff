'use strict';
// Whole-program loader: TypeScript program over every package of /repo, function index, class table,
// callee resolution (type-resolved, class-hierarchy analysis over interfaces) and call graph.
const fs = require('fs');
const path = require('path');
const TS_CANDIDATES = [
  '/opt/veriftools/node/node_modules/typescript'
];
function loadTs() {
  for (const c of TS_CANDIDATES) {
    try { return require(c); } catch (e) { /* next */ }
  }
  throw new Error('typescript compiler API not found');
}
const ts = loadTs();
const SK = ts.SyntaxKind;
const REPO = process.env.VG_REPO || '/repo';
const PKG = REPO + '/packages';

function walkDir(d, out) {
  for (const f of fs.readdirSync(d).sort()) {
    const p = d + '/' + f;
    const st = fs.lstatSync(p);
    if (st.isDirectory()) { if (f !== 'node_modules') walkDir(p, out); }
    else if (p.endsWith('.ts') && !p.endsWith('.d.ts')) out.push(p);
  }
  return out;
}

function isFn(n) {
  return ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n) ||
    ts.isConstructorDeclaration(n) || ts.isGetAccessorDeclaration(n) || ts.isSetAccessorDeclaration(n);
}
function unparen(e) {
  while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) ||
    (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e)))) e = e.expression;
  return e;
}
function propName(n) {
  if (!n) return null;
  if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n)) return n.text;
  if (ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
  if (ts.isComputedPropertyName(n)) {
    const e = unparen(n.expression);
    if (ts.isStringLiteral(e) || ts.isNumericLiteral(e)) return e.text;
    return null;
  }
  return null;
}

class Program {
  constructor() {
    const t0 = Date.now();
    this.ts = ts;
    this.packages = fs.readdirSync(PKG).filter(d => fs.existsSync(PKG + '/' + d + '/src/index.ts') && fs.existsSync(PKG + '/' + d + '/package.json'))
      .map(d => ({ dir: d, root: PKG + '/' + d, json: JSON.parse(fs.readFileSync(PKG + '/' + d + '/package.json', 'utf8')) }));
    const paths = {};
    const roots = [];
    for (const p of this.packages) { paths[p.json.name] = [p.root + '/src/index.ts']; walkDir(p.root + '/src', roots); }
    this.pkgByName = new Map(this.packages.map(p => [p.json.name, p]));
    this.program = ts.createProgram(roots, {
      target: ts.ScriptTarget.ES2016, module: ts.ModuleKind.ESNext, moduleResolution: 2, paths, baseUrl: '/',
      skipLibCheck: true, noEmit: true, strict: false, experimentalDecorators: true, esModuleInterop: true, resolveJsonModule: true,
      lib: ['lib.es2021.d.ts', 'lib.dom.d.ts'], types: [], ignoreDeprecations: '5.0'
    });
    this.checker = this.program.getTypeChecker();
    const rootSet = new Set(roots.map(r => path.normalize(r)));
    this.files = this.program.getSourceFiles().filter(sf => rootSet.has(path.normalize(sf.fileName)));
    this.byFile = new Map(this.files.map(f => [f.fileName, f]));
    this.nodeIds = new Map();
    this.buildIndex();
    this.loadMs = Date.now() - t0;
  }
  nid(node) {
    let i = this.nodeIds.get(node);
    if (i === undefined) { i = this.nodeIds.size; this.nodeIds.set(node, i); }
    return i;
  }
  rel(fileName) { return fileName.startsWith(REPO + '/') ? fileName.slice(REPO.length + 1) : fileName; }
  loc(node) {
    const sf = node.getSourceFile();
    const lc = sf.getLineAndCharacterOfPosition(node.getStart(sf));
    return this.rel(sf.fileName) + ':' + (lc.line + 1);
  }
  pkgOf(node) { const m = /packages\/([^/]+)\/src\//.exec(node.getSourceFile().fileName); return m ? m[1] : null; }
  file(relPath) { const f = this.byFile.get(REPO + '/' + relPath); return f || null; }
  core(relPath) { return this.file('packages/vgrammar-core/src/' + relPath); }

  buildIndex() {
    this.functions = [];
    this.classes = [];
    this.classBySymbol = new Map();
    this.fnInfo = new Map();
    const visit = (node, cls, fn) => {
      let c = cls, f = fn;
      if (ts.isClassDeclaration(node) || ts.isClassExpression(node)) { c = this.addClass(node); }
      if (isFn(node) && node.body) {
        const info = { node, cls: ts.isArrowFunction(node) || ts.isFunctionExpression(node) ? cls : c, parent: fn, name: this.fnName(node), calls: null };
        this.fnInfo.set(node, info);
        this.functions.push(info);
        f = info;
      }
      ts.forEachChild(node, ch => visit(ch, c, f));
    };
    for (const sf of this.files) visit(sf, null, null);
    // link bases
    for (const c of this.classes) {
      const h = (c.node.heritageClauses || []).find(x => x.token === SK.ExtendsKeyword);
      c.base = null;
      c.baseExpr = h ? h.types[0].expression : null;
      if (h) c.base = this.classOfExpr(h.types[0].expression);
      if (c.base) c.base.subs.push(c);
      const im = (c.node.heritageClauses || []).find(x => x.token === SK.ImplementsKeyword);
      c.impls = im ? im.types.map(t => this.checker.getTypeAtLocation(t).symbol).filter(Boolean) : [];
    }
    // method name index
    this.methodsByName = new Map();
    for (const c of this.classes) for (const [n, m] of c.members) {
      if (!m.fn) continue;
      if (!this.methodsByName.has(n)) this.methodsByName.set(n, []);
      this.methodsByName.get(n).push({ cls: c, fn: m.fn });
    }
  }
  fnName(node) {
    if (node.name) return propName(node.name) || 'computed';
    if (ts.isConstructorDeclaration(node)) return 'constructor';
    const p = node.parent;
    if (p && (ts.isVariableDeclaration(p) || ts.isPropertyAssignment(p) || ts.isPropertyDeclaration(p)) && p.initializer && unparen(p.initializer) === node) return propName(p.name) || 'anonymous';
    return 'anonymous';
  }
  addClass(node) {
    const sym = node.name ? this.checker.getSymbolAtLocation(node.name) : node.symbol;
    const c = { node, name: node.name ? node.name.text : 'anonymous', symbol: sym, members: new Map(), statics: new Map(), subs: [], base: null, ctor: null, mixins: [] };
    for (const m of node.members) {
      const isStatic = (m.modifiers || []).some(x => x.kind === SK.StaticKeyword);
      const name = propName(m.name);
      const tgt = isStatic ? c.statics : c.members;
      if (ts.isConstructorDeclaration(m)) { if (m.body) c.ctor = m; continue; }
      if (!name) continue;
      const vis = (m.modifiers || []).some(x => x.kind === SK.PrivateKeyword) ? 'private' : (m.modifiers || []).some(x => x.kind === SK.ProtectedKeyword) ? 'protected' : 'public';
      if (ts.isMethodDeclaration(m)) { if (m.body) tgt.set(name, { node: m, fn: m, kind: 'method', vis, cls: c, name }); else if (!tgt.has(name)) tgt.set(name, { node: m, fn: null, kind: 'abstract', vis, cls: c, name }); }
      else if (ts.isPropertyDeclaration(m)) {
        const init = m.initializer ? unparen(m.initializer) : null;
        const fn = init && isFn(init) ? init : null;
        const declared = (m.modifiers || []).some(x => x.kind === SK.DeclareKeyword);
        tgt.set(name, { node: m, fn, kind: fn ? 'propfn' : 'prop', init, vis, cls: c, name, declared });
      } else if (ts.isGetAccessorDeclaration(m)) { const e = tgt.get(name) || { node: m, fn: null, kind: 'accessor', vis, cls: c, name }; e.getter = m; tgt.set(name, e); }
      else if (ts.isSetAccessorDeclaration(m)) { const e = tgt.get(name) || { node: m, fn: null, kind: 'accessor', vis, cls: c, name }; e.setter = m; tgt.set(name, e); }
    }
    this.classes.push(c);
    if (sym) this.classBySymbol.set(sym, c);
    return c;
  }
  unalias(sym) {
    if (sym && (sym.flags & ts.SymbolFlags.Alias)) { try { return this.checker.getAliasedSymbol(sym); } catch (e) { return sym; } }
    return sym;
  }
  symbolOf(expr) {
    expr = unparen(expr);
    let s = this.checker.getSymbolAtLocation(expr);
    if (!s && ts.isPropertyAccessExpression(expr)) s = this.checker.getSymbolAtLocation(expr.name);
    return this.unalias(s);
  }
  classOfExpr(expr) {
    const s = this.symbolOf(expr);
    return s ? this.classBySymbol.get(s) || null : null;
  }
  class(name, pkgHint) {
    const l = this.classes.filter(c => c.name === name && (!pkgHint || this.pkgOf(c.node) === pkgHint));
    return l[0] || null;
  }
  isSubclass(c, base) { for (let x = c; x; x = x.base) if (x === base) return true; return false; }
  allSubs(c, out = []) { out.push(c); for (const s of c.subs) this.allSubs(s, out); return out; }
  // member lookup through the MRO (mixins come after own class but override inherited members, as mixin() copies onto the prototype)
  member(c, name) {
    for (let x = c; x; x = x.base) {
      const m = x.members.get(name);
      if (m && m.kind !== 'abstract' && !(m.kind === 'prop' && m.declared)) return m;
      for (const mx of this.mixinsOf(x)) { const mm = this.member(mx, name); if (mm) return mm; }
      if (m && m.kind === 'abstract') continue;
    }
    return null;
  }
  // mixin(Target, Source) calls anywhere in the program
  mixinsOf(c) {
    if (!this._mixins) {
      this._mixins = new Map();
      for (const sf of this.files) {
        const v = n => {
          if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'mixin' && n.arguments.length === 2) {
            const a = this.classOfExpr(n.arguments[0]), b = this.classOfExpr(n.arguments[1]);
            if (a && b) { if (!this._mixins.has(a)) this._mixins.set(a, []); this._mixins.get(a).push(b); (this._mixinSites = this._mixinSites || []).push({ node: n, target: a, source: b }); }
          }
          ts.forEachChild(n, v);
        };
        v(sf);
      }
    }
    return this._mixins.get(c) || [];
  }
  get mixinSites() { this.mixinsOf(null); return this._mixinSites || []; }
  mro(c) { const out = []; for (let x = c; x; x = x.base) { out.push(x); for (const m of this.mixinsOf(x)) out.push(m); } return out; }
  allMembers(c) { // name -> member, most derived first
    const out = new Map();
    for (const x of this.mro(c)) for (const [n, m] of x.members) {
      const prev = out.get(n);
      if (!prev || prev.kind === 'abstract' || (prev.kind === 'prop' && prev.declared)) out.set(n, m);
    }
    return out;
  }
  qual(fnNode) {
    const i = this.fnInfo.get(fnNode);
    if (!i) return '?';
    const chain = [];
    for (let x = i; x; x = x.parent) chain.unshift(x.name);
    return (i.cls ? i.cls.name + '.' : '') + chain.join('>');
  }
  // --- callee resolution -------------------------------------------------------------------------
  // returns { targets: [fnNode], external: bool, name }
  resolveCall(call, thisCls) {
    const key = call;
    if (!this._rc) this._rc = new Map();
    if (!thisCls && this._rc.has(key)) return this._rc.get(key);
    const r = this._resolveCall(call, thisCls);
    if (!thisCls) this._rc.set(key, r);
    return r;
  }
  _resolveCall(call, thisCls) {
    const callee = unparen(call.expression);
    const isNew = ts.isNewExpression(call);
    if (isNew) {
      const c = this.classOfExpr(callee);
      if (c) { let k = c; while (k && !k.ctor) k = k.base; return { targets: k ? [k.ctor] : [], cls: c, name: c.name, isNew: true, resolved: true }; }
      return { targets: [], name: callee.getText ? callee.getText() : '?', isNew: true, resolved: false };
    }
    if (callee.kind === SK.SuperKeyword) {
      const ci = this.enclosingClass(call);
      let k = ci ? ci.base : null;
      const cls = k;
      while (k && !k.ctor) k = k.base;
      return { targets: k ? [k.ctor] : [], name: 'super', cls, isSuper: true, resolved: true };
    }
    if (ts.isPropertyAccessExpression(callee)) {
      const name = callee.name.text;
      const recv = unparen(callee.expression);
      if (recv.kind === SK.SuperKeyword) {
        const ci = this.enclosingClass(call);
        const m = ci && ci.base ? this.member(ci.base, name) : null;
        return { targets: m && m.fn ? [m.fn] : [], name, isSuper: true, resolved: true, recvThis: true };
      }
      if (recv.kind === SK.ThisKeyword && thisCls) {
        const m = this.member(thisCls, name);
        if (m && m.fn) return { targets: [m.fn], name, resolved: true, recvThis: true };
      }
      // static / namespace / typed receivers
      const sym = this.unalias(this.checker.getSymbolAtLocation(callee.name));
      const targets = this.targetsOfSymbol(sym, name, recv);
      if (targets) return { targets, name, resolved: true };
      return { targets: [], name, resolved: false, external: !!sym };
    }
    if (ts.isElementAccessExpression(callee)) return { targets: [], name: '[]', resolved: false };
    const sym = this.symbolOf(callee);
    const t = this.targetsOfSymbol(sym, ts.isIdentifier(callee) ? callee.text : '?', null);
    if (t) return { targets: t, name: ts.isIdentifier(callee) ? callee.text : '?', resolved: true };
    if (isFn(callee)) return { targets: [callee], name: 'iife', resolved: true };
    return { targets: [], name: ts.isIdentifier(callee) ? callee.text : '?', resolved: false, external: !!sym };
  }
  enclosingClass(node) {
    for (let n = node.parent; n; n = n.parent) if (ts.isClassDeclaration(n) || ts.isClassExpression(n)) { const s = n.name ? this.checker.getSymbolAtLocation(n.name) : n.symbol; return this.classBySymbol.get(s) || null; }
    return null;
  }
  fnOfDecl(d) {
    if (!d) return null;
    if (isFn(d)) return d.body ? d : null;
    if ((ts.isVariableDeclaration(d) || ts.isPropertyDeclaration(d) || ts.isPropertyAssignment(d)) && d.initializer) {
      const i = unparen(d.initializer);
      if (isFn(i)) return i;
      if (ts.isIdentifier(i)) { const s = this.symbolOf(i); if (s && s.valueDeclaration && s.valueDeclaration !== d) return this.fnOfDecl(s.valueDeclaration); }
    }
    if (ts.isShorthandPropertyAssignment(d)) { const s = this.checker.getShorthandAssignmentValueSymbol(d); const u = this.unalias(s); return u ? this.fnOfDecl(u.valueDeclaration) : null; }
    return null;
  }
  inRepo(d) { return this.byFile.has(d.getSourceFile().fileName); }
  targetsOfSymbol(sym, name, recv) {
    if (!sym) return null;
    const decls = sym.declarations || [];
    if (!decls.length) return null;
    if (!decls.some(d => this.inRepo(d))) return null;
    const out = new Set();
    for (const d of decls) {
      const f = this.fnOfDecl(d);
      if (f) {
        out.add(f);
        // virtual dispatch: overriding definitions in subclasses
        const ci = ts.isMethodDeclaration(d) || ts.isPropertyDeclaration(d) ? this.enclosingClass(d) : null;
        const isStatic = (d.modifiers || []).some(x => x.kind === SK.StaticKeyword);
        if (ci && !isStatic && !(recv && recv.kind === SK.SuperKeyword)) for (const s of this.allSubs(ci)) { const m = s.members.get(name); if (m && m.fn) out.add(m.fn); }
        continue;
      }
      if (ts.isMethodSignature(d) || ts.isPropertySignature(d) || ts.isMethodDeclaration(d)) {
        for (const t of this.implementationsOf(d, name)) out.add(t);
      }
    }
    return out.size || decls.some(d => ts.isMethodSignature(d) || isFn(d)) ? [...out] : null;
  }
  // classes implementing the interface that declares signature d
  implementationsOf(d, name) {
    if (!this._impl) this._impl = new Map();
    if (this._impl.has(d)) return this._impl.get(d);
    const owner = d.parent;
    const res = [];
    let osym = owner && (ts.isInterfaceDeclaration(owner) || ts.isClassDeclaration(owner)) && owner.name ? this.checker.getSymbolAtLocation(owner.name) : null;
    const cands = this.methodsByName.get(name) || [];
    if (osym) {
      const all = this.interfaceClosure();
      for (const c of cands) if (this.classSatisfies(c.cls, osym, all)) res.push(c.fn);
    }
    if (!res.length) for (const c of cands) res.push(c.fn); // by-name fallback
    this._impl.set(d, res);
    return res;
  }
  interfaceClosure() {
    if (this._ifc) return this._ifc;
    // interface symbol -> set of base interface symbols (transitive)
    const m = new Map();
    const visitSym = s => {
      if (m.has(s)) return m.get(s);
      const set = new Set([s]);
      m.set(s, set);
      for (const d of s.declarations || []) {
        if (!(ts.isInterfaceDeclaration(d) || ts.isClassDeclaration(d))) continue;
        for (const h of d.heritageClauses || []) for (const t of h.types) {
          const bt = this.checker.getTypeAtLocation(t);
          const bs = bt && (bt.symbol || bt.aliasSymbol);
          if (bs) for (const x of visitSym(bs)) set.add(x);
          // Omit<...> etc.
          for (const a of (t.typeArguments || [])) { const at = this.checker.getTypeAtLocation(a); if (at && at.symbol) for (const x of visitSym(at.symbol)) set.add(x); }
        }
      }
      return set;
    };
    this._ifc = visitSym;
    return visitSym;
  }
  classSatisfies(c, osym, closure) {
    const check = x => { if (x.symbol === osym) return true; for (const i of x.impls) if (closure(i).has(osym)) return true; return false; };
    for (let x = c; x; x = x.base) if (check(x)) return true;
    // a subclass implementing the interface inherits c's method; a mixin target too
    const subs = this.allSubs(c);
    for (const s of subs) if (check(s)) return true;
    for (const st of this.mixinSites) if (st.source === c) { for (let x = st.target; x; x = x.base) if (check(x)) return true; for (const s of this.allSubs(st.target)) if (check(s)) return true; }
    return false;
  }
  // --- call graph: fnNode -> Set(fnNode); functions nested in f count as called by f (conservative) ------
  calleesOf(fn) {
    const info = this.fnInfo.get(fn);
    if (!info) return new Set();
    if (info.calls) return info.calls;
    const out = new Set();
    const visit = n => {
      if (n !== fn && isFn(n) && n.body) out.add(n);
      if (ts.isCallExpression(n) || ts.isNewExpression(n)) for (const t of this.resolveCall(n).targets) out.add(t);
      else if (ts.isPropertyAccessExpression(n)) {
        // getter / method value reference
        const s = this.unalias(this.checker.getSymbolAtLocation(n.name));
        if (s) for (const d of s.declarations || []) { if (!this.inRepo(d)) continue; if (ts.isGetAccessorDeclaration(d)) out.add(d); else if (!(ts.isCallExpression(n.parent) && n.parent.expression === n)) { const f = this.fnOfDecl(d); if (f) out.add(f); } }
      } else if (ts.isIdentifier(n) && !(n.parent && ts.isPropertyAccessExpression(n.parent) && n.parent.name === n) && !(n.parent && n.parent.name === n)) {
        const s = this.symbolOf(n);
        if (s && s.valueDeclaration && this.inRepo(s.valueDeclaration)) { const f = this.fnOfDecl(s.valueDeclaration); if (f && f !== fn) out.add(f); }
      }
      if (n !== fn && isFn(n) && n.body) return; // nested function bodies are visited as their own nodes
      ts.forEachChild(n, visit);
    };
    ts.forEachChild(fn, visit);
    info.calls = out;
    return out;
  }
  // functions that can reach a function satisfying pred (pred evaluated on the function's own body)
  reaching(pred) {
    const rev = new Map();
    for (const f of this.functions) for (const t of this.calleesOf(f.node)) { if (!rev.has(t)) rev.set(t, []); rev.get(t).push(f.node); }
    const seen = new Set();
    const work = [];
    for (const f of this.functions) if (pred(f.node)) { seen.add(f.node); work.push(f.node); }
    while (work.length) { const x = work.pop(); for (const y of rev.get(x) || []) if (!seen.has(y)) { seen.add(y); work.push(y); } }
    return seen;
  }
  reachableFrom(roots) {
    const seen = new Set(roots); const work = [...roots];
    while (work.length) { const x = work.pop(); for (const y of this.calleesOf(x)) if (!seen.has(y)) { seen.add(y); work.push(y); } }
    return seen;
  }
  // constant value of an expression, or undefined
  constOf(e, depth = 0) {
    e = unparen(e);
    if (!e || depth > 6) return undefined;
    if (ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e)) return e.text;
    if (ts.isNumericLiteral(e)) return Number(e.text);
    if (e.kind === SK.TrueKeyword) return true;
    if (e.kind === SK.FalseKeyword) return false;
    if (e.kind === SK.NullKeyword) return null;
    if (ts.isPropertyAccessExpression(e) || ts.isElementAccessExpression(e)) {
      const cv = this.checker.getConstantValue(e);
      if (cv !== undefined) return cv;
    }
    if (ts.isPropertyAccessExpression(e)) {
      const s = this.unalias(this.checker.getSymbolAtLocation(e.name));
      const d = s && s.valueDeclaration;
      if (d && ts.isEnumMember(d)) { const v = this.checker.getConstantValue(d); if (v !== undefined) return v; }
      if (d && ts.isPropertyDeclaration(d) && d.initializer && (d.modifiers || []).some(x => x.kind === SK.ReadonlyKeyword || x.kind === SK.StaticKeyword)) return this.constOf(d.initializer, depth + 1);
    }
    if (ts.isIdentifier(e)) {
      if (e.text === 'undefined') return undefined;
      const s = this.symbolOf(e);
      const d = s && s.valueDeclaration;
      if (d && ts.isVariableDeclaration(d) && d.initializer && (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) return this.constOf(d.initializer, depth + 1);
    }
    if (ts.isTemplateExpression(e)) {
      let r = e.head.text;
      for (const sp of e.templateSpans) { const v = this.constOf(sp.expression, depth + 1); if (v === undefined) return undefined; r += v + sp.literal.text; }
      return r;
    }
    return undefined;
  }
  forEachNode(root, cb) { const v = n => { if (cb(n) === false) return; ts.forEachChild(n, v); }; v(root); }
}
let cached = null;
function load() { if (!cached) cached = new Program(); return cached; }
module.exports = { load, ts, SK, isFn, unparen, propName, REPO };
