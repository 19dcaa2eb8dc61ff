'use strict';
// Flow-insensitive slice of a call tree over the fields of one options object, with one field (the type) fixed to a constant:
// branches on the constant are decided, tables indexed by it are looked up, everything else is walked on both sides.
// Values: {p:'S.x.y'} a path of the options object, {s:'text'} a constant, {n:node} a constant object/array/function expression.
const { ts, SK, isFn, unparen } = require('./program');
const strip = e => { e = unparen(e); while (e && (ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isParenthesizedExpression(e) || ts.isTypeAssertionExpression(e) || (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e)))) e = unparen(e.expression); return e; };
class Slice {
  // opts: typePath 'S.type', type: string, thisSpec: 'this.spec', leaf(call,name) → argument index or undefined, inline(fn)
  constructor(p, opts) { Object.assign(this, opts); this.p = p; this.hits = []; this.memo = new Set(); this.steps = 0; }
  sym(n) { const s = this.p.checker.getSymbolAtLocation(n); return s && n.parent && ts.isShorthandPropertyAssignment(n.parent) ? this.p.checker.getShorthandAssignmentValueSymbol(n.parent) : s; }
  field(v, k) { if (v.p !== undefined) { const q = v.p + '.' + k; return q === this.typePath ? { s: this.type } : { p: q }; }
    if (v.n && ts.isObjectLiteralExpression(v.n)) { for (const q of v.n.properties) { if (q.name && (ts.isIdentifier(q.name) || ts.isStringLiteralLike(q.name) || ts.isNumericLiteral(q.name)) && q.name.text === k) return ts.isPropertyAssignment(q) ? { n: strip(q.initializer) } : ts.isMethodDeclaration(q) ? { n: q } : ts.isShorthandPropertyAssignment(q) ? { n: q.name, sh: true } : null; } }
    return null; }
  vals(e, env, d = 0) {
    e = strip(e); if (!e || d > 25) return [];
    if (ts.isStringLiteralLike(e)) return [{ s: e.text }];
    if (ts.isPropertyAccessExpression(e)) {
      if (e.expression.kind === SK.ThisKeyword && 'this.' + e.name.text === this.thisSpec) return [{ p: 'S' }];
      return this.vals(e.expression, env, d + 1).map(v => this.field(v, e.name.text)).filter(Boolean).flatMap(v => this.norm(v, env, d));
    }
    if (ts.isElementAccessExpression(e)) {
      const ks = this.vals(e.argumentExpression, env, d + 1).filter(v => v.s !== undefined), bs = this.vals(e.expression, env, d + 1);
      return bs.flatMap(b => ks.map(k => this.field(b, k.s))).filter(Boolean).flatMap(v => this.norm(v, env, d));
    }
    if (ts.isIdentifier(e)) {
      const s = this.sym(e); if (s && env.has(s)) return env.get(s);
      let dcl = s && s.valueDeclaration; if (!dcl && s && s.flags & ts.SymbolFlags.Alias) { const a = this.p.checker.getAliasedSymbol(s); dcl = a && a.valueDeclaration; }
      if (!dcl) return [];
      if (ts.isVariableDeclaration(dcl) && dcl.initializer) return this.vals(dcl.initializer, env, d + 1);
      if (ts.isFunctionDeclaration(dcl)) return [{ n: dcl }];
      return [];
    }
    if (ts.isObjectLiteralExpression(e)) { const sp = e.properties.filter(ts.isSpreadAssignment).flatMap(q => this.vals(q.expression, env, d + 1)); return [{ n: e }, ...sp]; }
    if (ts.isArrayLiteralExpression(e) || isFn(e)) return [{ n: e }];
    if (ts.isConditionalExpression(e)) { const c = this.fold(e.condition, env); return [...(c === false ? [] : this.vals(e.whenTrue, env, d + 1)), ...(c === true ? [] : this.vals(e.whenFalse, env, d + 1))]; }
    if (ts.isBinaryExpression(e) && [SK.BarBarToken, SK.QuestionQuestionToken].includes(e.operatorToken.kind)) return [...this.vals(e.left, env, d + 1), ...this.vals(e.right, env, d + 1)];
    if (ts.isCallExpression(e)) { const t = e.expression.getText(); if (/^(array|cloneDeep|clone)$/.test(t)) return this.vals(e.arguments[0], env, d + 1); if (/^Object\.keys$/.test(t)) return this.vals(e.arguments[0], env, d + 1).some(v => v.p !== undefined) ? [{ keys: true }] : [];
      if (/^Object\.assign$/.test(t)) return e.arguments.flatMap(a => this.vals(a, env, d + 1));
      if (ts.isPropertyAccessExpression(e.expression) && /^(concat|filter)$/.test(e.expression.name.text)) return [{ n: e }]; }
    return [];
  }
  norm(v, env, d) { return v.n && !ts.isMethodDeclaration(v.n) && !(isFn(v.n)) && !v.done ? (v.sh ? this.shorthand(v.n, env, d) : this.vals(v.n, env, d + 1)) : [v]; }
  shorthand(n, env, d) { const s = this.p.checker.getShorthandAssignmentValueSymbol(n.parent); if (s && env.has(s)) return env.get(s); const a = s && (s.flags & ts.SymbolFlags.Alias ? this.p.checker.getAliasedSymbol(s) : s), dcl = a && a.valueDeclaration; return dcl && (ts.isFunctionDeclaration(dcl) ? [{ n: dcl }] : ts.isVariableDeclaration(dcl) && dcl.initializer ? this.vals(dcl.initializer, env, d + 1) : []) || []; }
  elems(vs, env, d = 0) { if (d > 8) return []; return vs.flatMap(v => { if (v.keys) return [{ s: '*', any: true }]; if (v.p !== undefined) return [{ p: v.p + '.*' }]; const n = v.n; if (!n) return [];
    if (ts.isCallExpression(n) && n.expression.name && n.expression.name.text === 'filter') { const b = this.elems(this.vals(n.expression.expression, env), env, d + 1), f = n.arguments[0]; if (b.some(x => x.any) && f && isFn(f) && f.parameters[0] && !ts.isBlock(f.body)) { const e2 = new Map(env); this.bind(f.parameters[0].name, b, e2); const e3 = this.narrow(f.body, e2), s = this.p.checker.getSymbolAtLocation(f.parameters[0].name); return e3.get(s) || b; } return b; }
    if (ts.isArrayLiteralExpression(n)) return n.elements.flatMap(x => ts.isSpreadElement(x) ? this.elems(this.vals(x.expression, env), env, d + 1) : this.vals(x, env));
    if (ts.isCallExpression(n)) return [...this.elems(this.vals(n.expression.expression, env), env, d + 1), ...n.arguments.flatMap(a => { const w = this.vals(a, env); return w.length && w.every(x => x.s !== undefined) ? w : this.elems(w, env, d + 1); })];
    return []; }); }
  fold(c, env) {
    c = strip(c);
    const known = v => v.length === 1 && v[0].s !== undefined && !v[0].any;
    if (ts.isPrefixUnaryExpression(c) && c.operator === SK.ExclamationToken) { const r = this.fold(c.operand, env); return r === undefined ? r : !r; }
    if (ts.isBinaryExpression(c)) {
      const o = c.operatorToken.kind;
      if (o === SK.AmpersandAmpersandToken) { const a = this.fold(c.left, env), b = this.fold(c.right, env); return a === false || b === false ? false : a === true && b === true ? true : undefined; }
      if (o === SK.BarBarToken) { const a = this.fold(c.left, env), b = this.fold(c.right, env); return a === true || b === true ? true : a === false && b === false ? false : undefined; }
      if ([SK.EqualsEqualsEqualsToken, SK.ExclamationEqualsEqualsToken, SK.EqualsEqualsToken, SK.ExclamationEqualsToken].includes(o)) { const a = this.vals(c.left, env), b = this.vals(c.right, env); if (known(a) && known(b)) { const eq = a[0].s === b[0].s; return o === SK.EqualsEqualsEqualsToken || o === SK.EqualsEqualsToken ? eq : !eq; } }
      return undefined;
    }
    if (ts.isCallExpression(c) && ts.isPropertyAccessExpression(c.expression) && c.expression.name.text === 'includes') { const el = this.elems(this.vals(c.expression.expression, env), env), a = this.vals(c.arguments[0], env); if (el.length && el.every(x => x.s !== undefined && !x.any) && known(a)) return el.some(x => x.s === a[0].s); return undefined; }
    const v = this.vals(c, env); if (known(v)) return v[0].s !== '';
    return undefined;
  }
  // a computed name is one of a constant list where the condition says so
  narrow(c, env, want = true) {
    c = strip(c);
    if (ts.isPrefixUnaryExpression(c) && c.operator === SK.ExclamationToken) return this.narrow(c.operand, env, !want);
    if (ts.isBinaryExpression(c) && c.operatorToken.kind === (want ? SK.AmpersandAmpersandToken : SK.BarBarToken)) return this.narrow(c.right, this.narrow(c.left, env, want), want);
    let list = null, k = null, pos = want;
    if (ts.isBinaryExpression(c) && /^(>=?|!==?)$/.test(c.operatorToken.getText()) && /^(-1|0)$/.test(c.right.getText())) c = strip(c.left);
    if (ts.isCallExpression(c) && ts.isPropertyAccessExpression(c.expression) && /^(includes|indexOf|has)$/.test(c.expression.name.text)) { list = c.expression.expression; k = c.arguments[0]; }
    if (!pos || !k || !ts.isIdentifier(strip(k))) return env;
    const s = this.sym(strip(k)), v = s && env.get(s); if (!v || !v.some(x => x.any)) return env;
    const el = this.elems(this.vals(list, env), env); if (!el.length || !el.every(x => x.s !== undefined)) return env;
    const e2 = new Map(env); e2.set(s, el); return e2;
  }
  // options that the condition depends on; null when it depends on something that is not the options object
  condPaths(c, env) { const out = new Set(); let other = false; const self = this; (function v(n) { n = strip(n); if (isFn(n)) return; if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n) || ts.isIdentifier(n)) { const w = self.vals(n, env); if (w.length && w.every(x => x.p !== undefined || x.s !== undefined)) { for (const x of w) if (x.p !== undefined) out.add(x.p); return; } if (ts.isIdentifier(n)) { const s = self.sym(n), d = s && s.valueDeclaration; if (d && !ts.isFunctionDeclaration(d) && !(s.flags & ts.SymbolFlags.Alias) && n.text !== 'undefined' && !env.has(s)) other = true; return; } v(n.expression); return; } if (ts.isCallExpression(n)) { for (const a of n.arguments) v(a); if (ts.isPropertyAccessExpression(n.expression)) v(n.expression.expression); return; } ts.forEachChild(n, v); })(c); return other ? null : out; }
  runMethod(cls, name, bind) { this.self = cls; const m = this.p.member(cls, name); if (!m || !m.fn) return false; const env = new Map(); const par = m.fn.parameters[0]; if (par && bind) this.bind(par.name, [bind], env); this.call(m.fn, env, [], m.cls || cls); return true; }
  bind(name, vs, env) { if (ts.isIdentifier(name)) { const s = this.p.checker.getSymbolAtLocation(name); if (s) env.set(s, vs); } else if (ts.isObjectBindingPattern(name)) for (const b of name.elements) { if (b.dotDotDotToken) this.bind(b.name, vs, env); else this.bind(b.name, vs.map(v => this.field(v, (b.propertyName || b.name).getText())).filter(Boolean), env); } }
  call(fn, env, conds, cls) {
    if (!fn.body) return;
    const key = fn.pos + fn.getSourceFile().fileName + '|' + [...env].map(([s, v]) => s.name + ':' + v.map(x => x.p || x.s || (x.n && x.n.pos)).join()).join(';') + '|' + conds.map(c => c ? [...c].join() : '?').join('&');
    if (this.memo.has(key) || (this.depth = this.depth || 0) > 14 || ++this.steps > 3000) return; this.memo.add(key); this.depth++;
    if (ts.isBlock(fn.body)) this.block(fn.body.statements, env, conds, cls); else this.expr(fn.body, env, conds, cls);
    this.depth--;
  }
  // returns true when the block surely leaves
  block(stmts, env, conds, cls) {
    conds = conds.slice();
    for (const s of stmts) { const r = this.stmt(s, env, conds, cls); if (r === true) return true; if (r) conds.push(r.cond); }
    return false;
  }
  stmt(s, env, conds, cls) {
    const E = (e, c = conds) => e && this.expr(e, env, c, cls);
    if (ts.isBlock(s)) return this.block(s.statements, env, conds, cls);
    if (ts.isReturnStatement(s)) { E(s.expression); return true; }
    if (ts.isThrowStatement(s)) { E(s.expression); return true; }
    if (ts.isBreakStatement(s) || ts.isContinueStatement(s)) return true;
    if (ts.isIfStatement(s)) {
      E(s.expression); const f = this.fold(s.expression, env);
      if (f === true) return this.stmt(s.thenStatement, env, conds, cls);
      if (f === false) return s.elseStatement ? this.stmt(s.elseStatement, env, conds, cls) : false;
      const c = this.condPaths(s.expression, env), inner = conds.concat([c]);
      const eF = this.narrow(s.expression, env, false); const a = this.stmt(s.thenStatement, this.narrow(s.expression, env), inner, cls), b = s.elseStatement ? this.stmt(s.elseStatement, eF, inner, cls) : false;
      if (a === true && eF !== env) for (const [k, v] of eF) env.set(k, v);
      if (a === true && b === true) return true;
      return a === true || b === true ? { cond: c } : false;
    }
    if (ts.isSwitchStatement(s)) {
      E(s.expression); const v = this.vals(s.expression, env), cl = s.caseBlock.clauses;
      if (v.length === 1 && v[0].s !== undefined && !v[0].any) {
        let i = cl.findIndex(c => ts.isCaseClause(c) && this.vals(c.expression, env).some(x => x.s === v[0].s)); if (i < 0) i = cl.findIndex(ts.isDefaultClause);
        if (i < 0) return false;
        for (; i < cl.length; i++) for (const st of cl[i].statements) { if (hasBreak(st)) { if (ts.isBreakStatement(st)) return false; if (ts.isBlock(st)) { for (const y of st.statements) { if (ts.isBreakStatement(y)) return false; if (this.stmt(y, env, conds, cls) === true) return true; } continue; } } const r = this.stmt(st, env, conds, cls); if (r === true) return true; }
        return false;
      }
      const c = this.condPaths(s.expression, env); for (const x of cl) this.block(x.statements, env, conds.concat([c]), cls); return false;
    }
    if (ts.isVariableStatement(s)) { for (const d of s.declarationList.declarations) if (d.initializer) { E(d.initializer); this.bind(d.name, this.vals(d.initializer, env), env); if (ts.isIdentifier(d.name) && !this.vals(d.initializer, env).length) env.delete(this.p.checker.getSymbolAtLocation(d.name)); } return false; }
    if (ts.isForOfStatement(s)) { E(s.expression); const d = ts.isVariableDeclarationList(s.initializer) && s.initializer.declarations[0]; for (const v of this.elems(this.vals(s.expression, env), env)) { const e2 = new Map(env); if (d) this.bind(d.name, [v], e2); this.stmt(s.statement, e2, conds, cls); } return false; }
    if (ts.isForInStatement(s) || ts.isForStatement(s) || ts.isWhileStatement(s) || ts.isDoStatement(s)) { ts.forEachChild(s, c => { if (c === s.statement) return; if (ts.isVariableDeclarationList(c)) for (const d of c.declarations) E(d.initializer); else if (ts.isExpression(c)) E(c); }); this.stmt(s.statement, env, conds, cls); return false; }
    if (ts.isTryStatement(s)) { const r = this.stmt(s.tryBlock, env, conds, cls); if (s.catchClause) this.stmt(s.catchClause.block, env, conds, cls); if (s.finallyBlock) this.stmt(s.finallyBlock, env, conds, cls); return r; }
    if (ts.isExpressionStatement(s)) { E(s.expression); return false; }
    return false;
  }
  expr(e, env, conds, cls) {
    e = strip(e); if (!e) return; const E = (x, c = conds) => this.expr(x, env, c, cls);
    if (isFn(e)) return;                                       // walked where it is called
    if (ts.isConditionalExpression(e)) { E(e.condition); const f = this.fold(e.condition, env), c = f === undefined ? conds.concat([this.condPaths(e.condition, env)]) : conds; if (f !== false) E(e.whenTrue, c); if (f !== true) E(e.whenFalse, c); return; }
    if (ts.isBinaryExpression(e) && [SK.AmpersandAmpersandToken, SK.BarBarToken].includes(e.operatorToken.kind)) { E(e.left); const f = this.fold(e.left, env), and = e.operatorToken.kind === SK.AmpersandAmpersandToken; if (f === !and) return; this.expr(e.right, this.narrow(e.left, env, and), f === undefined ? conds.concat([this.condPaths(e.left, env)]) : conds, cls); return; }
    if (ts.isBinaryExpression(e) && e.operatorToken.kind === SK.EqualsToken) { E(e.right); if (!ts.isIdentifier(e.left)) E(e.left); return; }
    if (ts.isCallExpression(e) || ts.isNewExpression(e)) return this.callExpr(e, env, conds, cls);
    ts.forEachChild(e, c => { if (ts.isExpression(c) || ts.isSpreadElement(c)) this.expr(c, env, conds, cls); else if (ts.isPropertyAssignment(c)) this.expr(c.initializer, env, conds, cls); else if (ts.isSpreadAssignment(c)) this.expr(c.expression, env, conds, cls); else if (ts.isTemplateSpan(c)) this.expr(c.expression, env, conds, cls); });
  }
  callExpr(e, env, conds, cls) {
    const callee = strip(e.expression), name = ts.isPropertyAccessExpression(callee) ? callee.name.text : callee.getText();
    const args = e.arguments || [];
    const leaf = this.leaf(e, name);
    if (leaf !== undefined) { if (args[leaf]) for (const v of this.vals(args[leaf], env)) if (v.p !== undefined) this.hits.push({ path: v.p, conds, node: e, name }); for (const a of args) this.expr(a, env, conds, cls); return; }
    if (ts.isPropertyAccessExpression(callee)) this.expr(callee.expression, env, conds, cls); else if (ts.isElementAccessExpression(callee)) this.expr(callee.argumentExpression, env, conds, cls);
    for (const a of args) this.expr(a, env, conds, cls);
    // callbacks of array methods
    if (ts.isPropertyAccessExpression(callee) && /^(forEach|map|filter|some|every|reduce|flatMap)$/.test(name)) {
      const f = args[0] && this.vals(args[0], env).find(v => v.n && isFn(v.n)); if (f) { const i = name === 'reduce' ? 1 : 0; const el = this.elems(this.vals(callee.expression, env), env); for (const v of el.length ? el : [null]) { const e2 = new Map(env); if (f.n.parameters[i] && v) this.bind(f.n.parameters[i].name, [v], e2); this.call(f.n, e2, conds, cls); } return; }
    }
    let targets = ((this.p.resolveCall(e) || {}).targets || []).slice();
    if (!targets.length) for (const v of this.vals(callee, env)) if (v.n && isFn(v.n)) targets.push(v.n);
    if (this.self && ts.isPropertyAccessExpression(callee) && callee.expression.kind === SK.ThisKeyword) { const m = this.p.member(this.self, name); if (m && m.fn) targets = [m.fn]; }
    if (targets.length > 4) return;
    for (const fn of targets) {
      if (!this.inline(fn)) continue;
      const e2 = new Map(); // closures keep what they capture
      if (!ts.isFunctionDeclaration(fn) && !ts.isMethodDeclaration(fn) || fn.parent !== fn.getSourceFile()) for (const [s, v] of env) e2.set(s, v);
      fn.parameters.forEach((q, i) => { const a = args[i]; if (q.dotDotDotToken || a && ts.isSpreadElement(a)) return; let v = a ? this.vals(a, env) : []; if (!a && q.initializer) v = this.vals(q.initializer, e2); this.bind(q.name, v, e2); });
      this.call(fn, e2, conds, cls);
    }
  }
}
function hasBreak(st) { return ts.isBreakStatement(st) || ts.isBlock(st) && st.statements.some(ts.isBreakStatement); }
module.exports = { Slice };
