'use strict';
// Backward tracing of a value to the places it comes from: this.<path> of the enclosing class, a parameter of an entry point,
// a call, a literal.  Context-insensitive, through locals, parameters (to all call sites), destructuring, aliases, getters and
// array callbacks.  '*' stands for a computed member or an array element.
const { ts, SK, isFn, unparen, propName } = require('./program');
const ITER = /^(forEach|map|filter|some|every|find|findIndex|flatMap|reduce|reduceRight|sort)$/;
const PASS = /^(array|slice|filter|concat|reverse|sort|flat|cloneDeep|clone|Object\.values|Object\.assign|Array\.from|merge)$/;
class Origins {
  constructor(p) { this.p = p; this.memo = new Map(); this.ids = new Map(); }
  // classes of the same name get distinct ids
  id(c) { const same = this.p.classes.filter(x => x.name === c.name), k = c.name + (same.length > 1 && same.indexOf(c) ? '~' + same.indexOf(c) : ''); this.ids.set(k, c); return k; }
  callers(fn) {
    if (!this._callers) {
      this._callers = new Map();
      const add = (f, c) => (this._callers.get(f) || this._callers.set(f, []).get(f)).push(c);
      for (const sf of this.p.files) this.p.forEachNode(sf, n => { if (ts.isCallExpression(n) || ts.isNewExpression(n)) for (const t of (this.p.resolveCall(n) || {}).targets || []) add(t, n); });
    }
    return this._callers.get(fn) || [];
  }
  // Set of origins rendered as 'Class.this.path', 'fn(p).path', 'call:name.path', 'lit', '?'.  Breadth-first over (construct, path
  // suffix) pairs, so recursion through call sites costs each pair once.
  of(e) {
    const hit = this.memo.get(e); if (hit) return hit;
    const out = new Set(), seen = new Map(), todo = [];
    const push = (x, suf) => { if (!x) return; if ((suf.match(/\./g) || []).length > 8) { out.add('?'); return; } let s = seen.get(x); if (!s) seen.set(x, s = new Set()); if (s.has(suf)) return; s.add(suf); todo.push([x, suf]); };
    push(unparen(e), '');
    let n = 0;
    while (todo.length) { if (++n > 20000) { out.add('?'); break; } const [x, suf] = todo.pop(); const emit = o => out.add(o === 'lit' || o === '?' ? o : o + suf), rec = (y, s = '') => push(unparen(y), s + suf); if (ts.isBindingElement(x) || ts.isVariableDeclaration(x) || ts.isParameter(x) || ts.isPropertyAssignment(x)) this.declStep(x, emit, rec, (d, s) => push(d, s + suf)); else this.step(x, emit, rec, d => push(d, suf)); }
    this.memo.set(e, out); return out;
  }
  step(e, emit, rec, decl) {
    while (e && (ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e) || ts.isParenthesizedExpression(e) || ts.isAwaitExpression(e))) e = unparen(e.expression);
    if (e.kind === SK.ThisKeyword) { const c = this.p.enclosingClass(e); emit((c ? this.id(c) : '?') + '.this'); return; }
    if (ts.isPropertyAccessExpression(e)) return rec(e.expression, '.' + e.name.text);
    if (ts.isElementAccessExpression(e)) { const c = this.p.constOf(e.argumentExpression); return rec(e.expression, '.' + (typeof c === 'string' ? c : '*')); }
    if (ts.isConditionalExpression(e)) { rec(e.whenTrue); rec(e.whenFalse); return; }
    if (ts.isBinaryExpression(e)) { const o = e.operatorToken.kind; if (o === SK.BarBarToken || o === SK.QuestionQuestionToken) { rec(e.left); rec(e.right); } else if (o === SK.AmpersandAmpersandToken || o === SK.EqualsToken || o === SK.CommaToken) rec(e.right); else emit('lit'); return; }
    if (ts.isIdentifier(e)) { const s = this.p.symbolOf(e), d = s && s.valueDeclaration; if (!d) emit('?'); else decl(d); return; }
    if (ts.isObjectLiteralExpression(e)) { let any = false; for (const q of e.properties) if (ts.isSpreadAssignment(q)) { any = true; rec(q.expression); } if (!any) emit('lit'); return; }
    if (ts.isArrayLiteralExpression(e)) { if (!e.elements.length) emit('lit'); for (const q of e.elements) rec(ts.isSpreadElement(q) ? q.expression : q); return; }
    if (ts.isCallExpression(e)) {
      const callee = e.expression, name = callee.getText().replace(/^.*\./, m => /^(Object|Array)\.$/.test(m) ? m : '');
      if (name === 'getSpec' && ts.isPropertyAccessExpression(callee)) { const c = this.classOfType(callee.expression); rec(callee.expression, '.spec'); if (c) emit(c + '.this.spec'); return; }
      const t = (this.p.resolveCall(e) || {}).targets || [];
      if (PASS.test(name) || /^(Object|Array)\.(values|assign|from)$/.test(callee.getText())) { if (ts.isPropertyAccessExpression(callee) && !/^(Object|Array)$/.test(callee.expression.getText())) rec(callee.expression); for (const a of e.arguments) if (!isFn(a)) rec(a); return; }
      if (name === 'map' && ts.isPropertyAccessExpression(callee)) { const f = e.arguments[0]; if (f && isFn(f)) this.returns(f).forEach(r => rec(r)); return; }
      if (/^(parse|create)$/.test(name) || !t.length || t.length > 4) { emit('call:' + name); return; }
      for (const f of t) for (const r of this.returns(f)) rec(r);
      return;
    }
    emit('lit');
  }
  returns(fn) {
    if (!fn.body) return []; if (!ts.isBlock(fn.body)) return [fn.body];
    const r = []; const v = n => { if (n !== fn && isFn(n)) return; if (ts.isReturnStatement(n) && n.expression) r.push(n.expression); ts.forEachChild(n, v); }; v(fn.body); return r;
  }
  classOfType(e) { try { const t = this.p.checker.getTypeAtLocation(e); const n = t.symbol && t.symbol.name; if (!n) return null; for (const k of [n, n.replace(/^I(?=[A-Z])/, ''), n.replace(/Constructor$/, '')]) { const all = this.p.classes.filter(x => x.name === k), c = (t.symbol.valueDeclaration && all.find(x => x.node === t.symbol.valueDeclaration)) || (this.prefer && all.find(this.prefer)) || all[0]; if (c) return this.id(c); } } catch (x) {} return null; }
  declStep(d, emit, rec, decl) {
    if (ts.isBindingElement(d)) {
      let suf = '', n = d; while (ts.isBindingElement(n)) { if (!n.dotDotDotToken) suf = '.' + (ts.isArrayBindingPattern(n.parent) ? '*' : (n.propertyName || n.name).getText()) + suf; n = n.parent.parent; }
      decl(n, suf); return;
    }
    if (ts.isVariableDeclaration(d)) {
      const list = d.parent, st = list && list.parent;
      if (st && ts.isForOfStatement(st) && st.initializer === list) { rec(st.expression, '.*'); return; }
      if (st && ts.isForInStatement(st)) { emit('lit'); return; }
      if (d.initializer) rec(d.initializer);
      // later assignments
      if (ts.isIdentifier(d.name) && !(ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) { const sym = this.p.checker.getSymbolAtLocation(d.name); let scope = d; while (scope && !isFn(scope) && !ts.isSourceFile(scope)) scope = scope.parent; this.p.forEachNode(scope, n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === SK.EqualsToken && ts.isIdentifier(n.left) && this.p.checker.getSymbolAtLocation(n.left) === sym) rec(n.right); }); }
      return;
    }
    if (ts.isParameter(d)) {
      const fn = d.parent, i = fn.parameters.indexOf(d), par = fn.parent; let any = false;
      // callback of an array method
      if (par && ts.isCallExpression(par) && par.arguments.includes(fn) && ts.isPropertyAccessExpression(par.expression) && ITER.test(par.expression.name.text)) {
        const red = /^reduce/.test(par.expression.name.text); any = true;
        if (i === (red ? 1 : 0)) { const r = unparen(par.expression.expression); if (ts.isCallExpression(r) && /^Object\.keys$/.test(r.expression.getText())) emit('lit'); else rec(r, '.*'); }
        else if (red && i === 0) { if (par.arguments[1]) rec(par.arguments[1]); this.returns(fn).forEach(r => rec(r)); } else emit('lit');
        return;
      }
      for (const c of this.callers(fn)) { any = true; const a = c.arguments && c.arguments[i]; if (a && !ts.isSpreadElement(a)) rec(a); else if (d.initializer) rec(d.initializer); }
      if (!any) emit((this.p.fnName(fn)) + '(' + d.name.getText() + ')');
      return;
    }
    if (ts.isPropertyAssignment(d)) { rec(d.initializer); return; }
    emit('?');
  }
}
module.exports = { Origins };
