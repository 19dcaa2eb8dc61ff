'use strict';
// Property-directed, interprocedural, context-sensitive abstract interpreter (typestate dataflow) over the typed syntax tree.
// Values are canonical access paths / value numbers; states carry an environment, a store with strong updates, branch facts and an
// event trace; states with equal traces are joined (property simulation).  No code of the analysed repository is executed and no
// solver is involved.
const { ts, SK, isFn, unparen, propName } = require('./program');

let uid = 0;
// keys are interned: a key longer than 240 characters is replaced by a short unique token (the long form stays available as .long)
const internT = new Map();
const mk = o => {
  if (o.key.length > 240) { let t = internT.get(o.key); if (t === undefined) { t = '~' + internT.size; internT.set(o.key, t); } o.long = o.key; o.key = t; }
  return o;
};
const hashT = new Map();
function hs(str) {
  let h = hashT.get(str);
  if (h === undefined) {
    let a = 0x811c9dc5, b = 0x9747b28c;
    for (let i = 0; i < str.length; i++) { const c = str.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193); b = Math.imul(b ^ c, 0x5bd1e995); b ^= b >>> 15; }
    h = (a >>> 0) * 0x40000 + ((b >>> 0) & 0x3ffff);
    hashT.set(str, h);
  }
  return h;
}
const M53 = 2 ** 51;
// map with an order-independent running hash of its entries
class HMap extends Map {
  constructor(src) { super(); this.h = 0; if (src) { for (const [k, v] of src) super.set(k, v); this.h = src.h; } }
  eh(k, v) { const vk = Array.isArray(v) ? 'A' + v.map(x => x.key).join(';') : typeof v === 'object' ? v.key : String(v); return hs(k + '=' + vk); }
  set(k, v) { const o = super.get(k); if (o !== undefined) this.h -= this.eh(k, o); super.set(k, v); this.h = (this.h + this.eh(k, v)) % M53; if (this.h < 0) this.h += M53; return this; }
  delete(k) { const o = super.get(k); if (o !== undefined) { this.h -= this.eh(k, o); if (this.h < 0) this.h += M53; } return super.delete(k); }
}
const V = {
  lit: v => mk({ k: 'lit', v, key: 'L:' + (v === null ? 'null' : typeof v) + ':' + String(v) }),
  root: (name, cls) => mk({ k: 'root', key: name, cls: cls || null }),
  path: (base, prop) => mk({ k: 'path', base, prop, key: base.key + '.' + prop }),
  obj: (id, cls) => mk({ k: 'obj', key: '#' + id, cls: cls || null, fresh: true }),
  arr: id => mk({ k: 'arr', key: '#' + id, fresh: true }),
  app: (name, args, extra) => mk(Object.assign({ k: 'app', name, args, key: name + '(' + args.map(a => a.key).join(',') + ')' }, extra || {})),
  fn: (node, ctx, thisVal, key) => mk({ k: 'fn', node, ctx, thisVal, key }),
  cls: c => mk({ k: 'cls', cls: c, key: 'cls:' + c.name + '@' + c.node.pos }),
  alt: vals => {
    const m = new Map();
    for (const v of vals) { if (v.k === 'alt') for (const x of v.vals) m.set(x.key, x); else m.set(v.key, v); }
    const l = [...m.values()].sort((a, b) => a.key < b.key ? -1 : 1);
    if (l.length === 1) return l[0];
    return mk({ k: 'alt', vals: l, key: 'alt{' + l.map(x => x.key).join('|') + '}' });
  },
  ite: (c, a, b) => a.key === b.key ? a : mk({ k: 'ite', c, a, b, key: 'ite{' + c.key + '?' + a.key + ':' + b.key + '}' })
};
const UNDEF = V.lit(undefined), NULL = V.lit(null), TRUE = V.lit(true), FALSE = V.lit(false);
const alts = v => v.k === 'alt' ? v.vals.flatMap(alts) : v.k === 'ite' ? [...alts(v.a), ...alts(v.b)] : [v];

class State {
  constructor() { this.vars = new HMap(); this.heap = new HMap(); this.facts = new Map(); this.events = null; this.tags = null; }
  clone() { const s = new State(); s.vars = new HMap(this.vars); s.heap = new HMap(this.heap); s.facts = new Map(this.facts); s.events = this.events; s.tags = this.tags; return s; }
  push(ev) { this.events = { prev: this.events, ev, n: (this.events ? this.events.n : 0) + 1, key: hs((this.events ? this.events.key : '') + '\n' + ev.key).toString(36) }; }
  list() { const r = []; for (let e = this.events; e; e = e.prev) r.unshift(e.ev); return r; }
  evKey() { return this.events ? this.events.key : ''; }
}
const NIL_FNS = new Set(['isNil']);
const VALID_FNS = new Set(['isValid']);
const TYPE_FNS = new Set(['isArray', 'isString', 'isFunction', 'isObject', 'isNumber', 'isPlainObject', 'isBoolean', 'isDate']);
const ITER_FNS = new Set(['forEach', 'map', 'filter', 'some', 'every', 'find', 'findIndex', 'reduce', 'flatMap', 'sort', 'reduceRight']);
const PURE_LIB = /^(isNil|isValid|isArray|isString|isFunction|isObject|isNumber|isPlainObject|isBoolean|array|toNumber|isEqual|isEmpty|get|keys|has|includes|indexOf|startsWith|toString|toLowerCase|toUpperCase|split|trim|hasOwnProperty|min|max|abs|floor|ceil|round|isNaN|isFinite|isValidNumber|slice|join)$/;

class Interp {
  constructor(prog, opts = {}) {
    this.p = prog;
    this.opts = Object.assign({ maxDepth: 14, maxStates: 48, maxTargets: 8, smallNodes: 160, loops: 'zeroOrOne', stepLimit: 400000 }, opts);
    this.relevant = opts.relevantSet || (opts.isRelevant ? prog.reaching(opts.isRelevant) : new Set());
    this.pureCache = new Map();
    this.steps = 0; this.inlined = new Set(); this.opaque = new Map(); this.capped = 0;
  }
  // ---------------------------------------------------------------- entry points
  newState() { return new State(); }
  frame() { return 'f' + (++uid); }
  rootCtx(fnNode, thisVal, cls, parent) { return { fnNode, frame: this.frame(), parent: parent || null, thisVal, cls, depth: 0, stack: [fnNode], argc: null }; }
  // run fnNode as an entry; params are symbolic roots named p:<name>
  runEntry(fnNode, { thisVal, cls, state, args } = {}) {
    uid = 0;
    this.steps = 0;
    const st = state || new State();
    const ctx = this.rootCtx(fnNode, thisVal || null, cls || null);
    this.bindParams(fnNode, args || fnNode.parameters.map(p => p.dotDotDotToken ? V.root('p:' + p.name.getText()) : V.root('p:' + (ts.isIdentifier(p.name) ? p.name.text : 'arg' + this.p.nid(p)))), st, ctx, !args);
    return this.execBody(fnNode, [st], ctx);
  }
  runMethod(cls, name, o = {}) {
    const m = this.p.member(cls, name);
    if (!m || !m.fn) return null;
    return this.runEntry(m.fn, Object.assign({ thisVal: V.root('this', cls), cls }, o));
  }
  execBody(fnNode, states, ctx) { // -> [{st, v}]
    const res = [];
    if (!ts.isBlock(fnNode.body)) {
      for (const st of states) for (const r of this.ev(fnNode.body, st, ctx)) res.push({ st: r.st, v: r.v });
      return res;
    }
    let out = { normal: states, ret: [], brk: [], cont: [], thr: [] };
    out = this.execBlock(fnNode.body.statements, states, ctx);
    for (const s of out.normal) res.push({ st: s, v: UNDEF, implicit: true });
    for (const r of out.ret) res.push(r);
    this.thrown = (this.thrown || 0) + out.thr.length;
    return res;
  }
  // ---------------------------------------------------------------- merging
  keyOf(st, full) {
    let k = st.evKey();
    if (full) k += '|' + st.heap.h + '|' + st.vars.h;
    if (this.opts.joinKey) k += '\u0005' + this.opts.joinKey(st);
    return k + (st.tags ? '\u0003' + st.tags : '');
  }
  mergeFacts(a, b) { for (const [k, v] of a.facts) if (b.facts.get(k) !== v) a.facts.delete(k); }
  joinInto(a, b) {
    this.mergeFacts(a, b);
    for (const [k, v] of a.vars) { const w = b.vars.get(k); if (w === undefined) continue; if (v.key !== w.key) a.vars.set(k, this.altCap(v, w)); }
    for (const [k, w] of b.vars) if (!a.vars.has(k)) a.vars.set(k, w);
    const keys = new Set([...a.heap.keys(), ...b.heap.keys()]);
    for (const k of keys) {
      const v = a.heap.get(k), w = b.heap.get(k);
      if (Array.isArray(v) || Array.isArray(w)) { if (v && w) { const m = new Map(); for (const x of [...v, ...w]) m.set(x.key, x); a.heap.set(k, [...m.values()]); } else a.heap.set(k, v || w); continue; }
      if (v && w) { if (v.key !== w.key) a.heap.set(k, this.altCap(v, w)); }
      else { // one side unwritten: initial value of that location
        const have = v || w;
        const init = this.initialOf(k);
        a.heap.set(k, init ? this.altCap(have, init) : have);
      }
    }
  }
  initialOf(key) { return this._locs && this._locs.get(key) || null; }
  altCap(v, w) { const r = V.alt([v, w]); if (r.k === 'alt' && r.vals.length > 6) return V.root('?join' + r.key.length); return r; }
  compact(list, getSt = x => x, getV = null, force = false) {
    if (list.length < 2) return list;
    const m = new Map();
    for (const x of list) {
      const st = getSt(x);
      const k = this.keyOf(st, true) + (getV ? '\u0004' + getV(x) : '');
      const o = m.get(k);
      if (o) this.mergeFacts(getSt(o), st); else m.set(k, x);
    }
    let res = [...m.values()];
    if (res.length > this.opts.maxStates || force) {
      this.capped++;
      const g = new Map();
      for (const x of res) {
        const st = getSt(x);
        const k = this.keyOf(st, false) + (getV ? '\u0004' + getV(x) : '');
        const o = g.get(k);
        if (o) this.joinInto(getSt(o), st); else g.set(k, x);
      }
      res = [...g.values()];
    }
    return res;
  }
  // ---------------------------------------------------------------- statements
  execBlock(stmts, states, ctx) {
    const out = { normal: states, ret: [], brk: [], cont: [], thr: [] };
    // hoist function declarations
    for (const s of stmts) if (ts.isFunctionDeclaration(s) && s.body) for (const st of states) this.setVar(s, V.fn(s, ctx, null, 'fn@' + this.p.nid(s) + '@' + ctx.frame), st, ctx);
    for (const s of stmts) {
      if (!out.normal.length) break;
      const next = [];
      for (const st of out.normal) {
        const o = this.exec(s, st, ctx);
        next.push(...o.normal); out.ret.push(...o.ret); out.brk.push(...o.brk); out.cont.push(...o.cont); out.thr.push(...o.thr);
      }
      out.normal = this.compact(next);
      if (out.ret.length > this.opts.maxStates) out.ret = this.compact(out.ret, x => x.st, x => x.v.key);
    }
    out.ret = this.compact(out.ret, x => x.st, x => x.v.key);
    return out;
  }
  none() { return { normal: [], ret: [], brk: [], cont: [], thr: [] }; }
  exec(s, st, ctx) {
    const o = this.none();
    if (++this.steps > this.opts.stepLimit) { this.overflow = true; o.thr.push(st); return o; }
    if (ts.isBlock(s)) return this.execBlock(s.statements, [st], ctx);
    if (ts.isExpressionStatement(s)) { for (const r of this.ev(s.expression, st, ctx, true)) o.normal.push(r.st); o.normal = this.compact(o.normal); return o; }
    if (ts.isVariableStatement(s)) { o.normal = this.execVarDecls(s.declarationList, [st], ctx); return o; }
    if (ts.isIfStatement(s)) {
      const c = this.cond(s.expression, st, ctx);
      const t = this.execMany(s.thenStatement, c.t, ctx);
      const f = s.elseStatement ? this.execMany(s.elseStatement, c.f, ctx) : { normal: c.f, ret: [], brk: [], cont: [], thr: [] };
      return { normal: this.compact([...t.normal, ...f.normal]), ret: [...t.ret, ...f.ret], brk: [...t.brk, ...f.brk], cont: [...t.cont, ...f.cont], thr: [...t.thr, ...f.thr] };
    }
    if (ts.isReturnStatement(s)) {
      if (!s.expression) { o.ret.push({ st, v: UNDEF, node: s }); return o; }
      for (const r of this.ev(s.expression, st, ctx)) o.ret.push({ st: r.st, v: r.v, node: s });
      o.ret = this.compact(o.ret, x => x.st, x => x.v.key);
      return o;
    }
    if (ts.isThrowStatement(s)) { for (const r of this.ev(s.expression, st, ctx)) o.thr.push(r.st); return o; }
    if (ts.isBreakStatement(s)) { o.brk.push(st); return o; }
    if (ts.isContinueStatement(s)) { o.cont.push(st); return o; }
    if (ts.isForOfStatement(s) || ts.isForInStatement(s)) {
      const normal = [];
      for (const r of this.ev(s.expression, st, ctx)) {
        const coll = r.v;
        const bind = (state, val) => {
          if (ts.isVariableDeclarationList(s.initializer)) this.bindPattern(s.initializer.declarations[0].name, val, state, ctx);
          else for (const q of this.assignTo(s.initializer, val, state, ctx)) { /* same state */ }
        };
        const res = this.iterate(coll, r.st, (state, el) => { bind(state, ts.isForInStatement(s) ? V.app('keyof', [coll]) : el); const b = this.exec(s.statement, state, ctx); o.ret.push(...b.ret); o.thr.push(...b.thr); return { go: [...b.normal, ...b.cont], stop: b.brk }; });
        normal.push(...res);
      }
      o.normal = this.compact(normal);
      return o;
    }
    if (ts.isForStatement(s) || ts.isWhileStatement(s) || ts.isDoStatement(s)) {
      let states = [st];
      if (ts.isForStatement(s) && s.initializer) {
        if (ts.isVariableDeclarationList(s.initializer)) states = this.execVarDecls(s.initializer, states, ctx);
        else states = states.flatMap(x => this.ev(s.initializer, x, ctx).map(r => r.st));
      }
      const condE = ts.isForStatement(s) ? s.condition : s.expression;
      const incr = ts.isForStatement(s) ? s.incrementor : null;
      const normal = [];
      for (const x of states) {
        this.havocLoopVars(s, x, ctx);
        if (ts.isDoStatement(s)) {
          const b = this.exec(s.statement, x, ctx);
          o.ret.push(...b.ret); o.thr.push(...b.thr); normal.push(...b.brk);
          for (const y of [...b.normal, ...b.cont]) { const c = this.cond(condE, y, ctx); if (!this.opts.recheckLoops) normal.push(...c.t); normal.push(...c.f); }
          continue;
        }
        let t, f;
        if (condE) { const c = this.cond(condE, x, ctx); t = c.t; f = c.f; } else { t = [x]; f = []; }
        if (this.opts.loops === 'atLeastOnce' && t.length) f = [];
        normal.push(...f);
        for (const y of t) {
          const b = this.exec(s.statement, y, ctx);
          o.ret.push(...b.ret); o.thr.push(...b.thr); normal.push(...b.brk);
          const after = []; for (const z of [...b.normal, ...b.cont]) { if (incr) for (const r of this.ev(incr, z, ctx)) after.push(r.st); else after.push(z); }
          if (this.opts.recheckLoops && condE) { for (const z of after) { const keep = z.clone(); const f2 = this.cond(condE, z, ctx).f; if (f2.length) normal.push(...f2); else if (condE.kind !== ts.SyntaxKind.TrueKeyword) normal.push(keep); } } // only a false condition leaves the loop
          else if (this.opts.recheckLoops) { /* left by break only */ }
          else normal.push(...after);
        }
      }
      o.normal = this.compact(normal);
      return o;
    }
    if (ts.isSwitchStatement(s)) {
      for (const r of this.ev(s.expression, st, ctx)) {
        let remaining = [r.st];
        let entered = [];
        const clauses = s.caseBlock.clauses;
        let defIdx = -1;
        const entryAt = clauses.map(() => []);
        clauses.forEach((c, i) => {
          if (ts.isDefaultClause(c)) { defIdx = i; return; }
          const nr = [];
          for (const x of remaining) for (const q of this.ev(c.expression, x, ctx)) { const sp = this.splitEq(r.v, q.v, q.st); entryAt[i].push(...sp.t); nr.push(...sp.f); }
          remaining = nr;
        });
        if (defIdx >= 0) entryAt[defIdx].push(...remaining); else o.normal.push(...remaining);
        entered = [];
        clauses.forEach((c, i) => {
          let cur = this.compact([...entered, ...entryAt[i]]);
          const b = this.execBlock(c.statements, cur, ctx);
          o.ret.push(...b.ret); o.thr.push(...b.thr); o.cont.push(...b.cont); o.normal.push(...b.brk);
          entered = b.normal;
        });
        o.normal.push(...entered);
      }
      o.normal = this.compact(o.normal);
      return o;
    }
    if (ts.isTryStatement(s)) {
      const before = s.catchClause ? st.clone() : null;
      const b = this.exec(s.tryBlock, st, ctx);
      let normal = b.normal; o.ret.push(...b.ret); o.brk.push(...b.brk); o.cont.push(...b.cont);
      if (s.catchClause) {
        if (s.catchClause.variableDeclaration) this.bindPattern(s.catchClause.variableDeclaration.name, V.root('?exc'), before, ctx);
        for (const start of [before, ...b.thr]) { const c = this.exec(s.catchClause.block, start, ctx); normal = normal.concat(c.normal); o.ret.push(...c.ret); o.brk.push(...c.brk); o.cont.push(...c.cont); o.thr.push(...c.thr); }
      } else o.thr.push(...b.thr);
      if (s.finallyBlock) {
        const f = this.execMany(s.finallyBlock, normal, ctx);
        const rets = o.ret; o.ret = [];
        for (const r of rets) { const g = this.exec(s.finallyBlock, r.st, ctx); for (const x of g.normal) o.ret.push({ st: x, v: r.v, node: r.node }); o.ret.push(...g.ret); }
        normal = f.normal; o.ret.push(...f.ret); o.brk.push(...f.brk); o.cont.push(...f.cont); o.thr.push(...f.thr);
      }
      o.normal = this.compact(normal);
      return o;
    }
    if (ts.isLabeledStatement(s)) return this.exec(s.statement, st, ctx);
    if (ts.isFunctionDeclaration(s)) { this.setVar(s, V.fn(s, ctx, null, 'fn@' + this.p.nid(s) + '@' + ctx.frame), st, ctx); o.normal.push(st); return o; }
    o.normal.push(st);
    return o;
  }
  execMany(s, states, ctx) {
    const o = this.none();
    for (const st of states) { const b = this.exec(s, st, ctx); o.normal.push(...b.normal); o.ret.push(...b.ret); o.brk.push(...b.brk); o.cont.push(...b.cont); o.thr.push(...b.thr); }
    o.normal = this.compact(o.normal);
    return o;
  }
  execVarDecls(list, states, ctx) {
    for (const d of list.declarations) {
      const next = [];
      for (const st of states) {
        if (!d.initializer) { if (ts.isIdentifier(d.name)) this.setVar(d, UNDEF, st, ctx); next.push(st); continue; }
        for (const r of this.ev(d.initializer, st, ctx)) { this.bindPattern(d.name, r.v, r.st, ctx); next.push(r.st); }
      }
      states = this.compact(next);
    }
    return states;
  }
  havocLoopVars(loop, st, ctx) {
    const names = new Set();
    const v = n => {
      if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) && ts.isIdentifier(n.operand)) names.add(n.operand);
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstCompoundAssignment && n.operatorToken.kind <= SK.LastCompoundAssignment && ts.isIdentifier(n.left)) names.add(n.left);
      ts.forEachChild(n, v);
    };
    v(loop);
    for (const id of names) {
      const s = this.p.symbolOf(id);
      const d = s && s.valueDeclaration;
      if (!d) continue;
      const k = this.varKey(d, ctx);
      if (k && st.vars.has(k)) { const cur = st.vars.get(k); if (cur.k === 'lit' && typeof cur.v === 'number') st.vars.set(k, V.root('loopvar')); }
    }
  }
  iterate(coll, st, body) {
    // body(state, elem) -> {go:[states], stop:[states]}
    const elems = coll.k === 'arr' ? st.heap.get(coll.key + '!elems') : null;
    const open = coll.k === 'arr' ? st.heap.get(coll.key + '!open') : null;
    if (elems && !open && elems.length <= 24) {
      let cur = [st]; const done = [];
      for (const e of elems) { const nx = []; for (const x of cur) { const r = body(x, e); nx.push(...r.go); done.push(...r.stop); } cur = this.compact(nx); }
      return [...cur, ...done];
    }
    if (elems && open) { // accumulated in a loop: zero or once per distinct element
      let cur = [st]; const done = [];
      for (const e of elems) { const nx = []; for (const x of cur) { const r = body(x, e); nx.push(...r.go); done.push(...r.stop); } cur = this.compact(nx); }
      return [...cur, ...done];
    }
    const res = [];
    const f = 'NE|' + this.collKey(coll);
    const known = st.facts.get(f);
    if (known !== true && this.opts.loops !== 'atLeastOnce') { const z = known === undefined ? st.clone() : st; z.facts.set(f, false); res.push(z); if (known === false) return res; }
    st.facts.set(f, true);
    const r = body(st, this.elemOf(coll));
    return this.compact([...res, ...r.go, ...r.stop]);
  }
  collKey(c) { return c.k === 'app' && (c.name === 'Object.keys' || c.name === 'array' || c.name === 'filter' || c.name === 'keyof' || c.name === 'slice' || c.name === 'Object.values' || c.name === 'Object.entries') ? this.collKey(c.args[0]) : c.key; }
  elemOf(c) {
    if (c.k === 'app' && c.name === 'Object.keys') return V.app('keyof', [c.args[0]]);
    if (c.k === 'app' && c.name === 'Object.values') return V.path(c.args[0], '[*]');
    if (c.k === 'app' && (c.name === 'filter' || c.name === 'slice')) return this.elemOf(c.args[0]);
    return V.path(c, '[*]');
  }
  // ---------------------------------------------------------------- variables
  varKey(decl, ctx) {
    // find function that contains the declaration
    let fn = decl.parent;
    while (fn && !isFn(fn) && !ts.isSourceFile(fn)) fn = fn.parent;
    if (!fn || ts.isSourceFile(fn)) return null;
    for (let c = ctx; c; c = c.parent) if (c.fnNode === fn) return c.frame + ':' + this.p.nid(decl);
    return null;
  }
  setVar(decl, val, st, ctx) { const k = this.varKey(decl, ctx); if (k) st.vars.set(k, val); else { this.globalWrite(decl, val, st, ctx); } }
  globalWrite(decl, val, st) { const g = this.globalRoot(decl); if (this.opts.onGlobalWrite) this.opts.onGlobalWrite({ decl, val, st }); st.heap.set(g.key + '!val', val); }
  globalRoot(decl) { return V.root('g:' + (decl.name && ts.isIdentifier(decl.name) ? decl.name.text : '?') + '@' + this.p.nid(decl)); }
  bindPattern(name, val, st, ctx) {
    if (ts.isIdentifier(name)) { this.setVar(name.parent, val, st, ctx); return; }
    if (ts.isObjectBindingPattern(name)) {
      for (const e of name.elements) {
        const pn = e.dotDotDotToken ? null : propName(e.propertyName || e.name);
        let v = pn === null ? V.app('rest', [val]) : this.getProp(val, pn, st);
        if (e.initializer) { if (v.k === 'lit' && v.v === undefined) { const r = this.ev(e.initializer, st, ctx); if (r.length === 1 && r[0].st === st) v = r[0].v; } }
        this.bindPattern(e.name, v, st, ctx);
      }
      return;
    }
    if (ts.isArrayBindingPattern(name)) {
      name.elements.forEach((e, i) => { if (ts.isOmittedExpression(e)) return; this.bindPattern(e.name, e.dotDotDotToken ? V.app('rest', [val]) : this.getElem(val, V.lit(i), st), st, ctx); });
    }
  }
  bindParams(fnNode, args, st, ctx, symbolic) {
    ctx.argc = symbolic ? null : args.length;
    fnNode.parameters.forEach((p, i) => {
      let v;
      if (p.dotDotDotToken) {
        if (symbolic) v = args[i];
        else { v = this.newArr(st, args.slice(i)); }
      } else v = i < args.length ? args[i] : UNDEF;
      if (p.initializer && v.k === 'lit' && v.v === undefined) { const r = this.ev(p.initializer, st, ctx); if (r.length === 1 && r[0].st === st) v = r[0].v; }
      this.bindPattern(p.name, v, st, ctx);
    });
    ctx.argvals = symbolic ? null : args;
  }
  // ---------------------------------------------------------------- heap
  newArr(st, elems, open) { const a = V.arr('a' + (++uid)); st.heap.set(a.key + '!elems', elems); if (open) st.heap.set(a.key + '!open', TRUE); return a; }
  newObj(st, cls) { return V.obj('o' + (++uid), cls); }
  remember(key, v) { (this._locs = this._locs || new Map()).set(key, v); return v; }
  getProp(base, prop, st) {
    if (base.k === 'alt') return V.alt(base.vals.map(b => this.getProp(b, prop, st)));
    if (base.k === 'ite') return V.ite(base.c, this.getProp(base.a, prop, st), this.getProp(base.b, prop, st));
    if (base.k === 'lit') return UNDEF;
    if (base.k === 'arr' && prop === 'length') { const e = st.heap.get(base.key + '!elems'); if (e && !st.heap.get(base.key + '!open')) return V.lit(e.length); return V.path(base, 'length'); }
    const lk = base.key + '.' + prop;
    if (st.heap.has(lk)) return st.heap.get(lk);
    if (this.opts.onRead) { const r = this.opts.onRead(base, prop, st); if (r) return r; }
    if (base.k === 'obj') {
      const sp = st.heap.get(base.key + '!spread');
      if (sp && sp.length) { return V.alt(sp.map(s => this.getProp(s, prop, st))); }
      if (!base.cls) return UNDEF;
    }
    const cls = this.clsOf(base);
    if (cls) {
      const m = this.p.member(cls, prop);
      if (m && m.fn && (m.kind === 'method' || m.kind === 'propfn')) return Object.assign(V.fn(m.fn, null, base, lk), { member: m });
      if (m && m.kind === 'prop' && m.init && st.heap.has(base.key + '!ctor')) { /* initialised by constructor */ }
    }
    if (base.k === 'cls') {
      for (let c = base.cls; c; c = c.base) { const m = c.statics.get(prop); if (m) { if (m.fn) return Object.assign(V.fn(m.fn, null, base, lk), { member: m }); const cv = m.init ? this.p.constOf(m.init) : undefined; if (cv !== undefined && typeof cv !== 'object') { if ((m.node.modifiers || []).some(x => x.kind === SK.ReadonlyKeyword) || true) return V.lit(cv); } break; } }
    }
    if (base.k === 'root' && base.globalInit) { const gi = base.globalInit; const r = this.readInit(gi, prop, st); if (r) return r; }
    return this.remember(lk, V.path(base, prop));
  }
  readInit(init, prop) {
    init = unparen(init);
    if (init && ts.isObjectLiteralExpression(init)) {
      for (const p of init.properties) if (propName(p.name) === prop) {
        if (ts.isPropertyAssignment(p)) return this.constVal(p.initializer);
        if (ts.isMethodDeclaration(p)) return V.fn(p, null, null, 'fn@' + this.p.nid(p));
        if (ts.isShorthandPropertyAssignment(p)) { const s = this.p.unalias(this.p.checker.getShorthandAssignmentValueSymbol(p)); if (s && s.valueDeclaration) return this.globalVal(s.valueDeclaration); }
      }
    }
    return null;
  }
  constVal(e) {
    e = unparen(e);
    if (isFn(e)) return V.fn(e, null, null, 'fn@' + this.p.nid(e));
    const c = this.p.constOf(e);
    if (c !== undefined) return V.lit(c);
    if (ts.isIdentifier(e)) { const s = this.p.symbolOf(e); if (s && s.valueDeclaration) return this.globalVal(s.valueDeclaration); }
    if (ts.isObjectLiteralExpression(e)) return Object.assign(V.root('gi@' + this.p.nid(e)), { globalInit: e });
    return null;
  }
  globalVal(d) {
    if (ts.isFunctionDeclaration(d)) return V.fn(d, null, null, 'fn@' + this.p.nid(d));
    if (ts.isClassDeclaration(d)) { const c = this.p.classBySymbol.get(this.p.checker.getSymbolAtLocation(d.name)); if (c) return V.cls(c); }
    if (ts.isVariableDeclaration(d) && d.initializer && (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const)) {
      const i = unparen(d.initializer);
      if (isFn(i)) return V.fn(i, null, null, 'fn@' + this.p.nid(i));
      const c = this.p.constOf(i);
      if (c !== undefined) return V.lit(c);
      return Object.assign(this.globalRoot(d), { globalInit: i, decl: d });
    }
    if (ts.isVariableDeclaration(d)) return Object.assign(this.globalRoot(d), { decl: d, mutable: true });
    return Object.assign(V.root('g:' + (d.name && d.name.text || '?') + '@' + this.p.nid(d)), { decl: d });
  }
  clsOf(v) { if (!v) return null; if ((v.k === 'root' || v.k === 'obj' || v.k === 'app') && v.cls) return v.cls; return null; }
  setProp(base, prop, val, st, node, ctx) {
    if (base.k === 'alt') {
      // weak update
      for (const b of base.vals) { if (b.k === 'lit') continue; const old = this.getProp(b, prop, st); if (this.opts.onWrite) this.opts.onWrite({ base: b, prop, value: val, old, node, st, ctx }); st.heap.set(b.key + '.' + prop, V.alt([old, val])); }
      return;
    }
    if (base.k === 'ite') { this.setProp(base.a, prop, val, st, node, ctx); this.setProp(base.b, prop, val, st, node, ctx); return; }
    if (base.k === 'lit') return;
    const old = this.opts.onWrite ? this.getProp(base, prop, st) : null;
    if (base.k !== 'obj' && !st.heap.has(base.key + '.' + prop)) this.remember(base.key + '.' + prop, V.path(base, prop));
    if (this.opts.onWrite) this.opts.onWrite({ base, prop, value: val, old, node, st, ctx });
    st.heap.set(base.key + '.' + prop, val);
  }
  getElem(base, idx, st) {
    if (base.k === 'alt') return V.alt(base.vals.map(b => this.getElem(b, idx, st)));
    if (base.k === 'arr') {
      const e = st.heap.get(base.key + '!elems');
      if (e && idx.k === 'lit' && typeof idx.v === 'number' && !st.heap.get(base.key + '!open')) return e[idx.v] || UNDEF;
      if (e && e.length) return V.alt(e);
    }
    if (idx.k === 'lit' && (typeof idx.v === 'string' || typeof idx.v === 'number')) return this.getProp(base, String(idx.v), st);
    if (base.k === 'root' && base.globalInit && ts.isObjectLiteralExpression(unparen(base.globalInit))) {
      if (idx.k === 'alt') return V.alt(idx.vals.map(i => this.getElem(base, i, st)));
    }
    if (idx.k === 'root' && idx.key === 'loopvar') return this.getProp(base, '[*]', st);
    if (idx.k === 'app' && idx.name === 'keyof' && idx.args[0].key === base.key) return this.getProp(base, '[*]', st);
    return this.getProp(base, '[' + idx.key + ']', st);
  }
  idxProp(idx, base) {
    if (idx.k === 'lit') return String(idx.v);
    if (idx.k === 'root' && idx.key === 'loopvar') return '[*]';
    if (idx.k === 'app' && idx.name === 'keyof' && idx.args[0].key === base.key) return '[*]';
    return '[' + idx.key + ']';
  }
  // ---------------------------------------------------------------- conditions
  // fact helpers
  known(key, st) { return st.facts.get(key); }
  setFact(key, val, st) { st.facts.set(key, val); }
  truth(v, st) { // true/false/undefined
    switch (v.k) {
      case 'lit': return !!v.v;
      case 'obj': case 'arr': case 'fn': case 'cls': return true;
      case 'ite': { const a = this.truth(v.a, st), b = this.truth(v.b, st); const c = this.truth(v.c, st); if (c === true) return a; if (c === false) return b; return a === b ? a : undefined; }
      case 'alt': { const t = v.vals.map(x => this.truth(x, st)); return t.every(x => x === true) ? true : t.every(x => x === false) ? false : undefined; }
      case 'app':
        if (v.fresh) return true;
        if (v.name === '!') { const t = this.truth(v.args[0], st); return t === undefined ? undefined : !t; }
        if (v.name === 'isNilV') { const n = this.nil(v.args[0], st); return n; }
        if (v.name === '&&') { const a = this.truth(v.args[0], st), b = this.truth(v.args[1], st); if (a === false || b === false) return false; if (a && b) return true; return undefined; }
        if (v.name === '||' ) { const a = this.truth(v.args[0], st), b = this.truth(v.args[1], st); if (a || b) return true; if (a === false && b === false) return false; return undefined; }
        if (v.name === '===' ) return this.eq(v.args[0], v.args[1], st);
        if (v.name === 'array') return true;
        if (v.name === 'new') return true;
        break;
      case 'root': if (v.key === 'this') return true; break;
    }
    const t = st.facts.get('T|' + v.key);
    if (t !== undefined) return t;
    if (st.facts.get('N|' + v.key) === true) return false;
    return undefined;
  }
  nil(v, st) {
    switch (v.k) {
      case 'lit': return v.v === null || v.v === undefined;
      case 'obj': case 'arr': case 'fn': case 'cls': return false;
      case 'ite': { const c = this.truth(v.c, st); const a = this.nil(v.a, st), b = this.nil(v.b, st); if (c === true) return a; if (c === false) return b; return a === b ? a : undefined; }
      case 'alt': { const t = v.vals.map(x => this.nil(x, st)); return t.every(x => x === true) ? true : t.every(x => x === false) ? false : undefined; }
      case 'app': if (v.fresh || v.name === 'array' || v.name === 'new' || v.name === '===' || v.name === '!' ) return false; break;
      case 'root': if (v.key === 'this') return false; break;
    }
    const n = st.facts.get('N|' + v.key);
    if (n !== undefined) return n;
    if (st.facts.get('T|' + v.key) === true) return false;
    return undefined;
  }
  eqKey(a, b) { const l = [a.key, b.key].sort(); return 'E|' + l[0] + '|' + l[1]; }
  eq(a, b, st) {
    if (a.k === 'lit' && b.k === 'lit') return a.v === b.v;
    if (a.key === b.key && a.k !== 'lit' && !a.key.startsWith('?')) return true;
    if ((a.k === 'obj' || a.k === 'arr') && (b.k === 'obj' || b.k === 'arr')) return false;
    if (a.k === 'lit' && a.v !== undefined && a.v !== null && (b.k === 'obj' || b.k === 'arr' || b.k === 'fn')) return false;
    if (b.k === 'lit' && b.v !== undefined && b.v !== null && (a.k === 'obj' || a.k === 'arr' || a.k === 'fn')) return false;
    const f = st.facts.get(this.eqKey(a, b));
    if (f !== undefined) return f;
    for (const [x, y] of [[a, b], [b, a]]) if (y.k === 'lit') {
      if (y.v === null || y.v === undefined) { if (this.nil(x, st) === false) return false; }
      else { if (this.nil(x, st) === true) return false; const other = st.facts.get('V|' + x.key); if (other !== undefined) return other === y.key; }
      if (x.k === 'alt') { const t = x.vals.map(z => this.eq(z, y, st)); if (t.every(q => q === false)) return false; }
    }
    return undefined;
  }
  // split on truthiness of value
  split(v, st) {
    const t = this.truth(v, st);
    if (t === true) return { t: [st], f: [] };
    if (t === false) return { t: [], f: [st] };
    if (v.k === 'app') {
      if (v.name === '!') { const r = this.split(v.args[0], st); return { t: r.f, f: r.t }; }
      if (v.name === 'isNilV') return this.splitNil(v.args[0], st);
      if (v.name === '===') return this.splitEq(v.args[0], v.args[1], st);
      if (v.name === '&&') { const a = this.split(v.args[0], st); const f = [...a.f], tt = []; for (const x of a.t) { const b = this.split(v.args[1], x); tt.push(...b.t); f.push(...b.f); } return { t: tt, f }; }
      if (v.name === '||') { const a = this.split(v.args[0], st); const tt = [...a.t], f = []; for (const x of a.f) { const b = this.split(v.args[1], x); tt.push(...b.t); f.push(...b.f); } return { t: tt, f }; }
      if (v.name === '??') { const n = this.splitNil(v.args[0], st); const tt = [], f = []; for (const x of n.t) { const b = this.split(v.args[1], x); tt.push(...b.t); f.push(...b.f); } for (const x of n.f) { const b = this.split(v.args[0], x); tt.push(...b.t); f.push(...b.f); } return { t: tt, f }; }
    }
    if (v.k === 'ite') { const c = this.split(v.c, st); const tt = [], f = []; for (const x of c.t) { const b = this.split(v.a, x); tt.push(...b.t); f.push(...b.f); } for (const x of c.f) { const b = this.split(v.b, x); tt.push(...b.t); f.push(...b.f); } return { t: tt, f }; }
    const a = st, b = st.clone();
    if (v.k === 'app') (this.cmp = this.cmp || new Map()).set(v.key, v);
    a.facts.set('T|' + v.key, true); this.implyTrue(v, a);
    b.facts.set('T|' + v.key, false); this.implyFalse(v, b);
    return { t: [a], f: [b] };
  }
  implyTrue(v, st) {
    st.facts.set('N|' + v.key, false);
    if (v.k === 'path' ) { st.facts.set('N|' + v.base.key, false); if (v.prop === 'length') st.facts.set('NE|' + this.collKey(v.base), true); }
    if (v.k === 'app' && TYPE_FNS.has(v.name) && v.args.length) { st.facts.set('N|' + v.args[0].key, false); if (v.name === 'isFunction' || v.name === 'isArray' || v.name === 'isObject' || v.name === 'isPlainObject') st.facts.set('T|' + v.args[0].key, true); for (const o of TYPE_FNS) if (o !== v.name && !(o === 'isObject' || o === 'isPlainObject' || v.name === 'isObject' || v.name === 'isPlainObject')) st.facts.set('T|' + o + '(' + v.args[0].key + ')', false); }
  }
  implyFalse(v, st) { if (v.k === 'path' && v.prop === 'length') st.facts.set('NE|' + this.collKey(v.base), false); }
  splitNil(v, st) {
    const n = this.nil(v, st);
    if (n === true) return { t: [st], f: [] };
    if (n === false) return { t: [], f: [st] };
    if (v.k === 'ite') { const c = this.split(v.c, st); const tt = [], f = []; for (const x of c.t) { const b = this.splitNil(v.a, x); tt.push(...b.t); f.push(...b.f); } for (const x of c.f) { const b = this.splitNil(v.b, x); tt.push(...b.t); f.push(...b.f); } return { t: tt, f }; }
    if (v.k === 'app' && v.name === '??') { const m = this.splitNil(v.args[0], st); const tt = [], f = [...m.f]; for (const x of m.t) { const b = this.splitNil(v.args[1], x); tt.push(...b.t); f.push(...b.f); } return { t: tt, f }; }
    const a = st, b = st.clone();
    a.facts.set('N|' + v.key, true); a.facts.set('T|' + v.key, false);
    b.facts.set('N|' + v.key, false);
    if (v.k === 'path') b.facts.set('N|' + v.base.key, false);
    return { t: [a], f: [b] };
  }
  splitEq(x, y, st) {
    const e = this.eq(x, y, st);
    if (e === true) return { t: [st], f: [] };
    if (e === false) return { t: [], f: [st] };
    for (const [p, q] of [[x, y], [y, x]]) {
      if (q.k === 'lit' && typeof q.v === 'boolean' && p.k === 'app' && (p.name === '!' || p.name === '===' || p.name === '&&' || p.name === '||')) { const r = this.split(p, st); return q.v ? r : { t: r.f, f: r.t }; }
    }
    const a = st, b = st.clone();
    a.facts.set(this.eqKey(x, y), true); b.facts.set(this.eqKey(x, y), false);
    for (const [p, q] of [[x, y], [y, x]]) if (q.k === 'lit') {
      if (q.v === null || q.v === undefined) { a.facts.set('N|' + p.key, true); a.facts.set('T|' + p.key, false); if (q.v === null && false) b.facts.set('N|' + p.key, false); }
      else { a.facts.set('V|' + p.key, q.key); a.facts.set('N|' + p.key, false); a.facts.set('T|' + p.key, !!q.v); if (typeof q.v === 'boolean') { /* nothing on the other side */ } }
      if (p.k === 'path' && p.prop === 'length' && q.v === 0) { a.facts.set('NE|' + this.collKey(p.base), false); b.facts.set('NE|' + this.collKey(p.base), true); }
    }
    return { t: [a], f: [b] };
  }
  cond(e, st, ctx) {
    e = unparen(e);
    if (ts.isPrefixUnaryExpression(e) && e.operator === SK.ExclamationToken) { const r = this.cond(e.operand, st, ctx); return { t: r.f, f: r.t }; }
    if (ts.isBinaryExpression(e)) {
      const op = e.operatorToken.kind;
      if (op === SK.AmpersandAmpersandToken) { const a = this.cond(e.left, st, ctx); const t = [], f = [...a.f]; for (const x of a.t) { const b = this.cond(e.right, x, ctx); t.push(...b.t); f.push(...b.f); } return { t: this.compact(t), f: this.compact(f) }; }
      if (op === SK.BarBarToken) { const a = this.cond(e.left, st, ctx); const t = [...a.t], f = []; for (const x of a.f) { const b = this.cond(e.right, x, ctx); t.push(...b.t); f.push(...b.f); } return { t: this.compact(t), f: this.compact(f) }; }
    }
    if (ts.isConditionalExpression(e)) { const c = this.cond(e.condition, st, ctx); const t = [], f = []; for (const x of c.t) { const b = this.cond(e.whenTrue, x, ctx); t.push(...b.t); f.push(...b.f); } for (const x of c.f) { const b = this.cond(e.whenFalse, x, ctx); t.push(...b.t); f.push(...b.f); } return { t, f }; }
    const t = [], f = [];
    for (const r of this.ev(e, st, ctx)) {
      // narrow alternatives held by an identifier
      if (r.v.k === 'alt' && ts.isIdentifier(e)) {
        const tv = r.v.vals.filter(x => this.truth(x, r.st) !== false), fv = r.v.vals.filter(x => this.truth(x, r.st) !== true);
        const s = this.p.symbolOf(e); const d = s && s.valueDeclaration; const k = d ? this.varKey(d, ctx) : null;
        if (k) {
          const a = r.st, b = r.st.clone();
          if (tv.length) { const nv = V.alt(tv); a.vars.set(k, nv); if (tv.length === 1 && this.truth(nv, a) === undefined) { a.facts.set('T|' + nv.key, true); this.implyTrue(nv, a); } t.push(a); }
          if (fv.length) { b.vars.set(k, V.alt(fv)); f.push(b); }
          continue;
        }
      }
      const s = this.split(r.v, r.st); t.push(...s.t); f.push(...s.f);
    }
    return { t: this.compact(t), f: this.compact(f) };
  }
  // ---------------------------------------------------------------- expressions
  // does evaluating this expression possibly emit events / write state / run inlined code?
  quiet(e) {
    if (this.pureCache.has(e)) return this.pureCache.get(e);
    let q = true;
    const v = n => {
      if (!q) return;
      if (isFn(n)) return;
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment) { q = false; return; }
      if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken)) { q = false; return; }
      if (ts.isCallExpression(n) || ts.isNewExpression(n)) {
        const nm = ts.isPropertyAccessExpression(unparen(n.expression)) ? unparen(n.expression).name.text : n.expression.getText();
        if (!PURE_LIB.test(nm)) { q = false; return; }
        if (n.arguments && n.arguments.some(a => isFn(unparen(a)))) { q = false; return; }
      }
      ts.forEachChild(n, v);
    };
    v(e);
    this.pureCache.set(e, q);
    return q;
  }
  evList(exprs, st, ctx) { // -> [{st, vs}]
    let cur = [{ st, vs: [] }];
    for (const e of exprs) {
      const nx = [];
      for (const c of cur) {
        const spread = ts.isSpreadElement(e);
        for (const r of this.ev(spread ? e.expression : e, c.st, ctx)) {
          if (spread && r.v.k === 'arr' && r.st.heap.get(r.v.key + '!elems') && !r.st.heap.get(r.v.key + '!open')) nx.push({ st: r.st, vs: [...c.vs, ...r.st.heap.get(r.v.key + '!elems')] });
          else nx.push({ st: r.st, vs: [...c.vs, spread ? V.app('spread', [r.v]) : r.v] });
        }
      }
      cur = nx;
    }
    return cur;
  }
  one(st, v) { return [{ st, v }]; }
  ev(e0, st, ctx, discard) {
    const e = unparen(e0);
    switch (e.kind) {
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return this.one(st, V.lit(e.text));
      case SK.NumericLiteral: return this.one(st, V.lit(Number(e.text)));
      case SK.TrueKeyword: return this.one(st, TRUE);
      case SK.FalseKeyword: return this.one(st, FALSE);
      case SK.NullKeyword: return this.one(st, NULL);
      case SK.ThisKeyword: return this.one(st, ctx.thisVal || V.root('this'));
      case SK.RegularExpressionLiteral: return this.one(st, V.root('re@' + e.text));
    }
    if (ts.isIdentifier(e)) return this.one(st, this.evIdent(e, st, ctx));
    if (isFn(e)) return this.one(st, Object.assign(V.fn(e, ctx, ts.isArrowFunction(e) ? ctx.thisVal : null, 'fn@' + this.p.nid(e) + '@' + ctx.frame), { inlineFn: true }));
    if (ts.isPropertyAccessExpression(e)) {
      let cv = this.p.checker.getConstantValue(e);
      if (cv === undefined && ts.isIdentifier(unparen(e.expression))) { const es = this.p.unalias(this.p.checker.getSymbolAtLocation(e.name)); const ed = es && es.valueDeclaration; if (ed && ts.isEnumMember(ed)) cv = this.p.checker.getConstantValue(ed); }
      if (cv !== undefined) return this.one(st, V.lit(cv));
      if (unparen(e.expression).kind === SK.SuperKeyword) return this.one(st, V.path(ctx.thisVal || V.root('this'), 'super.' + e.name.text));
      const out = [];
      for (const r of this.ev(e.expression, st, ctx)) {
        if (r.v.k === 'root' && r.v.key === 'arguments' && e.name.text === 'length' && ctx.argc !== null) { out.push({ st: r.st, v: V.lit(this.argcOf(ctx)) }); continue; }
        out.push(...this.readMember(r.v, e.name.text, r.st, ctx, e));
      }
      return out;
    }
    if (ts.isElementAccessExpression(e)) {
      const out = [];
      for (const r of this.ev(e.expression, st, ctx)) for (const q of this.ev(e.argumentExpression, r.st, ctx)) out.push({ st: q.st, v: this.getElem(r.v, q.v, q.st) });
      return out;
    }
    if (ts.isCallExpression(e)) return this.evCall(e, st, ctx);
    if (ts.isNewExpression(e)) return this.evNew(e, st, ctx);
    if (ts.isConditionalExpression(e)) {
      if (this.quiet(e)) {
        const c = this.ev(e.condition, st, ctx);
        if (c.length === 1) {
          const cv = c[0].v; const t = this.truth(cv, c[0].st);
          if (t === true) return this.ev(e.whenTrue, c[0].st, ctx);
          if (t === false) return this.ev(e.whenFalse, c[0].st, ctx);
          const a = this.ev(e.whenTrue, c[0].st, ctx), b = this.ev(e.whenFalse, c[0].st, ctx);
          if (a.length === 1 && b.length === 1) return this.one(c[0].st, V.ite(cv, a[0].v, b[0].v));
        }
      }
      const c = this.cond(e.condition, st, ctx);
      return this.compact([...c.t.flatMap(x => this.ev(e.whenTrue, x, ctx)), ...c.f.flatMap(x => this.ev(e.whenFalse, x, ctx))], x => x.st, x => x.v.key);
    }
    if (ts.isBinaryExpression(e)) return this.evBinary(e, st, ctx, discard);
    if (ts.isPrefixUnaryExpression(e) || ts.isPostfixUnaryExpression(e)) {
      if (e.operator === SK.PlusPlusToken || e.operator === SK.MinusMinusToken) {
        const out = [];
        for (const r of this.ev(e.operand, st, ctx)) {
          const nv = r.v.k === 'lit' && typeof r.v.v === 'number' ? V.lit(r.v.v + (e.operator === SK.PlusPlusToken ? 1 : -1)) : r.v.key === 'loopvar' ? r.v : V.app(e.operator === SK.PlusPlusToken ? '+' : '-', [r.v, V.lit(1)]);
          for (const q of this.assignTo(e.operand, nv, r.st, ctx)) out.push({ st: q, v: ts.isPrefixUnaryExpression(e) ? nv : r.v });
        }
        return out;
      }
      return this.ev(e.operand, st, ctx).map(r => {
        if (e.operator === SK.ExclamationToken) { const t = this.truth(r.v, r.st); return { st: r.st, v: t === undefined ? V.app('!', [r.v]) : V.lit(!t) }; }
        if (e.operator === SK.MinusToken) return { st: r.st, v: r.v.k === 'lit' && typeof r.v.v === 'number' ? V.lit(-r.v.v) : V.app('neg', [r.v]) };
        return { st: r.st, v: V.app(ts.tokenToString(e.operator), [r.v]) };
      });
    }
    if (ts.isObjectLiteralExpression(e)) {
      const o = this.newObj(st);
      let cur = [st];
      for (const p of e.properties) {
        const nx = [];
        for (const x of cur) {
          if (ts.isPropertyAssignment(p)) {
            const n = propName(p.name);
            if (n !== null) for (const r of this.ev(p.initializer, x, ctx)) { r.st.heap.set(o.key + '.' + n, r.v); nx.push(r.st); }
            else for (const q of this.ev(p.name.expression, x, ctx)) for (const r of this.ev(p.initializer, q.st, ctx)) { r.st.heap.set(o.key + '.' + this.idxProp(q.v, o), r.v); nx.push(r.st); }
          } else if (ts.isShorthandPropertyAssignment(p)) {
            const s = this.p.unalias(this.p.checker.getShorthandAssignmentValueSymbol(p));
            x.heap.set(o.key + '.' + p.name.text, this.symVal(s, p.name, x, ctx)); nx.push(x);
          } else if (ts.isSpreadAssignment(p)) {
            for (const r of this.ev(p.expression, x, ctx)) { this.assignAll(o, r.v, r.st, e, ctx, true); nx.push(r.st); }
          } else if (ts.isMethodDeclaration(p)) { const n = propName(p.name); if (n !== null) x.heap.set(o.key + '.' + n, Object.assign(V.fn(p, ctx, o, 'fn@' + this.p.nid(p) + '@' + ctx.frame), { inlineFn: true })); nx.push(x); }
          else nx.push(x);
        }
        cur = nx;
      }
      return cur.map(x => ({ st: x, v: o }));
    }
    if (ts.isArrayLiteralExpression(e)) {
      return this.evList(e.elements.map(x => x), st, ctx).map(r => {
        const open = r.vs.some(v => v.k === 'app' && v.name === 'spread');
        const a = this.newArr(r.st, r.vs, open);
        return { st: r.st, v: a };
      });
    }
    if (ts.isTemplateExpression(e)) {
      return this.evList(e.templateSpans.map(s => s.expression), st, ctx).map(r => {
        if (r.vs.every(v => v.k === 'lit')) return { st: r.st, v: V.lit(e.head.text + r.vs.map((v, i) => String(v.v) + e.templateSpans[i].literal.text).join('')) };
        return { st: r.st, v: V.app('tpl:' + e.head.text + e.templateSpans.map(s => '$' + s.literal.text).join(''), r.vs) };
      });
    }
    if (ts.isTypeOfExpression(e)) return this.ev(e.expression, st, ctx).map(r => ({ st: r.st, v: V.app('typeof', [r.v]) }));
    if (ts.isVoidExpression(e)) return this.ev(e.expression, st, ctx).map(r => ({ st: r.st, v: UNDEF }));
    if (ts.isDeleteExpression(e)) { const out = []; for (const q of this.assignTo(e.expression, UNDEF, st, ctx)) out.push({ st: q, v: TRUE }); return out; }
    if (ts.isAwaitExpression(e) || ts.isYieldExpression(e)) return e.expression ? this.ev(e.expression, st, ctx) : this.one(st, UNDEF);
    if (ts.isClassExpression(e)) { const c = this.p.classBySymbol.get(e.symbol); return this.one(st, c ? V.cls(c) : V.root('?cls')); }
    if (ts.isTaggedTemplateExpression(e)) return this.one(st, V.root('?tag'));
    return this.one(st, V.root('?x' + this.p.nid(e)));
  }
  argcOf(ctx) { let n = ctx.argc; return n; }
  evIdent(e, st, ctx) {
    if (e.text === 'undefined') return UNDEF;
    if (e.text === 'NaN' || e.text === 'Infinity') return V.lit(e.text === 'NaN' ? NaN : Infinity);
    if (e.text === 'arguments') return V.root('arguments');
    const s = this.p.symbolOf(e);
    return this.symVal(s, e, st, ctx);
  }
  symVal(s, e, st, ctx) {
    const d = s && (s.valueDeclaration || (s.declarations && s.declarations[0]));
    if (!d) return V.root('id:' + e.text);
    if (ts.isEnumDeclaration(d)) return Object.assign(V.root('enum:' + e.text), { decl: d });
    const k = this.varKey(d, ctx);
    if (k) { const v = st.vars.get(k); if (v) return v; return V.root('v:' + e.text + '@' + k); }
    // captured variable of a function that is not on the context chain
    let fn = d.parent; while (fn && !isFn(fn) && !ts.isSourceFile(fn)) fn = fn.parent;
    if (fn && isFn(fn)) return V.root('cap:' + e.text + '@' + this.p.nid(d));
    if (!this.p.inRepo(d)) return V.root('ext:' + e.text);
    const g = this.globalVal(d);
    if (g && g.mutable && st.heap.has(g.key + '!val')) return st.heap.get(g.key + '!val');
    return g;
  }
  readMember(base, name, st, ctx, node) {
    const cls = this.clsOf(base);
    if (cls) {
      let m = null;
      for (const x of this.p.mro(cls)) { const q = x.members.get(name); if (q && q.kind !== 'abstract') { m = q; break; } }
      if (m && m.kind === 'accessor' && m.getter && m.getter.body && ctx.depth < this.opts.maxDepth && !ctx.stack.includes(m.getter)) return this.inline(m.getter, base, [], st, ctx, cls, node);
    }
    return this.one(st, this.getProp(base, name, st));
  }
  evBinary(e, st, ctx, discard) {
    const op = e.operatorToken.kind;
    if (op === SK.EqualsToken) {
      const out = [];
      const L = unparen(e.left);
      if (ts.isObjectLiteralExpression(L) || ts.isArrayLiteralExpression(L)) {
        for (const r of this.ev(e.right, st, ctx)) { this.assignPattern(L, r.v, r.st, ctx); out.push(r); }
        return out;
      }
      // evaluate target base first (order), then right
      for (const t of this.evTarget(L, st, ctx)) for (const r of this.ev(e.right, t.st, ctx)) { this.storeTarget(t, r.v, r.st, e, ctx); out.push({ st: r.st, v: r.v }); }
      return out;
    }
    if (op >= SK.FirstCompoundAssignment && op <= SK.LastCompoundAssignment) {
      const out = [];
      if (op === SK.BarBarEqualsToken || op === SK.QuestionQuestionEqualsToken || op === SK.AmpersandAmpersandEqualsToken) {
        for (const r of this.ev(e.left, st, ctx)) {
          const sp = op === SK.QuestionQuestionEqualsToken ? this.splitNil(r.v, r.st) : this.split(r.v, r.st);
          const write = op === SK.BarBarEqualsToken ? sp.f : sp.t; const keep = op === SK.BarBarEqualsToken ? sp.t : sp.f;
          for (const x of keep) out.push({ st: x, v: r.v });
          for (const x of write) for (const t of this.evTarget(unparen(e.left), x, ctx)) for (const q of this.ev(e.right, t.st, ctx)) { this.storeTarget(t, q.v, q.st, e, ctx); out.push(q); }
        }
        return out;
      }
      for (const t of this.evTarget(unparen(e.left), st, ctx)) for (const l of this.ev(e.left, t.st, ctx)) for (const r of this.ev(e.right, l.st, ctx)) {
        const o = ts.tokenToString(op).slice(0, -1);
        const nv = l.v.k === 'lit' && r.v.k === 'lit' && o === '+' ? V.lit(l.v.v + r.v.v) : l.v.key === 'loopvar' ? l.v : V.app(o, [l.v, r.v]);
        this.storeTarget(t, nv, r.st, e, ctx); out.push({ st: r.st, v: nv });
      }
      return out;
    }
    if (op === SK.CommaToken) { const out = []; for (const l of this.ev(e.left, st, ctx, true)) out.push(...this.ev(e.right, l.st, ctx)); return out; }
    if (op === SK.AmpersandAmpersandToken || op === SK.BarBarToken) {
      if (this.quiet(e)) {
        const l = this.ev(e.left, st, ctx);
        if (l.length === 1) {
          const t = this.truth(l[0].v, l[0].st);
          const and = op === SK.AmpersandAmpersandToken;
          if (t !== undefined) { if (t === and) return this.ev(e.right, l[0].st, ctx); return l; }
          const r = this.ev(e.right, l[0].st, ctx);
          if (r.length === 1) return this.one(r[0].st, and ? V.app('&&', [l[0].v, r[0].v]) : V.ite(l[0].v, l[0].v, r[0].v));
        }
      }
      const c = this.cond(e.left, st, ctx);
      const lv = x => { const r = this.quiet(e.left) ? this.ev(e.left, x, ctx) : [{ st: x, v: op === SK.AmpersandAmpersandToken ? FALSE : V.root('?or' + this.p.nid(e)) }]; return r; };
      if (op === SK.AmpersandAmpersandToken) return this.compact([...c.f.flatMap(lv), ...c.t.flatMap(x => this.ev(e.right, x, ctx))], x => x.st, x => x.v.key);
      return this.compact([...c.t.flatMap(lv), ...c.f.flatMap(x => this.ev(e.right, x, ctx))], x => x.st, x => x.v.key);
    }
    if (op === SK.QuestionQuestionToken) {
      const out = [];
      for (const l of this.ev(e.left, st, ctx)) {
        const n = this.nil(l.v, l.st);
        if (n === false) { out.push(l); continue; }
        if (n === true) { out.push(...this.ev(e.right, l.st, ctx)); continue; }
        if (this.quiet(e.right)) { const r = this.ev(e.right, l.st, ctx); if (r.length === 1) { out.push({ st: r[0].st, v: V.ite(V.app('!', [V.app('isNilV', [l.v])]), l.v, r[0].v) }); continue; } }
        const s = this.splitNil(l.v, l.st);
        for (const x of s.f) out.push({ st: x, v: l.v });
        for (const x of s.t) out.push(...this.ev(e.right, x, ctx));
      }
      return out;
    }
    const out = [];
    for (const l of this.ev(e.left, st, ctx)) for (const r of this.ev(e.right, l.st, ctx)) {
      let v;
      const a = l.v, b = r.v;
      switch (op) {
        case SK.EqualsEqualsEqualsToken: case SK.EqualsEqualsToken: case SK.ExclamationEqualsEqualsToken: case SK.ExclamationEqualsToken: {
          const neg = op === SK.ExclamationEqualsEqualsToken || op === SK.ExclamationEqualsToken;
          const loose = op === SK.EqualsEqualsToken || op === SK.ExclamationEqualsToken;
          let base;
          if (loose && (a.k === 'lit' && (a.v === null || a.v === undefined))) base = V.app('isNilV', [b]);
          else if (loose && (b.k === 'lit' && (b.v === null || b.v === undefined))) base = V.app('isNilV', [a]);
          else { const l2 = [a, b].sort((x, y) => x.key < y.key ? -1 : 1); base = V.app('===', l2); }
          const t = base.name === '===' ? this.eq(a, b, r.st) : this.nil(base.args[0], r.st);
          v = t !== undefined ? V.lit(neg ? !t : t) : neg ? V.app('!', [base]) : base;
          break;
        }
        case SK.PlusToken: v = a.k === 'lit' && b.k === 'lit' ? V.lit(a.v + b.v) : V.app('+', [a, b]); break;
        case SK.MinusToken: v = a.k === 'lit' && b.k === 'lit' ? V.lit(a.v - b.v) : V.app('-', [a, b]); break;
        case SK.InstanceOfKeyword: v = V.app('instanceof', [a, b]); break;
        default: {
          if (a.k === 'lit' && b.k === 'lit') {
            const f = { '<': (x, y) => x < y, '>': (x, y) => x > y, '<=': (x, y) => x <= y, '>=': (x, y) => x >= y, '*': (x, y) => x * y }[ts.tokenToString(op)];
            if (f) { v = V.lit(f(a.v, b.v)); break; }
          }
          v = V.app(ts.tokenToString(op), [a, b]);
        }
      }
      out.push({ st: r.st, v });
    }
    return out;
  }
  evTarget(L, st, ctx) { // -> [{st, kind, ...}]
    L = unparen(L);
    if (ts.isIdentifier(L)) return [{ st, kind: 'id', node: L }];
    if (ts.isPropertyAccessExpression(L)) return this.ev(L.expression, st, ctx).map(r => ({ st: r.st, kind: 'prop', base: r.v, prop: L.name.text, node: L }));
    if (ts.isElementAccessExpression(L)) { const out = []; for (const r of this.ev(L.expression, st, ctx)) for (const q of this.ev(L.argumentExpression, r.st, ctx)) out.push({ st: q.st, kind: 'prop', base: r.v, prop: this.idxProp(q.v, r.v), idx: q.v, node: L }); return out; }
    return [{ st, kind: 'none', node: L }];
  }
  storeTarget(t, v, st, node, ctx) {
    if (t.kind === 'id') {
      const s = this.p.symbolOf(t.node); const d = s && s.valueDeclaration;
      if (d) this.setVar(d, v, st, ctx);
    } else if (t.kind === 'prop') this.setProp(t.base, t.prop, v, st, node, ctx);
  }
  assignTo(L, v, st, ctx) { const out = []; for (const t of this.evTarget(L, st, ctx)) { this.storeTarget(t, v, t.st, L, ctx); out.push(t.st); } return out; }
  assignPattern(L, v, st, ctx) {
    if (ts.isObjectLiteralExpression(L)) for (const p of L.properties) {
      if (ts.isShorthandPropertyAssignment(p)) { const s = this.p.checker.getShorthandAssignmentValueSymbol(p); if (s && s.valueDeclaration) this.setVar(s.valueDeclaration, this.getProp(v, p.name.text, st), st, ctx); }
      else if (ts.isPropertyAssignment(p)) this.assignTo(p.initializer, this.getProp(v, propName(p.name) || '?', st), st, ctx);
    }
    else if (ts.isArrayLiteralExpression(L)) L.elements.forEach((x, i) => { if (!ts.isOmittedExpression(x)) this.assignTo(ts.isSpreadElement(x) ? x.expression : x, this.getElem(v, V.lit(i), st), st, ctx); });
  }
  assignAll(target, src, st, node, ctx, silent) {
    if (src.k === 'lit') return;
    if (src.k === 'obj' && !src.cls) {
      const sp = st.heap.get(src.key + '!spread');
      if (sp) for (const s of sp) this.assignAll(target, s, st, node, ctx, silent);
      for (const [k, v] of [...st.heap]) if (k.startsWith(src.key + '.')) { const pn = k.slice(src.key.length + 1); if (silent) st.heap.set(target.key + '.' + pn, v); else this.setProp(target, pn, v, st, node, ctx); }
      return;
    }
    if (src.k === 'alt' || src.k === 'ite') { for (const a of alts(src)) this.assignAll(target, a, st, node, ctx, silent); return; }
    if (src.k === 'app' && src.name === '&&') { this.assignAll(target, src.args[1], st, node, ctx, silent); return; }
    if (!silent && this.opts.onWrite) this.opts.onWrite({ base: target, prop: '*', value: src, old: V.path(target, '*'), node, st, ctx });
    if (target.k === 'obj') {
      const cur = st.heap.get(target.key + '!spread') || [];
      st.heap.set(target.key + '!spread', [...cur, src]);
      // earlier explicit props may be overwritten: keep both
      for (const [k, v] of [...st.heap]) if (k.startsWith(target.key + '.')) { const pn = k.slice(target.key.length + 1); const o = V.path(src, pn); if (o.key !== v.key) st.heap.set(k, V.alt([v, o])); }
    } else st.heap.set(target.key + '!assigned', src);
  }
  // ---------------------------------------------------------------- calls
  evNew(e, st, ctx) {
    const out = [];
    const rc = this.p.resolveCall(e);
    for (const a of this.evList(e.arguments || [], st, ctx)) {
      const info = { node: e, isNew: true, name: rc.name, cls: rc.cls || null, args: a.vs, st: a.st, ctx, targets: rc.targets, recv: null };
      if (this.opts.onCall) { const r = this.opts.onCall(info); if (r) { if (r.results) out.push(...r.results); else out.push({ st: a.st, v: r.value || V.obj('n' + this.p.nid(e) + '_' + (++uid), rc.cls) }); continue; } }
      if (rc.name === 'Map' || rc.name === 'Set' || rc.name === 'WeakMap') { const o = V.obj('n' + (++uid)); o.builtin = rc.name; o.cls = null; out.push({ st: a.st, v: Object.assign(V.app('new', [V.lit(rc.name), V.lit(uid)], { fresh: true })) }); continue; }
      const o = rc.cls ? V.obj('n' + this.p.nid(e) + '_' + (++uid), rc.cls) : V.app('new', [V.lit(rc.name), V.lit(++uid)], { fresh: true, ctorArgs: a.vs });
      o.newNode = e; o.ctorArgs = a.vs;
      if (rc.cls && rc.targets.length && this.opts.inlineNew && this.opts.inlineNew(rc.cls) && ctx.depth < this.opts.maxDepth && !ctx.stack.includes(rc.targets[0])) {
        for (const r of this.inline(rc.targets[0], o, a.vs, a.st, ctx, rc.cls, e)) out.push({ st: r.st, v: o });
      } else out.push({ st: a.st, v: o });
    }
    return out;
  }
  evCall(e, st, ctx) {
    const callee = unparen(e.expression);
    const out = [];
    if (callee.kind === SK.SuperKeyword) {
      const rc = this.p.resolveCall(e);
      for (const a of this.evList(e.arguments, st, ctx)) {
        const info = { node: e, isSuperCtor: true, name: 'super()', args: a.vs, st: a.st, ctx, targets: rc.targets, recv: ctx.thisVal };
        const h = this.opts.onCall && this.opts.onCall(info);
        if (h) { out.push({ st: a.st, v: UNDEF }); continue; }
        if (rc.targets.length && ctx.depth < this.opts.maxDepth && this.opts.inlineNew && rc.cls && this.opts.inlineNew(rc.cls)) out.push(...this.inline(rc.targets[0], ctx.thisVal, a.vs, a.st, ctx, ctx.cls, e));
        else out.push({ st: a.st, v: UNDEF });
      }
      return out;
    }
    if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) {
      const recvE = unparen(callee.expression);
      const isSuper = recvE.kind === SK.SuperKeyword;
      const recvs = isSuper ? this.one(st, ctx.thisVal || V.root('this')) : this.ev(callee.expression, st, ctx);
      for (const r of recvs) {
        // optional call on nil receiver
        const optional = !!(e.questionDotToken || callee.questionDotToken);
        let states = [r.st];
        if (optional && callee.questionDotToken) {
          const n = this.nil(r.v, r.st);
          if (n === true) { out.push({ st: r.st, v: UNDEF }); continue; }
        }
        let names = [];
        if (ts.isPropertyAccessExpression(callee)) names = [{ st: r.st, name: callee.name.text, idx: null }];
        else names = this.ev(callee.argumentExpression, r.st, ctx).map(q => ({ st: q.st, name: q.v.k === 'lit' ? String(q.v.v) : null, idx: q.v }));
        for (const nm of names) for (const a of this.evList(e.arguments, nm.st, ctx)) out.push(...this.callMember(e, r.v, nm.name, nm.idx, a.vs, a.st, ctx, isSuper, optional));
      }
      return this.compact(out, x => x.st, x => x.v.key);
    }
    // plain function call
    for (const f of this.ev(callee, st, ctx)) for (const a of this.evList(e.arguments, f.st, ctx)) out.push(...this.callValue(e, f.v, a.vs, a.st, ctx, ts.isIdentifier(callee) ? callee.text : '?'));
    return this.compact(out, x => x.st, x => x.v.key);
  }
  callValue(e, fv, args, st, ctx, name) {
    const rc = fv.k === 'fn' ? { targets: [fv.node] } : this.p.resolveCall(e);
    const info = { node: e, name: fv.k === 'fn' && fv.node.name && ts.isIdentifier(fv.node.name) ? fv.node.name.text : name, args, st, ctx, targets: rc.targets, recv: null, fnVal: fv };
    if (this.opts.onCall) { const h = this.opts.onCall(info); if (h) return h.results || this.one(info.st, h.value || UNDEF); }
    // predicates
    const nm = info.name;
    if (args.length >= 1) {
      if (NIL_FNS.has(nm)) { const n = this.nil(args[0], st); return this.one(st, n !== undefined ? V.lit(n) : V.app('isNilV', [args[0]])); }
      if (VALID_FNS.has(nm)) { const n = this.nil(args[0], st); return this.one(st, n !== undefined ? V.lit(!n) : V.app('!', [V.app('isNilV', [args[0]])])); }
      if (TYPE_FNS.has(nm)) return this.one(st, this.typeTest(nm, args[0], st));
      if (nm === 'array' && !this.p.fnInfo.has(rc.targets && rc.targets[0])) return this.one(st, this.arrayOf(args[0], st));
      if (nm === 'merge' && (!rc.targets || !rc.targets.length)) { for (const s of args.slice(1)) this.assignAll(args[0], s, st, e, ctx, args[0].k === 'obj'); return this.one(st, args[0]); }
    }
    if (fv.k === 'alt') {
      const out = [];
      fv.vals.forEach((x, i) => { out.push(...this.callValue(e, x, args, i === fv.vals.length - 1 ? st : st.clone(), ctx, name)); });
      return out;
    }
    if (fv.k === 'fn') return this.callFn(e, fv, args, st, ctx);
    return this.callTargets(e, rc.targets, null, args, st, ctx, nm, false);
  }
  typeTest(nm, v, st) {
    if (v.k === 'lit') { const t = v.v; const r = { isArray: false, isString: typeof t === 'string', isFunction: false, isObject: false, isPlainObject: false, isNumber: typeof t === 'number', isBoolean: typeof t === 'boolean', isDate: false }[nm]; return V.lit(r); }
    if (v.k === 'arr') return V.lit(nm === 'isArray' || nm === 'isObject');
    if (v.k === 'fn') return V.lit(nm === 'isFunction' || nm === 'isObject');
    if (v.k === 'obj') return V.lit(nm === 'isObject' || nm === 'isPlainObject');
    return V.app(nm, [v]);
  }
  arrayOf(v, st) {
    if (v.k === 'arr') return v;
    if (v.k === 'lit' && (v.v === undefined || v.v === null)) return this.newArr(st, []);
    if (v.k === 'lit' || v.k === 'obj' || v.k === 'fn') return this.newArr(st, [v]);
    if (v.k === 'root' && v.key === 'this') return this.newArr(st, [v]);
    if (v.k === 'app' && (v.name === 'array' || v.name === 'filter' || v.name === 'Object.keys')) return v;
    return V.app('array', [v]);
  }
  callFn(e, fv, args, st, ctx) {
    const nm = this.p.fnName(fv.node);
    const cls = fv.thisVal ? this.clsOf(fv.thisVal) || (fv.ctx && fv.ctx.cls) || this.enclCls(fv.node) : fv.ctx ? fv.ctx.cls : this.enclCls(fv.node);
    if (this.shouldInline(fv.node, ctx, fv.inlineFn)) return this.inline(fv.node, ts.isArrowFunction(fv.node) && fv.ctx ? fv.ctx.thisVal : fv.thisVal, args, st, ctx, cls, e, fv.ctx);
    return this.opaqueCall(e, nm, fv.thisVal, args, st, ctx, [fv.node]);
  }
  enclCls(node) { return this.p.enclosingClass(node); }
  sizeOf(fn) { if (!this._sz) this._sz = new Map(); if (this._sz.has(fn)) return this._sz.get(fn); let n = 0; const v = x => { n++; ts.forEachChild(x, v); }; v(fn.body); this._sz.set(fn, n); return n; }
  shouldInline(fn, ctx, isLocal) {
    if (!fn.body || ctx.depth >= this.opts.maxDepth || ctx.stack.includes(fn)) return false;
    if (fn.asteriskToken) return false;
    if (this.opts.noInline && this.opts.noInline(fn)) return false;
    if (this.opts.forceInline && this.opts.forceInline(fn)) return true;
    if (this.relevant.has(fn)) return true;
    if (isLocal) return true;
    return this.sizeOf(fn) <= this.opts.smallNodes && ctx.depth < this.opts.maxDepth - 2;
  }
  callMember(e, recv, name, idx, args, st, ctx, isSuper, optional) {
    if (recv.k === 'alt' && !isSuper) {
      const out = [];
      const vals = recv.vals.filter(v => !(v.k === 'lit' && (v.v === null || v.v === undefined)));
      if (!vals.length) return this.one(st, UNDEF);
      vals.forEach((x, i) => out.push(...this.callMember(e, x, name, idx, args, i === vals.length - 1 ? st : st.clone(), ctx, isSuper, optional)));
      return out;
    }
    if (recv.k === 'ite' && !isSuper) {
      const sp = this.split(recv.c, st);
      return [...sp.t.flatMap(x => this.callMember(e, recv.a, name, idx, args, x, ctx, isSuper, optional)), ...sp.f.flatMap(x => this.callMember(e, recv.b, name, idx, args, x, ctx, isSuper, optional))];
    }
    let targets = [], cls = null, resolvedByValue = false;
    const fv = !isSuper && name !== null ? this.getPropForCall(recv, name, st) : (idx ? this.getElem(recv, idx, st) : null);
    if (isSuper) { const rc = this.p.resolveCall(e); targets = rc.targets; cls = ctx.cls; resolvedByValue = true; }
    else if (fv && fv.k === 'fn') { targets = [fv.node]; cls = this.clsOf(recv) || this.enclCls(fv.node); resolvedByValue = true; }
    else { const rc = this.p.resolveCall(e, recv.key === 'this' ? ctx.cls : null); targets = rc.targets; }
    const info = { node: e, name, args, st, ctx, targets, recv, isSuper, optional, fnVal: fv };
    if (this.opts.onCall) { const h = this.opts.onCall(info); if (h) return h.results || this.one(info.st, h.value || UNDEF); }
    const b = this.builtinMember(e, recv, name, args, st, ctx, fv);
    if (b) return b;
    if (fv && fv.k === 'alt' && fv.vals.some(x => x.k === 'fn')) {
      const out = []; const fs2 = fv.vals.filter(x => x.k === 'fn');
      fs2.forEach((x, i) => out.push(...this.callFn(e, Object.assign({}, x, { thisVal: x.thisVal || recv }), args, i === fs2.length - 1 ? st : st.clone(), ctx)));
      return out;
    }
    if (fv && fv.k === 'fn' && !isSuper) return this.callFn(e, fv.thisVal || ts.isArrowFunction(fv.node) ? fv : Object.assign({}, fv, { thisVal: recv }), args, st, ctx);
    return this.callTargets(e, targets, recv, args, st, ctx, name, isSuper);
  }
  getPropForCall(recv, name, st) {
    if (recv.k === 'lit') return null;
    const v = this.getProp(recv, name, st);
    return v && (v.k === 'fn' || v.k === 'alt') ? v : null;
  }
  builtinMember(e, recv, name, args, st, ctx, fv) {
    if (name === null) return null;
    if (fv && fv.k === 'fn' && fv.member) return null;
    if (recv.k === 'root' && recv.key === 'ext:Object') {
      if (name === 'assign') { const t = args[0]; if (t) { for (const s of args.slice(1)) this.assignAll(t, s, st, e, ctx, t.k === 'obj'); return this.one(st, t); } }
      if (name === 'keys' || name === 'values' || name === 'entries') {
        const o = args[0];
        if (o && o.k === 'obj' && !o.cls && !st.heap.get(o.key + '!spread')) {
          const pr = []; for (const [k, v] of st.heap) if (k.startsWith(o.key + '.')) pr.push([k.slice(o.key.length + 1), v]);
          if (pr.every(x => !x[0].startsWith('['))) return this.one(st, this.newArr(st, pr.map(x => name === 'keys' ? V.lit(x[0]) : name === 'values' ? x[1] : this.newArr(st, [V.lit(x[0]), x[1]]))));
        }
        if (o && o.globalInit && ts.isObjectLiteralExpression(unparen(o.globalInit))) {
          const ps = unparen(o.globalInit).properties.map(p => propName(p.name));
          if (ps.every(x => x !== null)) return this.one(st, this.newArr(st, ps.map(x => name === 'keys' ? V.lit(x) : name === 'values' ? this.getProp(o, x, st) : this.newArr(st, [V.lit(x), this.getProp(o, x, st)]))));
        }
        return this.one(st, V.app('Object.' + name, [o || UNDEF]));
      }
      return null;
    }
    if (recv.k === 'root' && recv.key === 'ext:Array') {
      if (name === 'from' && args[0]) return this.one(st, args.length > 1 ? V.app('array', [args[0]]) : this.arrayOf(args[0], st));
      if (name === 'isArray' && args[0]) return this.one(st, this.typeTest('isArray', args[0], st));
    }
    if (recv.k === 'fn' || (recv.k === 'path' && (name === 'call' || name === 'apply' || name === 'bind'))) {
      if (name === 'bind') return this.one(st, V.app('bind', [recv, ...args, V.lit('b' + (++uid))], { fresh: true, bound: recv, boundThis: args[0] }));
      if (recv.k === 'fn' && name === 'call') return this.callFn(e, ts.isArrowFunction(recv.node) ? recv : Object.assign({}, recv, { thisVal: args[0] || UNDEF }), args.slice(1), st, ctx);
      if (recv.k === 'fn' && name === 'apply') { const l = args[1] && args[1].k === 'arr' ? st.heap.get(args[1].key + '!elems') : null; return this.callFn(e, ts.isArrowFunction(recv.node) ? recv : Object.assign({}, recv, { thisVal: args[0] || UNDEF }), l || (args[1] ? [V.app('spread', [args[1]])] : []), st, ctx); }
    }
    const cb = args[0];
    const cbFn = cb && (cb.k === 'fn' || cb.k === 'app' && cb.bound && cb.bound.k === 'fn') ? (cb.k === 'fn' ? cb : Object.assign({}, cb.bound, { thisVal: cb.boundThis })) : null;
    if (ITER_FNS.has(name) && cbFn && !this.clsOf(recv)) return this.iterCall(e, recv, name, cbFn, args, st, ctx);
    if (recv.k === 'arr') {
      const el = st.heap.get(recv.key + '!elems') || [];
      const open = st.heap.get(recv.key + '!open');
      if (name === 'push' || name === 'unshift') { const add = args; if (this.opts.onWrite) this.opts.onWrite({ base: recv, prop: '[push]', value: args[0], old: UNDEF, node: e, st, ctx }); st.heap.set(recv.key + '!elems', name === 'push' ? [...el, ...add] : [...add, ...el]); if (add.some(x => x.k === 'app' && x.name === 'spread') || ctx.inLoop) st.heap.set(recv.key + '!open', TRUE); return this.one(st, V.path(recv, 'length')); }
      if (name === 'concat') { const all = [...el]; let op = !!open; for (const x of args) { const l = x.k === 'arr' ? st.heap.get(x.key + '!elems') : null; if (l) { all.push(...l); if (st.heap.get(x.key + '!open')) op = true; } else { all.push(V.app('spread', [x])); op = true; } } return this.one(st, this.newArr(st, all, op)); }
      if (name === 'slice' || name === 'reverse') return this.one(st, this.newArr(st, el, true));
      if (name === 'includes' && args[0] && !open && el.every(x => x.k === 'lit')) { if (args[0].k === 'lit') return this.one(st, V.lit(el.some(x => x.v === args[0].v))); }
      if (name === 'indexOf' && args[0] && !open && el.every(x => x.k === 'lit') && args[0].k === 'lit') return this.one(st, V.lit(el.findIndex(x => x.v === args[0].v)));
      if (name === 'join' || name === 'includes' || name === 'indexOf' || name === 'keys') return this.one(st, V.app(name, [recv, ...args]));
    }
    if (name === 'concat' && args.length && !this.clsOf(recv)) {
      const all = [V.app('spread', [recv])];
      for (const x of args) { const l = x.k === 'arr' ? st.heap.get(x.key + '!elems') : null; if (l) all.push(...l); else all.push(V.app('spread', [x])); }
      return this.one(st, this.newArr(st, all, true));
    }
    if (name === 'slice' && !args.length && !this.clsOf(recv)) return this.one(st, V.app('slice', [recv]));
    return null;
  }
  iterCall(e, recv, name, cb, args, st, ctx) {
    // callbacks run once per (symbolic or known) element
    const known = recv.k === 'arr' ? st.heap.get(recv.key + '!elems') : null;
    const results = new Map(); // not path-precise: gathered per state via list on heap
    const acc = this.newArr(st, []);
    const inner = Object.assign({}, ctx, { inLoop: true });
    const run = (state, el) => {
      const isMapSet = false;
      const a = name === 'reduce' || name === 'reduceRight' ? [state.heap.get(acc.key + '!red') || args[1] || V.root('?red'), el, V.root('loopvar')] : name === 'sort' ? [V.path(recv, '[a]'), V.path(recv, '[b]')] : [el, this.keyForElem(recv, el), recv];
      const rs = this.callFn(e, cb, a, state, inner);
      for (const r of rs) {
        if (name === 'reduce' || name === 'reduceRight') r.st.heap.set(acc.key + '!red', r.v);
        else if (name === 'map' || name === 'flatMap') r.st.heap.set(acc.key + '!elems', [...(r.st.heap.get(acc.key + '!elems') || []), r.v]);
        else if (name === 'filter') { const t = this.truth(r.v, r.st); if (t !== false) r.st.heap.set(acc.key + '!elems', [...(r.st.heap.get(acc.key + '!elems') || []), el]); }
        else if (name === 'find') { const t = this.truth(r.v, r.st); if (t !== false) r.st.heap.set(acc.key + '!found', el); }
        else if (name === 'some' || name === 'every') r.st.heap.set(acc.key + '!res', [...(r.st.heap.get(acc.key + '!res') || []), r.v]);
      }
      return { go: rs.map(r => r.st), stop: [] };
    };
    const res = this.iterate(recv, st, run);
    const open = !known || st.heap.get(recv.key + '!open');
    return res.map(x => {
      let v = UNDEF;
      if (name === 'map' || name === 'flatMap' || name === 'filter') {
        if (name === 'filter' && !known) v = V.app('filter', [recv, V.root(this.cbKey(cb))]);
        else { if (open) x.heap.set(acc.key + '!open', TRUE); v = acc; }
      } else if (name === 'find') v = V.alt([UNDEF, x.heap.get(acc.key + '!found') || UNDEF]);
      else if (name === 'reduce' || name === 'reduceRight') v = x.heap.get(acc.key + '!red') || args[1] || V.root('?red');
      else if (name === 'some' || name === 'every') { v = V.app(name, [recv, V.root(this.cbKey(cb))]); }
      else if (name === 'sort') v = recv;
      else if (name === 'findIndex') v = V.app(name, [recv]);
      return { st: x, v };
    });
  }
  cbKey(cb) { return 'cb@' + this.p.nid(cb.node); }
  keyForElem(recv, el) { return V.root('loopvar'); }
  callTargets(e, targets, recv, args, st, ctx, name, isSuper) {
    let ts2 = (targets || []).filter(t => t.body);
    if (!ts2.length) return this.opaqueCall(e, name, recv, args, st, ctx, []);
    const rel = ts2.filter(t => this.shouldInline(t, ctx, false));
    const relevantOnes = ts2.filter(t => this.relevant.has(t));
    if (!rel.length || (ts2.length > this.opts.maxTargets) || (ts2.length > 1 && !relevantOnes.length)) {
      return this.opaqueCall(e, name, recv, args, st, ctx, ts2);
    }
    const out = [];
    const skipped = ts2.length > rel.length;
    if (skipped) out.push(...this.opaqueCall(e, name, recv, args, st.clone(), ctx, ts2));
    rel.forEach((t, i) => {
      const cls = isSuper ? ctx.cls : this.clsOf(recv) || (recv && recv.key === 'this' ? ctx.cls : null) || this.enclCls(t);
      out.push(...this.inline(t, isSuper ? ctx.thisVal : recv, args, i === rel.length - 1 ? st : st.clone(), ctx, cls, e));
    });
    return out;
  }
  inline(fn, thisVal, args, st, ctx, cls, node, lexCtx) {
    this.inlined.add(fn);
    let tv = thisVal;
    const nctx = { fnNode: fn, frame: this.frame(), parent: lexCtx || null, thisVal: tv || null, cls: cls || null, depth: ctx.depth + 1, stack: [...ctx.stack, fn], argc: null, caller: node, callerCtx: ctx, inLoop: ctx.inLoop && !!lexCtx };
    this.bindParams(fn, args, st, nctx, false);
    const res = this.execBody(fn, [st], nctx);
    for (const r of res) {
      // drop locals unless captured by a closure value
      if (!r.st._keep) { const pre = nctx.frame + ':'; const caps = this.hasNested(fn); if (!caps) for (const k of r.st.vars.keys()) if (k.startsWith(pre)) r.st.vars.delete(k); }
    }
    return this.compact(res.map(r => ({ st: r.st, v: r.v, implicit: r.implicit })), x => x.st, x => x.v.key);
  }
  hasNested(fn) { if (!this._nest) this._nest = new Map(); if (this._nest.has(fn)) return this._nest.get(fn); let h = false; const v = n => { if (h) return; if (isFn(n)) { h = true; return; } ts.forEachChild(n, v); }; ts.forEachChild(fn.body, v); this._nest.set(fn, h); return h; }
  opaqueCall(e, name, recv, args, st, ctx, targets) {
    this.opaque.set(name, (this.opaque.get(name) || 0) + 1);
    if (this.opts.onOpaque) { const r = this.opts.onOpaque({ node: e, name, recv, args, st, ctx, targets }); if (r) return r.results || this.one(st, r.value); }
    const pure = PURE_LIB.test(name || '') || (this.opts.pure && this.opts.pure(name, targets));
    const all = recv ? [recv, ...args] : args;
    const cls = this.returnClass(e);
    // a call that syntactically returns its receiver (fluent API)
    if (pure) return this.one(st, Object.assign(V.app(name, all), cls ? { cls } : {}));
    return this.one(st, Object.assign(V.app(name || '?', [...all, V.root('@' + this.p.nid(e) + (this.opts.callIdentity === 'site' ? '' : '/' + ctx.frame))]), cls ? { cls } : {}));
  }
  returnClass() { return null; }
}
// does the fact (k, v) say that the value named by subject (a key) is falsy, nil, empty or zero?
const saysEmpty = (k, v, subject) => {
  const m = /^(T|N|NE|E)\|([\s\S]*)$/.exec(k); if (!m) return false;
  const b = m[2];
  if (m[1] === 'N') return b === subject && v === true;
  if (m[1] === 'NE') return b === subject && v === false;
  const Z = ['L:number:0', 'L:boolean:false', 'L:undefined:undefined', 'L:object:null'];
  if (m[1] === 'E') return v === true && Z.some(z => b === subject + '|' + z || b === z + '|' + subject);
  if (b === subject) return v === false;
  const is = (op, l, r) => b === `${op}(${l},${r})`;
  const s = subject, z = 'L:number:0', o = 'L:number:1';
  if (is('>', s, z) || is('<', z, s) || is('>=', s, o) || is('<=', o, s) || is('!==', s, z) || is('!=', s, z) || is('!==', z, s) || is('!=', z, s)) return v === false;
  if (is('<=', s, z) || is('>=', z, s) || is('<', s, o) || is('>', o, s) || is('===', s, z) || is('==', s, z) || is('===', z, s) || is('==', z, s)) return v === true;
  return false;
};
module.exports = { saysEmpty, Interp, State, V, UNDEF, NULL, TRUE, FALSE, alts };
