'use strict';
// Inclusion-based points-to and mutation analysis: flow-sensitive for local variables, flow-insensitive (monotone) for the heap,
// one context per call site for plain functions and per receiver object for methods, iterated to a fixpoint.
// Result: for every abstract object the set of program points that may modify it.
const { ts, SK, isFn, unparen, propName } = require('./program');
const EMPTY = new Set();
const MUTATORS = new Set(['push', 'unshift', 'splice', 'sort', 'reverse', 'fill', 'copyWithin', 'pop', 'shift']);
const PRIM_FNS = /^(is[A-Z]\w*|has|keys|toNumber|toString|max|min|abs|floor|ceil|round|sqrt|pow|sin|cos|tan|atan2|acos|asin|parseFloat|parseInt|String|Number|Boolean|includes|indexOf|join|startsWith|endsWith|charAt|substring|split|trim|toLowerCase|toUpperCase|replace|test|degreeToRadian|radianToDegree|clamp|maxInArray|minInArray|getTime|now|random|toFixed|hasOwnProperty|getOwnPropertyNames|log|warn|error|info|debug|charCodeAt|isArray|stringify|measureText|quantileSorted|median)$/;
class PTA {
  constructor(p, opts = {}) {
    this.p = p; this.opts = Object.assign({ maxInputDepth: 4, instCap: 12000 }, opts);
    this.objs = []; this.byKey = new Map(); this.insts = new Map(); this.order = []; this.changed = false;
    this.muts = new Map(); this.varWrites = new Map(); this.globals = new Map(); this.modInsts = new Map();
    this.EXT = this.obj('EXT', 'ext', null); this.EXTS = new Set([this.EXT]);
  }
  obj(key, kind, node, extra) {
    let o = this.byKey.get(key);
    if (!o) { o = Object.assign({ key, kind, node, fields: new Map(), id: this.objs.length }, extra || {}); this.byKey.set(key, o); this.objs.push(o); }
    return o;
  }
  input(name) { return this.obj('in:' + name, 'input', null, { depth: 0, path: name }); }
  // ------------------------------------------------------------ sets
  addAll(dst, src) { let c = false; for (const x of src) if (!dst.has(x)) { dst.add(x); c = true; } if (c) this.changed = true; return c; }
  union(a, b) { if (!a || !a.size) return b || EMPTY; if (!b || !b.size) return a; if (a === b) return a; const s = new Set(a); for (const x of b) s.add(x); return s; }
  fld(o, f) { let s = o.fields.get(f); if (!s) { s = new Set(); o.fields.set(f, s); } return s; }
  // objects that hold nothing of interest are not handed across function boundaries in sharedOnly mode
  thin(set) { if (!this.opts.sharedOnly) return set; let drop = false; for (const x of set) if (x.kind === 'alloc' && !x.shared && !x.fields.size) { drop = true; break; } return drop ? new Set([...set].filter(x => !(x.kind === 'alloc' && !x.shared && !x.fields.size))) : set; }
  put(o, f, vals) {
    if (o.kind === 'ext') return;
    if (this.opts.sharedOnly) { vals = o.shared || o.kind === 'cls' ? new Set([...vals].filter(x => x.shared || x.kind === 'fn' || x.kind === 'cls')) : new Set([...vals].filter(x => x.shared ? !this.hollow(x) : x.kind === 'alloc' && x.fields.size)); if (!vals.size) return; }
    this.addAll(this.fld(o, f), vals);
  }
  write(set, f, val, node, inst, how) {
    for (const o of set) {
      if (o.kind === 'ext') { this.put(o, f, val); continue; }
      if (o.kind === 'prim') continue;
      if (o.kind === 'input') { this.mutate(o, f, node, inst, how || 'store'); if (val.size && o.depth < this.opts.maxInputDepth) this.put(o, f, val); continue; }
      this.mutate(o, f, node, inst, how || 'store', val);
      if (val.size) this.put(o, f, val);
    }
  }
  mutate(o, f, node, inst, how, val) {
    if (o.kind === 'fn' ) return;
    if (this.opts.sharedOnly && how.startsWith('merge') && this.primArray(o)) return;
    const k = o.id + '|' + this.p.nid(node) + '|' + f;
    if (!this.muts.has(k)) this.muts.set(k, { o, f, node, inst, how });
  }
  read(set, f, inst, node) {
    let r = new Set();
    for (const o of set) for (const x of this.readObj(o, f, inst, node)) r.add(x);
    return r;
  }
  // f: a field name, '[]' = some field or element (dynamic key), '#' = some element (numeric index, iteration)
  readObj(o, f, inst, node) {
    if (o.kind === 'ext') { if (!this.opts.sharedOnly) return this.EXTS; const q = o.fields.get(f === '#' ? '[]' : f); return q && q.size ? this.union(q, this.EXTS) : this.EXTS; }
    const elem = f === '#';
    if (elem) f = '[]';
    const r = new Set();
    if (o.kind === 'input') {
      if (o.depth >= this.opts.maxInputDepth) { r.add(o); } else {
        if (f === 'length') return EMPTY;
        const c = this.obj(o.key + '.' + f, 'input', null, { depth: o.depth + 1, path: o.path + (f === '[]' ? '[]' : '.' + f), parent: o });
        r.add(c);
      }
      const s = o.fields.get(f); if (s) for (const x of s) r.add(x);
      return r;
    }
    const s = o.fields.get(f);
    if (s) for (const x of s) r.add(x);
    if (f === '[]') { if (!elem && !(this.opts.sharedOnly && !o.shared)) for (const [k, v] of o.fields) if (k !== '[]') for (const x of v) r.add(x); }
    else if (!(o.literal && ts.isArrayLiteralExpression(o.literal)) || /^\d+$/.test(f)) { const d = o.fields.get('[]'); if (d) for (const x of d) r.add(x); }
    if (o.cls && o.kind !== 'cls') {
      const m = this.p.member(o.cls, f);
      if (m && m.fn) r.add(this.fnObj(m.fn, null, o));
      else if (m && m.kind === 'accessor' && m.getter && m.getter.body) for (const x of this.call(m.getter, new Set([o]), [], null, 'get' + o.id, node)) r.add(x);
    }
    if (o.kind === 'cls') {
      for (let c = o.cls; c; c = c.base) {
        const m = c.statics.get(f);
        if (m) {
          if (m.fn) r.add(this.fnObj(m.fn, null, o));
          else { const co = this.clsObj(c); if (m.init && !co['init_' + f]) { co['init_' + f] = true; const mi = this.modInst(m.node.getSourceFile()); const v = this.ev(m.init, mi.env, mi); this.put(co, f, v); } const q = co.fields.get(f); if (q) for (const x of q) r.add(x); }
          break;
        }
      }
    }
    if (o.tplOf) for (const x of this.readObj(o.tplOf, elem ? '#' : f, inst, node)) r.add(x);
    return r;
  }
  clsObj(c) { return this.obj('cls:' + c.name + '@' + c.node.pos + '@' + c.node.getSourceFile().fileName, 'cls', c.node, { cls: c }); }
  fnObj(node, parentInst, thisObj) { return this.obj('fn:' + this.p.nid(node) + '|' + (parentInst ? parentInst.id : '') + '|' + (thisObj ? thisObj.id : ''), 'fn', node, { parentInst, thisObj }); }
  sharedIn(set) { const r = new Set(); for (const x of set) if (x.shared && !this.hollow(x)) r.add(x); return r; }
  // containers that start empty are registries, not default tables: followed through variables and calls, not through the heap
  hollow(o) {
    if (o.hollow === undefined) {
      const e = o.node && unparen(o.node);
      const emp = n => { n = unparen(n); return ts.isObjectLiteralExpression(n) ? n.properties.length === 0 : ts.isArrayLiteralExpression(n) ? n.elements.every(emp) : ts.isNewExpression(n) && !(n.arguments && n.arguments.length); };
      o.hollow = !!e && emp(e);
    }
    return o.hollow;
  }
  // in sharedOnly mode one object per allocation site; only shared and allocated objects are kept in fields
  alloc(node, inst, tag) { return this.obj('al:' + this.p.nid(node) + '|' + inst.id + (tag ? '|' + tag : ''), 'alloc', node, { shared: !!inst.isModule }); }
  instOf(cls, node, inst) {
    const o = this.obj('new:' + (node ? this.p.nid(node) + '|' + (inst ? inst.id : '') : 'summary') + '|' + cls.name + '@' + cls.node.pos, 'inst', node || cls.node, { cls, shared: !!(inst && inst.isModule) });
    if (!o.inited) {
      o.inited = true;
      for (const c of this.p.mro(cls)) for (const m of c.members.values()) if (m.kind === 'prop' && m.init && !m.declared) {
        const ii = this.getInst(m.node, 'init' + o.id, null, new Set([o]), null);
        const v = this.ev(m.init, ii.env, ii);
        this.put(o, m.name, v);
      }
    }
    return o;
  }
  modInst(sf) {
    let i = this.modInsts.get(sf);
    if (!i) { i = { id: 'm' + this.modInsts.size, fn: sf, env: new Map(), cells: new Map(), isModule: true, thisSet: EMPTY, params: [], ret: new Set(), parent: null, sf }; this.modInsts.set(sf, i); }
    return i;
  }
  getInst(fn, ctx, parent, thisSet, _) {
    const key = this.p.nid(fn) + '|' + ctx;
    let i = this.insts.get(key);
    if (!i) { i = { id: this.insts.size, key, fn, env: new Map(), cells: new Map(), thisSet: new Set(), params: [], ret: new Set(), parent }; this.insts.set(key, i); if (isFn(fn)) this.order.push(i); this.changed = true; }
    if (thisSet) this.addAll(i.thisSet, thisSet);
    return i;
  }
  // ------------------------------------------------------------ driver
  entry(fn, params, thisSet, ctx = 'entry') {
    const i = this.getInst(fn, ctx, null, thisSet || EMPTY);
    fn.parameters.forEach((x, k) => { i.params[k] = i.params[k] || new Set(); this.addAll(i.params[k], params[k] || this.EXTS); });
    return i;
  }
  solve(maxPasses = 30) {
    let n = 0;
    do { this.changed = false; n++; for (let k = 0; k < this.order.length; k++) this.exec(this.order[k]); } while (this.changed && n < maxPasses);
    this.passes = n; this.converged = !this.changed;
    return this;
  }
  exec(inst) {
    const fn = inst.fn, env = new Map();
    inst.env = env;
    fn.parameters.forEach((p, k) => {
      let v = inst.params[k] || EMPTY;
      if (p.dotDotDotToken) v = inst.rest || EMPTY;
      if (p.initializer) v = this.union(v, this.ev(p.initializer, env, inst));
      this.bind(p.name, v, env, inst);
    });
    if (!ts.isBlock(fn.body)) { this.addAll(inst.ret, this.thin(this.ev(fn.body, env, inst))); return; }
    this.block(fn.body.statements, env, inst);
  }
  // ------------------------------------------------------------ variables
  ownerOf(decl) { let f = decl.parent; while (f && !isFn(f) && !ts.isSourceFile(f)) { if (ts.isPropertyDeclaration(f) && !isFn(f)) { /* initializer */ } f = f.parent; } return f; }
  nestedAssigned(decl, owner) {
    if (!this._na) this._na = new Map();
    if (this._na.has(decl)) return this._na.get(decl);
    let r = false;
    if (owner && isFn(owner) && decl.name && ts.isIdentifier(decl.name)) {
      const nm = decl.name.text;
      const v = (n, inNested) => {
        if (r) return;
        if (inNested && ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment && ts.isIdentifier(unparen(n.left)) && unparen(n.left).text === nm) { const s = this.p.symbolOf(n.left); if (s && s.valueDeclaration === decl) r = true; }
        ts.forEachChild(n, c => v(c, inNested || (isFn(n) && n !== owner)));
      };
      v(owner, false);
    }
    this._na.set(decl, r);
    return r;
  }
  declOf(id) { const s = this.p.symbolOf(id); return s && (s.valueDeclaration || (s.declarations && s.declarations[0])) || null; }
  instFor(owner, inst) { for (let i = inst; i; i = i.parent) if (i.fn === owner) return i; return null; }
  setVar(decl, val, env, inst, node) {
    const owner = this.ownerOf(decl);
    if (!owner || ts.isSourceFile(owner)) {
      if (!inst.isModule) { const k = this.p.nid(decl) + '|' + this.p.nid(node || decl); if (!this.varWrites.has(k)) this.varWrites.set(k, { decl, node: node || decl, inst }); }
      this.addAll(this.globalCell(decl), val); return;
    }
    const oi = this.instFor(owner, inst);
    if (oi) { let c = oi.cells.get(decl); if (!c) { c = new Set(); oi.cells.set(decl, c); } this.addAll(c, val); if (oi === inst) env.set(decl, val); }
  }
  globalCell(decl) { let c = this.globals.get(decl); if (!c) { c = new Set(); this.globals.set(decl, c); } return c; }
  getVar(id, env, inst) {
    if (id.text === 'undefined') return EMPTY;
    const d = this.declOf(id);
    return d ? this.getDecl(d, env, inst) : this.EXTS;
  }
  getDecl(d, env, inst) {
    if (ts.isFunctionDeclaration(d)) { if (!d.body) { const f = (this.p.checker.getSymbolAtLocation(d.name).declarations || []).find(x => x.body); if (!f) return this.EXTS; d = f; } const ow = this.ownerOf(d); return new Set([this.fnObj(d, ow && isFn(ow) ? this.instFor(ow, inst) : null, null)]); }
    if (ts.isClassDeclaration(d)) { const c = this.p.classBySymbol.get(this.p.checker.getSymbolAtLocation(d.name)); return c ? new Set([this.clsObj(c)]) : this.EXTS; }
    if (ts.isEnumDeclaration(d)) return EMPTY;
    const owner = this.ownerOf(d);
    if (!owner || ts.isSourceFile(owner)) {
      if (!this.p.inRepo(d)) return this.EXTS;
      const cell = this.globalCell(d);
      if (ts.isVariableDeclaration(d) && d.initializer && !d._ptaDone) { (this._gd = this._gd || new Set()); if (!this._gd.has(d)) { this._gd.add(d); const mi = this.modInst(d.getSourceFile()); this.addAll(cell, this.ev(d.initializer, mi.env, mi)); } }
      return cell;
    }
    const oi = this.instFor(owner, inst);
    if (!oi) return EMPTY;
    if (oi === inst && !this.nestedAssigned(d, owner)) { const v = env.get(d); if (v) return v; }
    return oi.cells.get(d) || EMPTY;
  }
  bind(name, v, env, inst) {
    if (ts.isIdentifier(name)) { this.setVar(name.parent, v, env, inst, name); return; }
    for (const e of name.elements) {
      if (ts.isOmittedExpression(e)) continue;
      let x;
      if (ts.isObjectBindingPattern(name)) {
        if (e.dotDotDotToken) { const o = this.alloc(e, inst); for (const s of v) this.copyFields(o, s); x = new Set([o]); }
        else { const pn = propName(e.propertyName || e.name); x = this.read(v, pn === null ? '[]' : pn, inst, e); }
      } else if (e.dotDotDotToken) { const o = this.alloc(e, inst); this.put(o, '[]', this.read(v, '#', inst, e)); x = new Set([o]); }
      else x = this.read(v, '#', inst, e);
      if (e.initializer) x = this.union(x, this.ev(e.initializer, env, inst));
      this.bind(e.name, x, env, inst);
    }
  }
  copyFields(dst, src) {
    if (src === dst) return;
    if (dst.kind === 'ext') { if (this.opts.sharedOnly) for (const [f, s] of src.fields) this.put(dst, f, s); return; }
    if (src.kind === 'ext') { if (this.opts.sharedOnly) return; this.put(dst, '[]', this.EXTS); return; }
    if (src.kind === 'input') { dst.tplOf = dst.tplOf || src; if (dst.tplOf !== src) this.put(dst, '[]', this.readObj(src, '[]')); return; }
    for (const [f, s] of src.fields) this.put(dst, f, s);
    if (src.tplOf) this.copyFields(dst, src.tplOf);
  }
  // ------------------------------------------------------------ statements
  join(a, b) { // into a
    if (!b) return a;
    for (const [k, v] of b) { const w = a.get(k); a.set(k, w ? this.union(w, v) : v); }
    return a;
  }
  same(a, b) { if (a.size !== b.size) return false; for (const [k, v] of a) { const w = b.get(k); if (!w || w.size !== v.size) return false; } return true; }
  block(stmts, env, inst) { let e = env; for (const s of stmts) if (ts.isFunctionDeclaration(s)) { /* read through getDecl */ } for (const s of stmts) { e = this.stmt(s, e, inst); if (!e) return null; } return e; }
  stmt(s, env, inst) {
    switch (s.kind) {
      case SK.Block: return this.block(s.statements, env, inst);
      case SK.ExpressionStatement: this.ev(s.expression, env, inst); return env;
      case SK.VariableStatement: for (const d of s.declarationList.declarations) this.varDecl(d, env, inst); return env;
      case SK.ReturnStatement: if (s.expression) this.addAll(inst.ret, this.thin(this.ev(s.expression, env, inst))); return null;
      case SK.ThrowStatement: this.ev(s.expression, env, inst); return null;
      case SK.IfStatement: {
        this.ev(s.expression, env, inst);
        const a = this.stmt(s.thenStatement, new Map(env), inst);
        const b = s.elseStatement ? this.stmt(s.elseStatement, new Map(env), inst) : env;
        if (!a) return b; if (!b) return a;
        return this.join(a, b);
      }
      case SK.ForStatement: case SK.WhileStatement: case SK.DoStatement: {
        let e = env;
        if (ts.isForStatement(s) && s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) for (const d of s.initializer.declarations) this.varDecl(d, e, inst); else this.ev(s.initializer, e, inst); }
        return this.loop(e, inst, x => { const c = ts.isForStatement(s) ? s.condition : s.expression; if (c) this.ev(c, x, inst); const r = this.stmt(s.statement, x, inst) || x; if (ts.isForStatement(s) && s.incrementor) this.ev(s.incrementor, r, inst); return r; });
      }
      case SK.ForOfStatement: case SK.ForInStatement: {
        const c = this.ev(s.expression, env, inst);
        return this.loop(env, inst, x => {
          const el = ts.isForInStatement(s) ? EMPTY : this.read(c, '#', inst, s);
          if (ts.isVariableDeclarationList(s.initializer)) this.bind(s.initializer.declarations[0].name, el, x, inst); else this.assign(s.initializer, el, x, inst, s);
          return this.stmt(s.statement, x, inst) || x;
        });
      }
      case SK.SwitchStatement: {
        this.ev(s.expression, env, inst);
        let out = new Map(env), cur = null;
        for (const c of s.caseBlock.clauses) {
          if (ts.isCaseClause(c)) this.ev(c.expression, env, inst);
          const st = new Map(env); if (cur) this.join(st, cur);
          this.brk = this.brk || []; const save = this.brk; this.brk = [];
          cur = this.block(c.statements, st, inst);
          for (const b of this.brk) this.join(out, b);
          this.brk = save;
        }
        if (cur) this.join(out, cur);
        return out;
      }
      case SK.BreakStatement: case SK.ContinueStatement: if (this.brk) this.brk.push(new Map(env)); return null;
      case SK.TryStatement: {
        const before = new Map(env);
        const a = this.stmt(s.tryBlock, env, inst);
        let r = a ? this.join(new Map(a), before) : before;
        if (s.catchClause) { if (s.catchClause.variableDeclaration) this.bind(s.catchClause.variableDeclaration.name, this.EXTS, r, inst); const b = this.stmt(s.catchClause.block, new Map(r), inst); r = a ? (b ? this.join(b, a) : a) : b; }
        if (s.finallyBlock) r = this.stmt(s.finallyBlock, r || before, inst);
        return r;
      }
      case SK.LabeledStatement: return this.stmt(s.statement, env, inst);
      default: return env;
    }
  }
  loop(env, inst, body) {
    let e = new Map(env);
    for (let k = 0; k < 4; k++) {
      const before = new Map(e);
      const save = this.brk; this.brk = [];
      const r = body(new Map(e));
      for (const b of this.brk) this.join(e, b);
      this.brk = save;
      if (r) this.join(e, r);
      if (this.same(before, e)) break;
    }
    return e;
  }
  varDecl(d, env, inst) { if (d.initializer) this.bind(d.name, this.ev(d.initializer, env, inst), env, inst); else if (ts.isIdentifier(d.name)) env.set(d, EMPTY); }
  assign(L, v, env, inst, node) {
    L = unparen(L);
    if (ts.isIdentifier(L)) { const d = this.declOf(L); if (d) this.setVar(d, v, env, inst, node); return; }
    if (ts.isPropertyAccessExpression(L)) {
      const b = this.ev(L.expression, env, inst);
      if (L.name.text === 'length') { for (const o of b) this.mutate(o, 'length', node, inst, 'length'); return; }
      // setters
      for (const o of b) if (o.cls && o.kind !== 'cls') { const m = this.p.member(o.cls, L.name.text); if (m && m.setter && m.setter.body) this.call(m.setter, new Set([o]), [v], null, 'set' + o.id, node); }
      this.write(b, L.name.text, v, node, inst); return;
    }
    if (ts.isElementAccessExpression(L)) { const b = this.ev(L.expression, env, inst); this.ev(L.argumentExpression, env, inst); const c = this.p.constOf(L.argumentExpression); this.write(b, typeof c === 'string' ? c : '[]', v, node, inst); return; }
    if (ts.isArrayLiteralExpression(L)) { const x = this.read(v, '#', inst, L); for (const e of L.elements) if (!ts.isOmittedExpression(e)) this.assign(ts.isSpreadElement(e) ? e.expression : ts.isBinaryExpression(e) ? e.left : e, x, env, inst, node); return; }
    if (ts.isObjectLiteralExpression(L)) for (const pr of L.properties) { if (ts.isShorthandPropertyAssignment(pr)) { const s = this.p.checker.getShorthandAssignmentValueSymbol(pr); if (s && s.valueDeclaration) this.setVar(s.valueDeclaration, this.read(v, pr.name.text, inst, L), env, inst, node); } else if (ts.isPropertyAssignment(pr)) this.assign(pr.initializer, this.read(v, propName(pr.name) || '[]', inst, L), env, inst, node); }
  }
  // ------------------------------------------------------------ expressions
  numKey(e) { try { const t = this.p.checker.getTypeAtLocation(e); return !!t && !!(t.flags & ts.TypeFlags.NumberLike); } catch (x) { return false; } }
  // expressions of primitive static type carry no object
  prim(e) {
    if (!this._prim) this._prim = new Map();
    let r = this._prim.get(e);
    if (r === undefined) {
      r = false;
      try {
        const t = this.p.checker.getTypeAtLocation(e);
        const P = ts.TypeFlags.NumberLike | ts.TypeFlags.StringLike | ts.TypeFlags.BooleanLike | ts.TypeFlags.Undefined | ts.TypeFlags.Null | ts.TypeFlags.Void | ts.TypeFlags.BigIntLike | ts.TypeFlags.ESSymbolLike | ts.TypeFlags.EnumLike;
        r = !!t && (t.isUnion() ? t.types.every(x => x.flags & P) : !!(t.flags & P));
      } catch (x) { r = false; }
      this._prim.set(e, r);
    }
    return r;
  }
  primArray(o) { if (o.primArr === undefined) o.primArr = !!(o.literal && ts.isArrayLiteralExpression(o.literal) && o.literal.elements.length && o.literal.elements.every(x => !ts.isSpreadElement(x) && this.prim(unparen(x)))); return o.primArr; }
  // static type is an array of objects
  objElems(e) {
    if (!this._oe) this._oe = new Map();
    let r = this._oe.get(e);
    if (r === undefined) {
      r = false;
      try { const t = this.p.checker.getTypeAtLocation(e); const el = t && this.p.checker.isArrayType(t) && this.p.checker.getTypeArguments(t)[0]; r = !!el && !!(el.flags & ts.TypeFlags.Object); } catch (x) { r = false; }
      this._oe.set(e, r);
    }
    return r;
  }
  ev(e0, env, inst) {
    const v = this.ev1(e0, env, inst);
    if (v.size) { const e = unparen(e0); const k = e.kind; if ((k === SK.PropertyAccessExpression || k === SK.ElementAccessExpression || k === SK.Identifier || k === SK.CallExpression) && this.prim(e)) return EMPTY;
      if (this.opts.sharedOnly && v.size && this.objElems(e)) for (const o of v) if (this.primArray(o)) { const r = new Set(); for (const x of v) if (!this.primArray(x)) r.add(x); return r; } }
    return v;
  }
  ev1(e0, env, inst) {
    const e = unparen(e0);
    if (!e) return EMPTY;
    switch (e.kind) {
      case SK.StringLiteral: case SK.NumericLiteral: case SK.TrueKeyword: case SK.FalseKeyword: case SK.NullKeyword: case SK.NoSubstitutionTemplateLiteral: case SK.RegularExpressionLiteral: return EMPTY;
      case SK.ThisKeyword: { for (let i = inst; i; i = i.parent) if (!i.fn || !ts.isArrowFunction(i.fn)) return i.thisSet || EMPTY; return inst.thisSet || EMPTY; }
      case SK.Identifier: return this.getVar(e, env, inst);
      case SK.TemplateExpression: for (const s of e.templateSpans) this.ev(s.expression, env, inst); return EMPTY;
      case SK.PropertyAccessExpression: {
        if (unparen(e.expression).kind === SK.SuperKeyword) return EMPTY;
        return this.read(this.ev(e.expression, env, inst), e.name.text, inst, e);
      }
      case SK.ElementAccessExpression: { const b = this.ev(e.expression, env, inst); this.ev(e.argumentExpression, env, inst); const c = this.p.constOf(e.argumentExpression); return this.read(b, typeof c === 'string' ? c : this.numKey(e.argumentExpression) ? '#' : '[]', inst, e); }
      case SK.ConditionalExpression: { this.ev(e.condition, env, inst); const a = this.ev(e.whenTrue, env, inst); return this.union(a, this.ev(e.whenFalse, env, inst)); }
      case SK.BinaryExpression: {
        const op = e.operatorToken.kind;
        if (op === SK.EqualsToken) { const v = this.ev(e.right, env, inst); this.assign(e.left, v, env, inst, e); return v; }
        if (op >= SK.FirstCompoundAssignment && op <= SK.LastCompoundAssignment) {
          const l = this.ev(e.left, env, inst), r = this.ev(e.right, env, inst);
          const keep = op === SK.BarBarEqualsToken || op === SK.QuestionQuestionEqualsToken || op === SK.AmpersandAmpersandEqualsToken;
          const v = keep ? this.union(l, r) : EMPTY; this.assign(e.left, v, env, inst, e); return v;
        }
        const l = this.ev(e.left, env, inst), r = this.ev(e.right, env, inst);
        if (op === SK.AmpersandAmpersandToken || op === SK.CommaToken) return r;
        if (op === SK.BarBarToken || op === SK.QuestionQuestionToken) return this.union(l, r);
        return EMPTY;
      }
      case SK.PrefixUnaryExpression: case SK.PostfixUnaryExpression: {
        this.ev(e.operand, env, inst);
        if (e.operator === SK.PlusPlusToken || e.operator === SK.MinusMinusToken) this.assign(e.operand, EMPTY, env, inst, e);
        return EMPTY;
      }
      case SK.DeleteExpression: { const t = unparen(e.expression); if (ts.isPropertyAccessExpression(t)) this.write(this.ev(t.expression, env, inst), t.name.text, EMPTY, e, inst, 'delete'); else if (ts.isElementAccessExpression(t)) this.write(this.ev(t.expression, env, inst), '[]', EMPTY, e, inst, 'delete'); return EMPTY; }
      case SK.ObjectLiteralExpression: {
        const o = this.alloc(e, inst);
        if (o.kind !== 'ext') o.literal = e;
        for (const pr of e.properties) {
          if (ts.isPropertyAssignment(pr)) { if (ts.isComputedPropertyName(pr.name)) this.ev(pr.name.expression, env, inst); const n = propName(pr.name); this.put(o, n === null ? '[]' : n, this.ev(pr.initializer, env, inst)); }
          else if (ts.isShorthandPropertyAssignment(pr)) { const s = this.p.unalias(this.p.checker.getShorthandAssignmentValueSymbol(pr)); if (s && s.valueDeclaration) this.put(o, pr.name.text, this.getDecl(s.valueDeclaration, env, inst)); }
          else if (ts.isSpreadAssignment(pr)) for (const s of this.ev(pr.expression, env, inst)) this.copyFields(o, s);
          else if (ts.isMethodDeclaration(pr) && o.kind !== 'ext') this.fld(o, propName(pr.name) || '[]').add(this.fnObj(pr, inst.isModule ? null : inst, o));
        }
        return new Set([o]);
      }
      case SK.ArrayLiteralExpression: {
        const o = this.alloc(e, inst); if (o.kind !== 'ext') o.literal = e;
        for (const x of e.elements) { if (ts.isSpreadElement(x)) this.put(o, '[]', this.read(this.ev(x.expression, env, inst), '#', inst, x)); else if (!ts.isOmittedExpression(x)) this.put(o, '[]', this.ev(x, env, inst)); }
        return new Set([o]);
      }
      case SK.ArrowFunction: case SK.FunctionExpression: if (this.opts.sharedOnly) { const i = this.getInst(e, 'cap', inst.isModule ? null : inst, EMPTY); e.parameters.forEach((x, k) => { i.params[k] = i.params[k] || new Set(); this.addAll(i.params[k], this.EXTS); }); } return new Set([this.fnObj(e, inst.isModule ? null : inst, null)]);
      case SK.NewExpression: return this.evNew(e, env, inst);
      case SK.CallExpression: return this.evCall(e, env, inst);
      case SK.AwaitExpression: case SK.SpreadElement: return this.ev(e.expression, env, inst);
      case SK.YieldExpression: if (e.expression) this.ev(e.expression, env, inst); return EMPTY;
      case SK.TypeOfExpression: case SK.VoidExpression: this.ev(e.expression, env, inst); return EMPTY;
      case SK.ClassExpression: { const c = this.p.classBySymbol.get(e.symbol); return c ? new Set([this.clsObj(c)]) : this.EXTS; }
      default: return this.EXTS;
    }
  }
  evArgs(e, env, inst) { return (e.arguments || []).map(a => ts.isSpreadElement(a) ? { spread: true, v: this.read(this.ev(a.expression, env, inst), '#', inst, a) } : { v: this.ev(a, env, inst) }); }
  evNew(e, env, inst) {
    const c = this.ev(e.expression, env, inst);
    const args = this.evArgs(e, env, inst);
    const out = new Set();
    for (const o of c) if (o.kind === 'cls') {
      const n = this.instOf(o.cls, e, inst);
      let k = o.cls; while (k && !k.ctor) k = k.base;
      if (k) this.call(k.ctor, new Set([n]), args, null, 'o' + n.id, e);
      out.add(n);
    }
    if (!out.size) { const o = this.alloc(e, inst); if (o.kind !== 'ext') o.builtin = e.expression.getText(); const first = args[0] && args[0].v; if (first && /^(Map|Set|Array|WeakMap)$/.test(o.builtin)) this.put(o, '[]', this.read(first, '#', inst, e)); out.add(o); }
    return out;
  }
  call(fn, thisSet, args, parent, ctx, node, caller) {
    if (!fn.body) return this.EXTS;
    if (this.opts.skip && this.opts.skip(fn)) return this.EXTS;
    if (this.insts.size > this.opts.instCap || this.opts.insensitive) ctx = 'cap';
    const i = this.getInst(fn, ctx, parent, thisSet);
    fn.parameters.forEach((p, k) => {
      if (p.dotDotDotToken) { if (!i.rest) { const o = this.obj('rest:' + i.id, 'alloc', p); i.rest = new Set([o]); } const o = [...i.rest][0]; for (const a of args.slice(k)) this.put(o, '[]', a.v || a); return; }
      i.params[k] = i.params[k] || new Set();
      if (this.opts.sharedOnly) args = args.map(a => a.thin ? a : Object.assign({}, a.v ? a : { v: a }, { v: this.thin(a.v || a), thin: true }));
      const sp = args.findIndex(a => a.spread);
      if (sp >= 0 && k >= sp) { for (const a of args.slice(sp)) this.addAll(i.params[k], a.v); }
      else if (k < args.length) this.addAll(i.params[k], args[k].v || args[k]);
    });
    return i.ret;
  }
  callSet(fs, thisSet, args, node, inst, tag) { // call every function object in fs
    let r = EMPTY, any = false;
    if (this.opts.fnCap) { const ns = new Set(); for (const f of fs) if (f.kind === 'fn') ns.add(f.node); if (ns.size > this.opts.fnCap) { this.capped = this.capped || new Set(); this.capped.add(node); return this.EXTS; } }
    for (const f of fs) {
      if (f.kind === 'fn') {
        any = true;
        if (f.bound) { r = this.union(r, this.callSet(f.bound, f.boundThis, [...f.boundArgs.map(v => ({ v })), ...args], node, inst, tag)); continue; }
        const th = f.thisObj ? new Set([f.thisObj]) : ts.isArrowFunction(f.node) ? EMPTY : thisSet || EMPTY;
        const isMethod = f.thisObj && f.thisObj.kind === 'inst';
        const ctx = isMethod ? 'o' + f.thisObj.id + (this.opts.methodSites ? '/' + this.p.nid(node) : '') : 'c' + this.p.nid(node) + (f.parentInst ? '/' + f.parentInst.id : '') + (this.opts.k2 && inst ? '<' + (inst.key || '').slice(0, 24) : '');
        r = this.union(r, this.call(f.node, th, args, f.parentInst, ctx, node, inst));
      } else if (f.kind === 'ext') r = this.union(r, this.EXTS);
    }
    return any || r.size ? r : null;
  }
  evCall(e, env, inst) {
    const callee = unparen(e.expression);
    if (callee.kind === SK.SuperKeyword) {
      const args = this.evArgs(e, env, inst);
      const rc = this.p.resolveCall(e);
      for (const t of rc.targets) for (const o of inst.thisSet) this.call(t, new Set([o]), args, null, 'o' + o.id, e);
      return EMPTY;
    }
    if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) {
      const recvE = unparen(callee.expression);
      const name = ts.isPropertyAccessExpression(callee) ? callee.name.text : this.p.constOf(callee.argumentExpression) || null;
      if (recvE.kind === SK.SuperKeyword) {
        const args = this.evArgs(e, env, inst);
        const rc = this.p.resolveCall(e);
        let r = EMPTY; let th = inst; while (th && ts.isArrowFunction(th.fn)) th = th.parent;
        for (const t of rc.targets) for (const o of (th || inst).thisSet) r = this.union(r, this.call(t, new Set([o]), args, null, 'o' + o.id, e));
        return r;
      }
      const recv = this.ev(callee.expression, env, inst);
      if (!ts.isPropertyAccessExpression(callee)) this.ev(callee.argumentExpression, env, inst);
      const args = this.evArgs(e, env, inst);
      // bind / call / apply
      if (name === 'bind' || name === 'call' || name === 'apply') {
        const fs = new Set([...recv].filter(o => o.kind === 'fn'));
        if (fs.size) {
          if (name === 'bind') { const o = this.obj('bind:' + this.p.nid(e) + '|' + inst.id, 'fn', e); o.bound = this.union(o.bound || EMPTY, fs); o.boundThis = this.union(o.boundThis || EMPTY, args[0] ? args[0].v : EMPTY); o.boundArgs = args.slice(1).map(a => a.v); return new Set([o]); }
          const th = args[0] ? args[0].v : EMPTY;
          const rest = name === 'call' ? args.slice(1) : args[1] ? [{ spread: true, v: this.read(args[1].v, '#', inst, e) }] : [];
          return this.callSet(new Set([...fs].map(f => ts.isArrowFunction(f.node) ? f : this.fnObj(f.node, f.parentInst, null))), th, rest, e, inst) || EMPTY;
        }
      }
      const lib = this.libStatic(recvE, name, args, e, env, inst);
      if (lib) return lib;
      let r = EMPTY, hit = false;
      const fs = name !== null ? this.read(new Set([...recv].filter(o => o.kind !== 'ext' && o.kind !== 'input')), name, inst, e) : this.read(recv, '[]', inst, e);
      const fns = new Set([...fs].filter(o => o.kind === 'fn'));
      if (fns.size) { hit = true; r = this.union(r, this.callSet(fns, recv, args, e, inst) || EMPTY); }
      // builtin container methods on data objects
      const data = new Set([...recv].filter(o => o.kind === 'alloc' || o.kind === 'input' || (o.kind === 'ext')));
      if (name !== null && data.size) { const b = this.container(data, name, args, e, inst); if (b) { hit = true; r = this.union(r, b); } }
      if (!hit || (recv.size === 0) || [...recv].some(o => o.kind === 'ext')) {
        // typed dispatch for unknown receivers
        if (![...fns].length) {
          const rc = this.p.resolveCall(e);
          if (rc.targets.length && rc.targets.length <= (this.opts.chaLimit || 40)) for (const t of rc.targets) {
            const c = this.p.enclosingClass(t);
            const isStatic = c && ((t.modifiers || (t.parent && t.parent.modifiers) || [])).some(x => x.kind === SK.StaticKeyword);
            if (c && !isStatic) { const o = this.instOf(c, null, null); r = this.union(r, this.call(t, new Set([o]), args, null, 'o' + o.id, e)); }
            else r = this.union(r, this.call(t, EMPTY, args, null, 'c' + this.p.nid(e), e));
            hit = true;
          }
        }
      }
      if (!hit) { for (const a of args) this.callbacks(a.v, this.EXTS, e, inst); return PRIM_FNS.test(name || '') ? EMPTY : this.union(r, this.EXTS); }
      return r;
    }
    const args = this.evArgs(e, env, inst);
    const nm = ts.isIdentifier(callee) ? callee.text : '';
    const fs = this.ev(callee, env, inst);
    const fns = new Set([...fs].filter(o => o.kind === 'fn'));
    if (fns.size) return this.callSet(fns, EMPTY, args, e, inst) || EMPTY;
    const l = this.libFn(nm, args, e, inst);
    if (l) return l;
    for (const a of args) this.callbacks(a.v, this.EXTS, e, inst);
    return PRIM_FNS.test(nm) ? EMPTY : this.EXTS;
  }
  callbacks(v, argSet, node, inst) { for (const f of v) if (f.kind === 'fn') this.callSet(new Set([f]), EMPTY, [{ v: argSet }, { v: argSet }, { v: argSet }], node, inst); }
  fresh(e, inst, elems, tag) { const o = this.alloc(e, inst, tag); if (elems) this.put(o, '[]', elems); return new Set([o]); }
  deep(set, lim = 4) { const seen = new Set(); let cur = [...set]; for (let k = 0; k < lim && cur.length; k++) { const nx = []; for (const o of cur) { if (seen.has(o)) continue; seen.add(o); if (o.kind === 'fn' || o.kind === 'cls' || o.kind === 'inst' || o.kind === 'ext') continue; for (const s of o.fields.values()) nx.push(...s); } cur = nx; } return seen; }
  merge(t, srcs, e, inst) {
    for (const o of t) { if (o.kind === 'ext') continue; this.mutate(o, '*', e, inst, 'merge'); if (o.kind === 'input') for (const c of this.readObj(o, '[]')) if (c.kind === 'input') this.mutate(c, '*', e, inst, 'merge (nested)'); }
    // nested objects already held by the target are merged in place
    const first = e.arguments && e.arguments[0] && unparen(e.arguments[0]);
    const fresh = first && ts.isObjectLiteralExpression(first) && !first.properties.length;
    if (!fresh) for (const o of this.deep(t)) if (!t.has(o) && (o.kind === 'alloc' || o.kind === 'input')) this.mutate(o, '*', e, inst, 'merge (nested)');
    for (const a of srcs) for (const s of a.v) for (const o of t) {
      if (o.kind === 'ext' || o.kind === 'input' || s === o) continue;
      if (s.kind === 'ext') { this.put(o, '[]', this.EXTS); continue; }
      if (s.kind === 'input') { this.put(o, '[]', this.EXTS); continue; }
      for (const [f, vs] of s.fields) for (const v of vs) if (v.kind === 'input') { const m = this.obj('mc:' + v.id + '|' + this.p.nid(e), 'alloc', e); m.tplOf = v; this.put(o, f, new Set([m])); } else this.put(o, f, new Set([v.kind === 'alloc' && !v.key.startsWith('mc:') ? this.obj('mc:' + v.id + '|' + this.p.nid(e), 'alloc', e) : v]));
    }
    return t;
  }
  libFn(nm, args, e, inst) {
    const a0 = args[0] ? args[0].v : EMPTY;
    switch (nm) {
      case 'array': { const o = this.alloc(e, inst); this.put(o, '[]', new Set([...a0].filter(x => !(x.literal && ts.isArrayLiteralExpression(x.literal))))); return this.union(a0, new Set([o])); }
      case 'merge': return this.merge(a0, args.slice(1), e, inst);
      case 'cloneDeep': case 'clone': return new Set([this.alloc(e, inst)]);
      case 'mixin': return a0;
      case 'pickWithout': case 'pick': { const o = this.alloc(e, inst); for (const s of a0) this.copyFields(o, s); return new Set([o]); }
      case 'get': { const r = new Set(); for (const o of a0) { for (const x of this.readObj(o, '[]')) { r.add(x); if (x.kind !== 'ext') for (const y of this.readObj(x, '[]')) r.add(y); } } return r; }
      case 'set': { this.write(a0, '[]', args[2] ? args[2].v : EMPTY, e, inst, 'set()'); return EMPTY; }
      case 'throttle': case 'debounce': return a0;
      case 'setTimeout': case 'requestAnimationFrame': this.callbacks(a0, EMPTY, e, inst); return EMPTY;
    }
    return null;
  }
  libStatic(recvE, name, args, e, env, inst) {
    const rn = ts.isIdentifier(recvE) ? recvE.text : '';
    const a0 = args[0] ? args[0].v : EMPTY;
    if (rn === 'Object') {
      switch (name) {
        case 'assign': { for (const o of a0) { if (o.kind === 'ext') { if (this.opts.sharedOnly) for (const a of args.slice(1)) for (const s of a.v) this.copyFields(o, s); continue; } this.mutate(o, '*', e, inst, 'Object.assign'); for (const a of args.slice(1)) for (const s of a.v) if (o.kind !== 'input') this.copyFields(o, s); } return a0; }
        case 'keys': case 'getOwnPropertyNames': return this.fresh(e, inst, EMPTY);
        case 'values': return this.fresh(e, inst, this.read(a0, '[]', inst, e));
        case 'entries': { const t = this.fresh(e, inst, this.read(a0, '[]', inst, e), 't'); return this.fresh(e, inst, t); }
        case 'create': { const o = this.alloc(e, inst); return new Set([o]); }
        case 'freeze': return a0;
        case 'defineProperty': case 'defineProperties': case 'setPrototypeOf': for (const o of a0) this.mutate(o, '*', e, inst, name); return a0;
        default: return EMPTY;
      }
    }
    if (rn === 'Array') { if (name === 'from') { const el = this.read(a0, '#', inst, e); if (args[1]) { const r = this.callSet(new Set([...args[1].v].filter(o => o.kind === 'fn')), EMPTY, [{ v: el }, { v: EMPTY }], e, inst); return this.fresh(e, inst, r || EMPTY); } return this.fresh(e, inst, el); } if (name === 'of') return this.fresh(e, inst, args.reduce((s, a) => this.union(s, a.v), EMPTY)); return EMPTY; }
    if (rn === 'Math' || rn === 'Number' || rn === 'JSON' || rn === 'Date' || rn === 'String') { return name === 'parse' ? this.EXTS : EMPTY; }
    return null;
  }
  container(data, name, args, e, inst) {
    const el = () => this.read(data, '#', inst, e);
    const cb = (...vs) => { const fs = new Set([...(args[0] ? args[0].v : EMPTY)].filter(o => o.kind === 'fn')); return fs.size ? this.callSet(fs, EMPTY, vs.map(v => ({ v })), e, inst) || EMPTY : EMPTY; };
    const isMap = [...data].some(o => o.builtin === 'Map' || o.builtin === 'Set' || o.builtin === 'WeakMap');
    if (MUTATORS.has(name)) {
      let add = EMPTY;
      if (name === 'push' || name === 'unshift' || name === 'fill') add = args.reduce((s, a) => this.union(s, a.v), EMPTY);
      if (name === 'splice') add = args.slice(2).reduce((s, a) => this.union(s, a.v), EMPTY);
      this.write(data, '[]', add, e, inst, name);
      if (name === 'sort') { const x = el(); cb(x, x); return data; }
      if (name === 'reverse' || name === 'fill' || name === 'copyWithin') return data;
      if (name === 'pop' || name === 'shift') return el();
      if (name === 'splice') return this.fresh(e, inst, el());
      return EMPTY;
    }
    switch (name) {
      case 'slice': case 'filter': case 'concat': case 'flat': { if (name === 'filter') { const x = el(); cb(x, EMPTY, data); } let x = el(); if (name === 'concat') for (const a of args) { x = this.union(x, this.read(a.v, '#', inst, e)); x = this.union(x, new Set([...a.v].filter(o => !(o.literal && ts.isArrayLiteralExpression(o.literal))))); } return this.fresh(e, inst, x); }
      case 'map': return this.fresh(e, inst, cb(el(), EMPTY, data));
      case 'flatMap': return this.fresh(e, inst, this.read(cb(el(), EMPTY, data), '#', inst, e));
      case 'forEach': cb(el(), isMap ? el() : EMPTY, data); return EMPTY;
      case 'some': case 'every': case 'findIndex': case 'find': cb(el(), EMPTY, data); return name === 'find' ? el() : EMPTY;
      case 'reduce': case 'reduceRight': { const init = args[1] ? args[1].v : el(); let r = init; for (let k = 0; k < 2; k++) r = this.union(r, cb(r, el(), EMPTY, data)); return r; }
      case 'get': if (isMap) return el(); return null;
      case 'set': if (isMap) { this.write(data, '[]', args[1] ? args[1].v : EMPTY, e, inst, 'set'); return data; } return null;
      case 'add': if (isMap) { this.write(data, '[]', args[0] ? args[0].v : EMPTY, e, inst, 'add'); return data; } return null;
      case 'delete': case 'clear': if (isMap) { for (const o of data) if (o.kind !== 'ext') this.mutate(o, '[]', e, inst, name); return EMPTY; } return null;
      case 'values': if (isMap) return this.fresh(e, inst, el()); return null;
      case 'keys': case 'entries': if (isMap) return this.fresh(e, inst, el()); return null;
      case 'indexOf': case 'includes': case 'join': case 'has': case 'lastIndexOf': case 'toString': return EMPTY;
    }
    return null;
  }
}
module.exports = { PTA, MUTATORS };
