'use strict';
const { ts, SK, isFn, unparen } = require('../lib/program');
const { Interp, V, UNDEF } = require('../lib/flow');
const { analyse, tokens, fullKey, paramFields } = require('../lib/deps');
const { Origins } = require('../lib/origins');
const { Slice } = require('../lib/slice');
exports.rule = 'Every place where evaluation resolves an option against other grammars is traced back to the specification option it comes from; for that option the configuration methods of the class must attach the references collected from it (for scales: for every scale type under which the option is resolved). The collectors recognise every form of reference the resolvers accept, and what they collect is handed on complete.';
const RESOLVE = { invokeFunctionType: 0, invokeParameterFunctionType: 0, getGrammarOutput: 0 };
const LOOKUP = /^get(Grammar|Data|Scale|Signal|Coordinate|Mark|Customized|Projection)ById$/;
const COLLECT = /^(parseFunctionType|parseReference|parseEncodeType)$/;
exports.run = (p, rep) => {
  const D = analyse(p);
  if (!rep.need(D.base, 'class GrammarBase')) return;
  for (const o of D.overflow) rep.error('analysis of ' + o + ' exceeded its step bound');
  const fnByName = n => p.functions.filter(f => p.fnName(f.node) === n && !f.cls).map(f => f.node);
  for (const n of ['invokeFunctionType', 'parseFunctionType', 'parseReference', 'parseEncodeType', 'getGrammarOutput']) if (!rep.need(fnByName(n).length, 'function ' + n)) return;
  const isGrammar = c => { for (; c; c = c.base) if (c === D.base) return true; return false; };
  // ---- what each class registers
  const c02 = require('./c02');
  // the per-path part of the bookkeeping that keeps references: what is stored is attached, what stays is not detached
  c02.run(p, { ob(clause, ok, o) { if (/^(new-value-attached|release-matches)$/.test(clause) || clause === 'bookkeeping' && /attach$/.test(o.key)) rep.ob(clause, ok, o); }, need() { return true; }, atLeast() {}, error(m) { rep.error(m); }, extra: {} });
  rep.atLeast('new-value-attached', 60);
  const reg = new Map(); const put = (c, f) => (reg.get(c) || reg.set(c, new Set()).get(c)).add(f);
  for (const [c, locs] of c02.managed) for (const l of locs) { const m = /^this\.spec\.([\w$]+)/.exec(l); if (m) put(c, m[1]); else put(c, l); }
  const fieldsOf = new Map();
  for (const m of D.methods) if (m.perPath) for (const x of m.exits) for (const e of x.st.list()) if (e.t === 'attach') {
    for (const t of tokens(e.fk)) {
      let r = /^(?:this\.spec|p:[\w$]+)\.([\w$]+)/.exec(t);
      if (r) { const w = x.st.list().some(q => q.t === 'w' && (q.loc === 'this.spec' || /^this\.spec\.\*?/.test(q.loc) && /\*/.test(q.loc))); if (t.startsWith('this.spec') || w) put(m.owner.name, r[1]); }
      if (/^(this\.spec|p:[\w$]+|#\w+)$/.test(t)) { const c = /([\w$]+)@\d+\(([^()]*)\)/.exec(e.fk); if (!c) continue; const idx = Math.max(0, c[2].split(',').indexOf(t)), key = c[1] + '#' + idx;
        if (!fieldsOf.has(key)) { const s = new Set(); for (const f of p.functions) if (p.fnName(f.node) === c[1]) for (const y of paramFields(p, f.node, idx)) s.add(y); fieldsOf.set(key, s); }
        for (const f of fieldsOf.get(key)) put(m.owner.name, f); }
    }
  }
  const registered = c => { const r = new Set(); for (; c; c = c.base) for (const f of reg.get(c.name) || []) r.add(f); return r; };
  // ---- what evaluation resolves
  const O = new Origins(p); O.prefer = isGrammar; const used = new Map(); let sites = 0;
  const note = (o, node) => { const m = /^([\w$~]+)\.this\.spec\.([\w$]+|\*)/.exec(o); if (!m) return; const c = O.ids.get(m[1]); if (!c || !isGrammar(c) || c === D.base) return; const k = c.name + '.' + m[2]; if (!used.has(k)) used.set(k, { cls: c, f: m[2], node }); };
  for (const sf of p.files) p.forEachNode(sf, n => {
    if (!ts.isCallExpression(n) || !n.arguments.length) return;
    const nm = n.expression.getText().replace(/^.*\./, '');
    if (nm in RESOLVE || LOOKUP.test(nm)) { sites++; for (const o of O.of(n.arguments[RESOLVE[nm] || 0])) note(o, n); }
  });
  for (const [k, u] of used) {
    const r = registered(u.cls);
    const s = sliced(p, u.cls, isGrammar);
    let ok = r.has(u.f) || r.has('*') && s.has(u.f);
    if (u.f === '*') { const names = ranges(p, u.cls); for (const f of names) rep.ob('option-registered', r.has(f) || r.has('*') && s.has(f), { key: u.cls.name + '.' + f, where: p.loc(u.node), msg: `${u.cls.name} option ${f} is resolved against other grammars at evaluation, but no configuration method of ${u.cls.name} attaches the references collected from it` }); ok = names.length > 0; }
    rep.ob('option-registered', ok, { key: k, where: p.loc(u.node), msg: `${k.replace('.', ' option ')} is resolved against other grammars at evaluation, but no configuration method of ${u.cls.name} attaches the references collected from it` });
  }
  rep.atLeast('option-registered', 60);

  whole(p, rep, D, used, isGrammar);
  constructors(p, rep, D, registered, isGrammar);
  scales(p, rep, put);

  forms(p, rep, fnByName);
  kept(p, rep);
  rep.extra.resolving_sites = sites; rep.extra.options = [...used.keys()];
};
// names a computed option ranges over: the constant array whose forEach the call stands in
function arrayConst(p, e, d = 0) {
  e = unparen(e); if (!e || d > 6) return null;
  if (ts.isArrayLiteralExpression(e)) { const r = []; for (const x of e.elements) { if (ts.isSpreadElement(x)) { const s = arrayConst(p, x.expression, d + 1); if (!s) return null; r.push(...s); } else { const c = p.constOf(x); if (typeof c !== 'string') return null; r.push(c); } } return r; }
  if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.name.text === 'concat') { const r = arrayConst(p, e.expression.expression, d + 1); if (!r) return null; for (const a of e.arguments) { const s = arrayConst(p, a, d + 1); if (!s) return null; r.push(...s); } return r; }
  if (ts.isIdentifier(e)) { const s = p.symbolOf(e), v = s && s.valueDeclaration; if (v && ts.isVariableDeclaration(v) && v.initializer) return arrayConst(p, v.initializer, d + 1); }
  if (ts.isAsExpression(e)) return arrayConst(p, e.expression, d + 1);
  return null;
}
// (the evaluating side of the class, sliced the same way)
function ranges(p, cls) {
  const inv = new Set(p.functions.filter(f => !f.cls && /^(invoke(Parameter)?FunctionType|getGrammarOutput)$/.test(p.fnName(f.node))).map(f => f.node)), reach = p.reaching(fn => inv.has(fn));
  const S = new Slice(p, { type: '', typePath: '-', thisSpec: 'this.spec', leaf: (c, n) => RESOLVE[n], inline: fn => reach.has(fn) && !inv.has(fn) });
  S.runMethod(cls, 'evaluate'); return [...new Set(S.hits.map(h => h.path.split('.')[1]).filter(f => f && f !== '*'))];
}
// options whose references the configuration methods of a class collect under names taken from constant lists
function sliced(p, cls) {
  const memo = p._sliced || (p._sliced = new Map()); if (memo.has(cls)) return memo.get(cls);
  const leafs = new Set(p.functions.filter(f => !f.cls && COLLECT.test(p.fnName(f.node))).map(f => f.node)), reach = p.reaching(fn => leafs.has(fn)), out = new Set();
  const S = new Slice(p, { type: '', typePath: '-', thisSpec: 'this.spec', leaf: (c, n) => COLLECT.test(n) || LOOKUP.test(n) || n === 'attach' ? 0 : undefined, inline: fn => reach.has(fn) && !leafs.has(fn) });
  for (const [n, m] of p.allMembers(cls)) if (m.fn && m.kind !== 'accessor' && m.vis === 'public' && reach.has(m.fn) && !/^(evaluate|release|clear|get|reuse)/.test(n)) S.runMethod(cls, n, { p: /^(parse|configure)/.test(n) ? 'S' : 'S.' + n });
  for (const h of S.hits) { const f = h.path.split('.')[1]; if (f) out.add(f); }
  memo.set(cls, out); return out;
}

// ---- a method that takes over a whole specification collects every option of it that evaluation resolves
function whole(p, rep, D, used, isGrammar) {
  const leafs = new Set(p.functions.filter(f => !f.cls && COLLECT.test(p.fnName(f.node))).map(f => f.node)); const at = p.member(D.base, 'attach'); if (at && at.fn) leafs.add(at.fn);
  const reach = p.reaching(fn => leafs.has(fn));
  const done = new Set();
  for (const m of D.methods) {
    if (!m.fn.parameters.length) continue;
    const par = m.fn.parameters[0], pn = 'p:' + par.name.getText(), T = p.checker.getNonNullableType(p.checker.getTypeAtLocation(par));
    const takes = m.name === 'parse' || (m.exits || []).some(x => x.st.list().some(e => e.t === 'w' && (e.loc === 'this.spec' || /^this\.spec\.\*/.test(e.loc)) && tokens(e.fk).includes(pn)));
    if (!takes) continue;
    for (const cls of p.allSubs(m.cls).concat([m.cls])) {
      if (p.member(cls, m.name).fn !== m.fn) continue;
      const key = cls.name + '.' + m.name; if (done.has(key)) continue; done.add(key);
      const S = new Slice(p, { type: '', typePath: '-', thisSpec: 'this.spec', leaf: (c, n) => COLLECT.test(n) || LOOKUP.test(n) || n === 'attach' ? 0 : undefined, inline: fn => reach.has(fn) && !leafs.has(fn) });
      S.self = cls; S.runMethod(cls, m.name, { p: 'S' });
      const got = new Set(S.hits.map(h => h.path.split('.')[1]));
      for (const f of m.flds || []) got.add(f);
      for (const [k, u] of used) { let ok = false; for (let b = cls; b; b = b.base) if (b === u.cls) ok = true; if (!ok) continue;
        const names = u.f === '*' ? ranges(p, u.cls) : [u.f];
        for (const f of names) { const has = (T.types || [T]).some(t => p.checker.getPropertyOfType(t, f)); if (!has) continue;
          rep.ob('whole-spec', got.has(f) || got.has('*'), { key: key + '|' + f, where: p.loc(m.fn), msg: `${key}() takes over the option ${f}, which evaluation resolves against other grammars, without collecting its references` }); } }
    }
  }
}

// ---- an option that a constructor stores is attached there
function constructors(p, rep, D, registered, isGrammar) {
  const attach = (p.member(D.base, 'attach') || {}).fn, configs = new Set(D.methods.map(m => m.fn));
  for (const c of p.allSubs(D.base)) {
    const ctor = c.node.members.find(m => ts.isConstructorDeclaration(m) && m.body); if (!ctor) continue;
    const I = new Interp(p, { stepLimit: 40000, isRelevant: fn => fn !== attach && fn.parent === c.node && !configs.has(fn) && !ts.isConstructorDeclaration(fn), onCall(k) { if (k.recv && k.recv.key === 'this' && (k.name === 'attach' || (k.targets || []).some(t => configs.has(t)))) { k.st.push({ key: 'a', t: 'a', v: k.args[0] ? fullKey(k.args[0]) : '' }); return { value: k.recv }; } }, onWrite(w) { if (/^this(\.spec)?$/.test(w.base.key) && w.value) w.st.push({ key: 'w' + w.prop, t: 'w', loc: w.base.key + '.' + w.prop, v: fullKey(w.value), node: w.node }); } });
    const st = I.newState ? I.newState() : undefined;
    const exits = I.runEntry(ctor, { thisVal: V.root('this'), cls: c, state: st });
    if (I.overflow) { rep.error('analysis of the constructor of ' + c.name + ' exceeded its step bound'); continue; }
    const reg = registered(c); let bad = null, any = false;
    const plain = new Set(ctor.parameters.filter(q => { const t = p.checker.getTypeAtLocation(q); return (t.types || [t]).every(y => y.flags & (ts.TypeFlags.StringLike | ts.TypeFlags.NumberLike | ts.TypeFlags.BooleanLike | ts.TypeFlags.Undefined | ts.TypeFlags.Null)); }).map(q => 'p:' + q.name.getText()));
    for (const x of exits || []) for (const w of x.st.list()) if (w.t === 'w') {
      const f = w.loc.replace(/^this\.spec\./, ''), m = /^p:[\w$]+$/.exec(w.v); if (!m || plain.has(w.v) || !(reg.has(f) || reg.has(w.loc))) continue;
      any = true;
      if (x.st.facts.get('N|' + w.v) === true || x.st.facts.get('T|' + w.v) === false) continue;
      if (!x.st.list().some(e => e.t === 'a' && tokens(e.v).some(t => t === w.v || t === w.loc))) bad = bad || w;
    }
    if (any) rep.ob('constructor', !bad, { key: c.name + (bad ? '|' + bad.loc : ''), where: p.loc(bad ? bad.node : ctor), msg: `the constructor of ${c.name} stores ${bad && bad.loc} without attaching its references` });
  }
}

// ---- scales: per scale type, what evaluation resolves is what configuration registers
function scales(p, rep, put) {
  const cls = p.class('Scale'); if (!rep.need(cls, 'class Scale')) return;
  let types = null;
  for (const sf of p.files) for (const s of sf.statements) if (ts.isTypeAliasDeclaration(s) && s.name.text === 'GrammarScaleType') { const t = p.checker.getTypeAtLocation(s.name); types = (t.types || []).map(x => x.value).filter(v => typeof v === 'string'); }
  if (!rep.need(types && types.length, 'type GrammarScaleType')) return;
  const leafs = new Set(p.functions.filter(f => !f.cls && /^(invokeFunctionType|getGrammarOutput|parseFunctionType|parseReference)$/.test(p.fnName(f.node))).map(f => f.node));
  const reach = p.reaching(fn => leafs.has(fn));
  const setters = []; for (const [n, m] of p.allMembers(cls)) if (m.fn && m.cls === cls && m.vis === 'public' && (reach.has(m.fn) || n === 'configure') && !/^(get|evaluate|parse$|ticks|reuse|clear|release|set[A-Z])/.test(n) && m.fn.parameters.length) setters.push(n);
  if (!rep.need(setters.length >= 3, 'configuration methods of Scale')) return;
  for (const type of types) {
    const mk = leaf => new Slice(p, { type, typePath: 'S.type', thisSpec: 'this.spec', leaf, inline: fn => reach.has(fn) && !leafs.has(fn) });
    const field = h => h.path.split('.')[1];
    const ev = mk((c, n) => RESOLVE[n]); ev.runMethod(cls, 'evaluate');
    const co = mk((c, n) => /^parse(FunctionType|Reference)$/.test(n) || LOOKUP.test(n) ? 0 : undefined);
    for (const n of setters) co.runMethod(cls, n, { p: n === 'configure' ? 'S' : 'S.' + n });
    if (ev.steps > 3000 || co.steps > 3000) rep.error('analysis of scale type ' + type + ' exceeded its step bound');
    // collected without regard to anything but the option itself (or the presence of the options object)
    const U = new Map(), R = new Set(); for (const h of ev.hits) if (field(h) && !U.has(field(h))) U.set(field(h), h.node);
    for (const h of co.hits) { const f = field(h); if (f && h.conds.every(c => c && [...c].every(x => x === 'S' || x === 'S.' + f || x.startsWith('S.' + f + '.')))) R.add(f); }
    for (const [f, node] of U) rep.ob('scale-type', R.has(f), { key: type + '.' + f, where: p.loc(node), msg: `a ${type} scale resolves its option ${f} at evaluation, but configuring a ${type} scale does not collect the references of ${f} whenever it is set` });
    (rep.extra.scale_options = rep.extra.scale_options || {})[type] = [...U.keys()];
  }
  rep.atLeast('scale-type', 60);
}

// ---- the collectors accept every form of reference that the resolvers accept
function forms(p, rep, fnByName) {
  const run = (fn, opts = {}) => { const I = new Interp(p, Object.assign({ stepLimit: 200000, maxStates: 400, joinKey: st => [...st.facts].filter(([k, v]) => (v === false && (k.startsWith('T|') || k.startsWith('NE|')) || v === true && k.startsWith('N|')) && /(parse(FunctionType|Reference)|get\w+ById)\(|#a\d+/.test(k)).map(([k]) => k).sort().join(), loops: 'atLeastOnce', isRelevant: f => /^is[A-Z]\w*(Type|Encode)$/.test(p.fnName(f)) || (opts.inline && opts.inline(f)), onCall(c) { if (c.recv && c.recv.key === 'p:view') return { value: V.app(c.name, c.args) }; if (COLLECT.test(c.name)) return { value: V.app(c.name, c.args) }; } }, opts)); const r = I.runEntry(fn, {}); if (I.overflow) rep.error('analysis of ' + p.fnName(fn) + ' exceeded its step bound'); return r || []; };
  const flat = (v, st) => { let k = fullKey(v); for (let i = 0; i < 6; i++) k = k.replace(/#?\b(a\d+|o\d+)\b/g, m => { const e = st.heap.get((m[0] === '#' ? m : '#' + m) + '!elems'); return e ? '[' + e.map(fullKey).join(',') + ']' : m; }); return k; };
  const truthy = (st, k) => st.facts.get('T|' + k) === true, falsy = (st, k) => st.facts.get('T|' + k) === false || st.facts.get('N|' + k) === true;
  const check = (fn, name, root, parts, skip) => {
    for (const [what, member, need] of parts) {
      let bad = null, n = 0;
      for (const x of run(fn)) {
        if (!truthy(x.st, root + '.' + member) || (skip && skip(x.st, member))) continue;
        n++; const k = flat(x.v, x.st);
        if (!need(k, x.st)) bad = bad || x;
      }
      rep.ob('reference-forms', n > 0 && !bad, { key: name + '|' + what, where: p.loc(fn), msg: n ? `${name} does not collect ${what} on every path` : `${name} does not recognise ${what}` });
    }
  };
  for (const fn of fnByName('parseFunctionType')) {
    const r = 'p:' + fn.parameters[0].name.getText();
    const isF = st => truthy(st, 'isFunction(' + r + ')');
    check(fn, 'parseFunctionType', r, [
      ['a signal reference', 'signal', (k, st) => k.includes(r + '.signal') || [...st.facts].some(([f, v]) => v === false && /grammarType/.test(f))],
      ['the dependencies of a callback', 'callback', (k, st) => k.includes(r + '.dependency') || truthy(st, r + '.signal')]], isF);
  }
  for (const fn of fnByName('parseEncodeType')) {
    const r = 'p:' + fn.parameters[0].name.getText();
    check(fn, 'parseEncodeType', r, [['the scale of an encoder', 'scale', k => k.includes(r + '.scale')]]);
    let bad = false, n = 0; for (const x of run(fn)) { if (falsy(x.st, r)) continue; n++; if (!flat(x.v, x.st).includes('parseFunctionType(' + r)) bad = true; }
    rep.ob('reference-forms', n > 0 && !bad, { key: 'parseEncodeType|function', where: p.loc(fn), msg: 'parseEncodeType does not collect the references of a function type encoder on every path' });
  }
  // collectors that resolve an id or take a grammar object: both forms are collected
  for (const f of p.functions) {
    const fn = f.node; if (f.cls || p.fnName(fn) === "anonymous" || !/\/parse\//.test(fn.getSourceFile().fileName) || !fn.body) continue;
    const refs = new Set(); let nested = false;
    p.forEachNode(fn.body, n => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && LOOKUP.test(n.expression.name.text) && n.arguments[0]) refs.add(n); });
    if (!refs.size) continue;
    let isStr = false; p.forEachNode(fn.body, n => { if (ts.isCallExpression(n) && n.expression.getText() === 'isString' || ts.isTypeOfExpression(n)) isStr = true; });
    if (!isStr) continue;
    const per = new Map();                                     // looked-up path -> {id, obj, bad}
    for (const x of run(fn)) {
      const k = flat(x.v, x.st);
      for (const [fact, v] of x.st.facts) {
        const m = /^T\|isString\((.*)\)$/.exec(fact); if (!m) continue;
        const q = per.get(m[1]) || per.set(m[1], { id: 0, obj: 0, bad: null }).get(m[1]);
        const look = [...x.st.facts].find(([a]) => /^T\|get\w+ById\(/.test(a) && a.includes(m[1])), none = [...x.st.facts].some(([a, b]) => (b === false && /^T\|get\w+ById\(/.test(a) || b === true && /^N\|get\w+ById\(/.test(a)) && a.includes(m[1]));
        if (v === true) { if (new RegExp('get\\w+ById\\(').test(k) && k.includes(m[1])) q.id++; else if (!none) q.bad = q.bad || 'the grammar with that id'; }
        else { const strip = k.split(m[1]).join('\u0001').replace(/get\w+ById\([^()]*\)/g, ''); if (/\u0001(?![.])/.test(strip)) q.obj++; else if ([...x.st.facts].some(([a, b]) => b === true && a.includes(m[1] + '.grammarType'))) q.bad = q.bad || 'the grammar object'; }
      }
    }
    for (const [path, q] of per) {
      const what = (/p:[\w$]+\.([\w$]+)/.exec(path) || [, 'argument'])[1];
      rep.ob('reference-forms', !q.bad && q.id > 0 && q.obj > 0, { key: p.fnName(fn) + '|' + what, where: p.loc(fn), msg: q.bad ? `${p.fnName(fn)} does not collect ${q.bad} on every path` : `${p.fnName(fn)} collects its ${what} only as ${q.id ? 'an id' : 'a grammar object'}, not as ${q.id ? 'a grammar object' : 'an id'}` });
    }
  }
  // transforms: the grammars listed under dependency are collected
  const tf = fnByName('parseTransformSpec');
  if (rep.need(tf.length, 'function parseTransformSpec')) { let dep = null; const seen = new Set(); (function w(fn) { if (!fn.body || seen.has(fn)) return; seen.add(fn); p.forEachNode(fn.body, n => { if (ts.isCallExpression(n)) { if (n.expression.getText() === 'parseReference') dep = n; for (const t of (p.resolveCall(n) || {}).targets || []) if (/parse\/transform/.test(t.getSourceFile().fileName)) w(t); } }); })(tf[0]);
    rep.ob('reference-forms', !!dep, { key: 'parseTransformSpec|dependency', where: p.loc(tf[0]), msg: 'the grammars a transform lists under dependency are not collected' }); }
  // options of transforms: every grammar that becomes part of a value is among the references
  const leaf = /^(get\w+ById|parseFunctionType|parseReference)$/, inFile = fn => /parse\/transform\.ts$/.test(fn.getSourceFile().fileName);
  const looks = new Set(p.functions.filter(f => !f.cls && inFile(f.node) && (() => { let h = false; p.forEachNode(f.node.body, n => { if (ts.isCallExpression(n) && leaf.test(n.expression.getText().replace(/^.*\./, ''))) h = true; }); return h; })()).map(f => f.node)), makes = p.reaching(fn => looks.has(fn));
  const deep = (v, st, skip, seen = new Set(), out = new Set()) => {
    if (!v || !v.key) return out;
    if (v.k === 'obj' || v.k === 'arr') { if (seen.has(v.key)) return out; seen.add(v.key); for (const e of st.heap.get(v.key + '!elems') || []) deep(e, st, skip, seen, out); for (const e of st.heap.get(v.key + '!spread') || []) deep(e, st, skip, seen, out); for (const [k, w] of st.heap) if (k.startsWith(v.key + '.') && w && w.key && !(skip && skip.test(k))) deep(w, st, skip, seen, out); return out; }
    if (v.k === 'app') { if (leaf.test(v.name)) { out.add(v.name + '(' + (v.args[0] ? fullKey(v.args[0]) : '') + ')'); return out; } for (const a of v.args) deep(a, st, skip, seen, out); return out; }
    if (v.k === 'ite') { deep(v.a, st, skip, seen, out); deep(v.b, st, skip, seen, out); return out; }
    if (v.k === 'alt') { for (const a of v.vals) deep(a, st, skip, seen, out); return out; }
    if (v.k === 'path') return deep(v.base, st, skip, seen, out);
    return out;
  };
  for (const f of p.functions) {
    if (f.cls || p.fnName(f.node) === 'anonymous' || !inFile(f.node) || !makes.has(f.node)) continue;
    const bad = new Map(), all = new Set();
    for (const x of run(f.node, { inline: fn => inFile(fn) && makes.has(fn) })) {
      if (x.v.k !== 'obj') continue;
      const rest = new Set(), refs = deep(x.st.heap.get(x.v.key + '.references') || x.st.heap.get(x.v.key + '.refs'), x.st);
      for (const [k, w] of x.st.heap) if (k.startsWith(x.v.key + '.') && !/\.(references|refs)$/.test(k)) for (const t of deep(w, x.st, /\.(references|refs)$/)) rest.add(t);
      for (const t of rest) { all.add(t); if (!refs.has(t) && ![...x.st.facts].some(([k, v]) => (v === false && k.startsWith('T|') || v === true && k.startsWith('N|')) && k.includes(t.slice(0, -1)))) { const empty = [...x.st.facts].some(([k, v]) => { const m = v === false && /^(?:T\|(#a\d+)\.length|NE\|(#a\d+))$/.exec(k); return m && (x.st.heap.get((m[1] || m[2]) + '!elems') || []).some(e => deep(e, x.st).has(t)); }); if (!empty) bad.set(t, x); } }
    }
    for (const t of all) { const what = t.replace(/\(.*/, '') + '|' + (/\.([\w$]+)\)$/.exec(t) || [, 'value'])[1]; rep.ob('reference-forms', !bad.has(t), { key: p.fnName(f.node) + '|' + what, where: p.loc(f.node), msg: `${p.fnName(f.node)} puts the grammar found by ${t} into an option of the transform but not among its references` }); }
  }
  rep.atLeast('reference-forms', 6);
}

// ---- what is collected is handed on complete: never dropped, never reduced to its first element
function kept(p, rep) {
  const ch = p.checker;
  const single = new Map();
  const isSingle = fn => { if (single.has(fn)) return single.get(fn); single.set(fn, false); const r = []; const v = n => { if (n !== fn && isFn(n)) return; if (ts.isReturnStatement(n) && n.expression) r.push(n.expression); ts.forEachChild(n, v); }; if (ts.isBlock(fn.body)) v(fn.body); else r.push(fn.body); const one = e => { e = unparen(e); if (ts.isConditionalExpression(e)) return one(e.whenTrue) && one(e.whenFalse); return ts.isArrayLiteralExpression(e) && e.elements.length <= 1 && !e.elements.some(ts.isSpreadElement) || ts.isCallExpression(e) && (p.resolveCall(e).targets || []).length > 0 && p.resolveCall(e).targets.every(isSingle); }; const ok = r.length > 0 && r.every(one); single.set(fn, ok); return ok; };
  const uses = (decl, sym) => { let scope = decl; while (scope && !isFn(scope) && !ts.isSourceFile(scope)) scope = scope.parent; const out = []; p.forEachNode(scope, n => { if (ts.isIdentifier(n) && n !== decl.name && n.text === sym.name) { let s = ch.getSymbolAtLocation(n); if (s && n.parent && ts.isShorthandPropertyAssignment(n.parent)) s = ch.getShorthandAssignmentValueSymbol(n.parent); if (s === sym) out.push(n); } }); return out; };
  // does the value of expression n reach a return, attach/detach or a kept container as a whole?
  const whole = (n, seen) => {
    if (seen.has(n)) return false; seen.add(n);
    const q = n.parent;
    if (ts.isParenthesizedExpression(q) || ts.isAsExpression(q) || ts.isNonNullExpression(q)) return whole(q, seen);
    if (ts.isReturnStatement(q) || (ts.isArrowFunction(q) && q.body === n)) return true;
    if (ts.isConditionalExpression(q)) return q.condition === n ? false : whole(q, seen);
    if (ts.isBinaryExpression(q)) {
      const o = q.operatorToken.kind;
      if (o === SK.EqualsToken && q.right === n) { const L = unparen(q.left); if (ts.isIdentifier(L)) { const s = ch.getSymbolAtLocation(L), d = s && s.valueDeclaration; if (!d) return true; return uses(d, s).some(u => u !== L && !(u.parent === L.parent && u === q.left) && whole(u, seen)); } return true; }
      if (o === SK.BarBarToken || o === SK.QuestionQuestionToken) return whole(q, seen);
      if (o === SK.AmpersandAmpersandToken || o === SK.CommaToken) return q.right === n && whole(q, seen);
      return false;
    }
    if (ts.isVariableDeclaration(q)) { if (!ts.isIdentifier(q.name)) return true; const s = ch.getSymbolAtLocation(q.name); return uses(q, s).some(u => whole(u, seen)); }
    if (ts.isSpreadElement(q)) { if (ts.isArrayLiteralExpression(q.parent)) return whole(q.parent, seen); return arg(q, q.parent, seen); }
    if (ts.isPropertyAssignment(q) || ts.isShorthandPropertyAssignment(q)) return true;
    if (ts.isCallExpression(q) && q.arguments.includes(n)) return arg(n, q, seen);
    if (ts.isPropertyAccessExpression(q) && q.expression === n) {
      const c = q.parent, m = q.name.text;
      if (ts.isCallExpression(c) && c.expression === q) {
        if (/^(concat|filter|slice|reverse|sort|flat|map)$/.test(m)) return whole(c, seen);
        if (/^(forEach|reduce)$/.test(m)) return true;
        return false;
      }
      if (/^(references|refs)$/.test(m)) return whole(q, seen);
      return false;
    }
    if (single1 && ts.isElementAccessExpression(q) && q.expression === n && p.constOf(q.argumentExpression) === 0) return whole(q, seen);
    if (ts.isForOfStatement(q) && q.expression === n) return true;
    return false;
  };
  const arg = (n, call, seen) => {
    if (!ts.isCallExpression(call)) return true;
    const c = call.expression, nm = c.getText().replace(/^.*\./, '');
    if (/^(attach|detach|array)$/.test(nm)) return nm === 'array' ? whole(call, seen) : true;
    if (nm === 'concat' && ts.isPropertyAccessExpression(c)) return whole(call, seen);
    if (nm === 'push' && ts.isPropertyAccessExpression(c)) { if (!ts.isSpreadElement(n)) return true; const r = unparen(c.expression); if (!ts.isIdentifier(r)) return true; const s = ch.getSymbolAtLocation(r), d = s && s.valueDeclaration; return !d || uses(d, s).some(u => u !== r && whole(u, seen)) || ts.isParameter(d); }
    return true;                                    // handed to another function
  };
  const refArr = t => { const s = ch.typeToString(t); return /^(IGrammarBase|GrammarBase|any)\[\]$/.test(s); };
  let n = 0, single1 = false;
  for (const sf of p.files) p.forEachNode(sf, e => {
    if (!ts.isCallExpression(e)) return;
    const ts_ = (p.resolveCall(e) || {}).targets || [];
    const col = ts_.filter(f => /^(parse|collect|resolve|get)/.test(p.fnName(f)) && ch.typeToString(ch.getReturnTypeOfSignature(ch.getSignatureFromDeclaration(f))) === 'IGrammarBase[]');
    if (!col.length) return;
    n++;
    if (col.every(isSingle)) { single1 = true; } else single1 = false;
    const fn = (() => { let x = e.parent; while (x && !(isFn(x) && p.fnName(x) !== 'anonymous')) x = x.parent; return x; })();
    const cls = p.enclosingClass(e);
    rep.ob('collected-kept', whole(e, new Set()), { key: (cls ? cls.name + '.' : '') + (fn ? p.fnName(fn) : '?') + '|' + e.getText().slice(0, 60), where: p.loc(e), msg: `the references collected by ${e.getText().slice(0, 60)} are dropped or only partly registered` });
  });
  // results of pure array operations on references are used
  for (const sf of p.files) if (/\/(parse|view)\//.test(sf.fileName)) p.forEachNode(sf, e => {
    if (!ts.isExpressionStatement(e)) return; const c = unparen(e.expression);
    if (ts.isCallExpression(c) && ts.isPropertyAccessExpression(c.expression) && c.expression.name.text === 'concat') rep.ob('collected-kept', false, { key: 'concat|' + p.fnName((() => { let x = e.parent; while (x && !(isFn(x) && p.fnName(x) !== 'anonymous')) x = x.parent; return x || sf; })()), where: p.loc(c), msg: `the result of ${c.getText().slice(0, 60)} is discarded, so the references are not collected` });
  });
  rep.atLeast('collected-kept', 40);
}
