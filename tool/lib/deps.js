'use strict';
// Dependency bookkeeping of the grammars: which options carry references to other grammars, and how every configuration method
// attaches the references of the new value and detaches those of the value it replaces.  Used by C01 and C02.
const { ts, SK } = require('./program');
const { Interp, V, UNDEF } = require('./flow');

const LIFECYCLE = /^(evaluate\w*|clear|release|prepareRelease|reuse|run|init|initEvent|handle\w*|commit|emit\w*|animate\w*|updateLayoutChildren|detach\w*|attach|link|addGraphicItem|createElement|set|depend_)$/;
const TOKEN = /(?:this|p:[\w$]+|#\w+)(?:\.(?:\[(?:[^\[\]]|\[[^\[\]]*\])*\]|[\w$*]+))*/g;
const tokens = key => (key.match(TOKEN) || []).filter(t => !/^this\.view\b/.test(t));
const under = (a, b) => a === b || a.startsWith(b + '.');       // a lies at or below b
const longKey = v => v.long || v.key;

// expand interned parts: a value's full key
function fullKey(v) {
  if (v.k === 'path') return fullKey(v.base) + '.' + v.prop;
  if (v.k === 'app') return v.name + '(' + v.args.map(fullKey).join(',') + ')';
  if (v.k === 'alt') return 'alt{' + v.vals.map(fullKey).join('|') + '}';
  if (v.k === 'ite') return 'ite{' + fullKey(v.c) + '?' + fullKey(v.a) + ':' + fullKey(v.b) + '}';
  return longKey(v);
}

function analyse(p) {
  if (p._deps) return p._deps;
  const base = p.class('GrammarBase');
  const out = { base, methods: [], overflow: [], opaque: 0 };
  if (!base) return (p._deps = out);
  const isSub = cls => { for (let c = cls; c; c = c.base) if (c === base) return true; return false; };
  const refFn = new Set();
  for (const n of ['attach', 'detach']) { const m = p.member(base, n); if (m && m.fn) refFn.add(m.fn); }
  const reach = p.reaching(fn => refFn.has(fn));
  const touches = fn => { if (refFn.has(fn)) return false; let h = false; p.forEachNode(fn.body, n => { if (h) return false; if (ts.isPropertyAccessExpression(n) && ((n.name.text === 'spec' && n.expression.kind === SK.ThisKeyword) || /^(attach|detach)$/.test(n.name.text))) h = true; }); return h; };
  const specRead = fn => { let h = false; p.forEachNode(fn.body, n => { if (!h && ts.isPropertyAccessExpression(n) && n.name.text === 'spec' && n.expression.kind === SK.ThisKeyword) h = true; }); return h; };
  const nW = st => { let n = 0; for (let e = st.events; e; e = e.prev) if (e.ev.t === 'w') n++; return n; };
  const flat = (v, st) => {
    if (v.k === 'arr' && st.heap.get(v.key + '!elems')) return st.heap.get(v.key + '!elems').flatMap(x => flat(x, st));
    if (v.k === 'alt') return v.vals.flatMap(x => flat(x, st));
    if (v.k === 'ite') return [...flat(v.a, st), ...flat(v.b, st)];
    if (v.k === 'app' && (v.name === 'array' || v.name === 'spread') && v.args.length === 1) return flat(v.args[0], st);
    return [v];
  };
  let perPath = true, skipConfig = null, writes = null;
  const I = new Interp(p, {
    stepLimit: 300000, loops: 'atLeastOnce', isRelevant: touches,
    onCall(c) {
      const self = c.recv && c.recv.key === 'this';
      if (self && (c.name === 'attach' || c.name === 'detach')) {
        for (const a of c.args[0] ? flat(c.args[0], c.st) : []) c.st.push({ key: c.name + ' ' + a.key, t: c.name, v: a, fk: fullKey(a), node: c.node });
        return { value: c.recv };
      }
      if (self && /^(emit|off|on|commit|_updateComponentEncoders|_prepareRejoin)$/.test(c.name)) return { value: UNDEF };
      if (self && skipConfig && skipConfig.has(c.name)) { c.st.push({ key: 'call ' + c.name, t: 'call', name: c.name, args: c.args.map(fullKey), node: c.node }); return { value: c.recv }; }
      // reference collectors are summarised by what they were given and when
      if (/^(parse|collect|resolve|get)[A-Z]/.test(c.name) && !(c.targets || []).some(t => reach.has(t))) {
        if (c.recv && c.recv.key === 'this.view') return { value: V.app(c.name, c.args) };
        if (/^(parse|collect|resolve)/.test(c.name) && (!c.recv || c.recv.key === "this") && !(c.targets || []).some(t => t.body && specRead(t))) return { value: V.app(c.name + '@' + nW(c.st), c.args) };
      }
      if (c.recv && c.recv.key === 'this.view') return { value: V.app(c.name, c.args) };
    },
    onWrite(w) {
      const rooted = w.base.key === 'this' || w.base.key.startsWith('this.') || w.base.k === 'obj' || w.base.k === 'arr';
      if (!rooted) return;
      if (!perPath) { writes.push({ loc: w.base.key + '.' + w.prop, v: w.value, node: w.node }); return; }
      w.st.push({ key: 'w ' + w.base.key + '.' + w.prop + '=' + (w.value ? w.value.key : '?'), t: 'w', base: w.base.key, prop: w.prop, loc: w.base.key + '.' + w.prop, v: w.value || UNDEF, fk: w.value ? fullKey(w.value) : '', old: w.old, node: w.node });
    }
  });
  const done = new Map();
  for (const c of p.allSubs(base)) {
    const names = [...p.allMembers(c)].filter(([n, m]) => m.fn && m.kind !== 'accessor' && !/^(constructor)$/.test(n));
    const config = new Set(names.filter(([n, m]) => m.vis === 'public' && !LIFECYCLE.test(n) && n !== 'parse').map(([n]) => n));
    for (const [n, m] of names) {
      if (m.vis !== 'public' || LIFECYCLE.test(n)) continue;
      // a method is analysed once per class that resolves its helpers differently; inherited ones without own overrides are shared
      const key = m.cls.name + '.' + n, helper = [...config].map(x => p.member(c, x).cls.name).join();
      if (m.cls !== c && done.has(key + (n === 'parse' ? helper : ''))) continue;
      done.set(key + (n === 'parse' ? helper : ''), 1);
      perPath = reach.has(m.fn); skipConfig = n === 'parse' ? config : null; writes = [];
      const exits = I.runMethod(c, n);
      if (I.overflow) { out.overflow.push(c.name + '.' + n); I.overflow = false; continue; }
      out.methods.push({ cls: c, owner: m.cls, name: n, fn: m.fn, exits, perPath, writes });
    }
  }
  out.tokens = tokens; out.under = under; out.fullKey = fullKey;
  return (p._deps = out);
}
// which members of its parameter #idx a reference collector looks at ('*': computed names), through the helpers it hands it to
function paramFields(p, fn, idx, seen = new Set()) {
  const out = new Set();
  if (!fn || !fn.body || seen.has(fn)) return out;
  seen.add(fn);
  const par = fn.parameters[idx]; if (!par) return out;
  if (ts.isObjectBindingPattern(par.name)) { for (const e of par.name.elements) out.add(e.dotDotDotToken ? '*' : (e.propertyName || e.name).getText()); return out; }
  const syms = new Set([p.checker.getSymbolAtLocation(par.name)]);
  const strip = e => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isTypeAssertionExpression(e))) e = e.expression; return e; };
  const isPar = e => { e = strip(e); return e && ts.isIdentifier(e) && syms.has(p.checker.getSymbolAtLocation(e)); };
  p.forEachNode(fn.body, n => { if (ts.isVariableDeclaration(n) && n.initializer && isPar(n.initializer)) { if (ts.isIdentifier(n.name)) syms.add(p.checker.getSymbolAtLocation(n.name)); else if (ts.isObjectBindingPattern(n.name)) for (const e of n.name.elements) out.add(e.dotDotDotToken ? '*' : (e.propertyName || e.name).getText()); } });
  p.forEachNode(fn.body, n => {
    if (ts.isPropertyAccessExpression(n) && isPar(n.expression)) out.add(n.name.text);
    else if (ts.isElementAccessExpression(n) && isPar(n.expression)) { const c = p.constOf ? p.constOf(n.argumentExpression) : undefined; out.add(typeof c === 'string' ? c : '*'); }
    else if (ts.isCallExpression(n)) n.arguments.forEach((a, i) => { if (ts.isSpreadElement(a) || !isPar(a)) return; const t = /^Object\.(values|entries)$/.test(n.expression.getText()); if (t) out.add('*'); for (const f of (p.resolveCall(n) || {}).targets || []) for (const x of paramFields(p, f, i, seen)) out.add(x); });
    else if (ts.isForInStatement(n) && isPar(n.expression)) out.add('*');
    else if ((ts.isSpreadAssignment(n) || ts.isSpreadElement(n)) && isPar(n.expression)) out.add('*');
  });
  return out;
}
module.exports = { paramFields, analyse, tokens, under, fullKey };
