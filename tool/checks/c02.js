'use strict';
const { ts } = require('../lib/program');
const { Interp, UNDEF } = require('../lib/flow');
const { analyse, tokens, fullKey, paramFields } = require('../lib/deps');
exports.rule = 'Paired-event dataflow over every path of every public configuration method of every grammar class: when a method stores a value into an option that carries references, it attaches the references collected from the new value and detaches those collected from the value it replaces, and it detaches nothing whose option it leaves in place. The bookkeeping itself (attach, detach, detachAll) is checked path by path: one attach adds one count and one target, one detach removes exactly that.';
exports.run = (p, rep) => {
  const D = analyse(p);
  if (!rep.need(D.base, 'class GrammarBase')) return;
  for (const o of D.overflow) rep.error('analysis of ' + o + ' exceeded its step bound');
  const nilOrFalsy = (st, key) => st.facts.get('N|' + key) === true || st.facts.get('T|' + key) === false;
  const rooted = loc => { let s = loc; for (;;) { return s; } };
  // ---- per path: resolve fresh objects stored in the grammar, number the writes
  const prep = x => {
    const ev = x.st.list(); const W = [], A = [], Dt = [], calls = []; let n = 0;
    const home = new Map();
    for (const e of ev) if (e.t === 'w' && e.base.startsWith('this') && e.v && (e.v.k === 'obj' || e.v.k === 'arr')) home.set(e.v.key, e.loc);
    for (const e of ev) {
      if (e.t === 'w') {
        let loc = e.loc;
        if (!e.base.startsWith('this')) { const h = [...home].find(([k]) => e.base === k || e.base.startsWith(k + '.')); if (!h) continue; loc = h[1] + e.base.slice(h[0].length) + '.' + e.prop; }
        W.push({ i: n, loc, v: e.v, fk: e.fk, fresh: !e.base.startsWith('this'), node: e.node });
        // the members of an object built on this path and stored in one piece
        if (e.v.k === 'obj' && e.base.startsWith('this')) for (const [k, v] of x.st.heap) if (k.startsWith(e.v.key + '.') && v && v.key && v.k !== 'fn' && !ev.some(o => o.t === 'w' && o.loc === k)) { const f = fullKey(v); if (!tokens(f).includes(loc + k.slice(e.v.key.length))) W.push({ i: n, loc: loc + k.slice(e.v.key.length), v, fk: f, fresh: false, part: true, node: e.node }); }
        n++;
      } else if (e.t === 'call') calls.push(e);
      else {
        const toks = []; // {t, i}: path and the number of writes before it was read
        const stamps = [...e.fk.matchAll(/@(\d+)\(/g)].map(m => +m[1]);
        for (const t of tokens(e.fk)) toks.push({ t, i: stamps.length ? Math.min(...stamps) : n });
        (e.t === 'attach' ? A : Dt).push({ e, toks, nil: e.v.k === 'lit' && (e.v.v === null || e.v.v === undefined), node: e.node });
      }
    }
    return { x, W, A, D: Dt, calls, home };
  };
  const wild = seg => seg === '*' || seg.startsWith('[');
  const segs = k => k.match(/^(?:this|p:[\w$]+|#\w+)|\[(?:[^\[\]]|\[[^\[\]]*\])*\]|[\w$*]+/g) || [k];
  // a lies at or below b; computed members match each other
  const under = (a, b) => { const x = segs(a), y = segs(b); return x.length >= y.length && y.every((s, i) => s === x[i] || (wild(s) && wild(x[i]))); };
  const own = loc => /^this\./.test(loc) && !/^this\.(?:spec\.)?.*\.spec(\.|$)/.test(loc);
  const newToks = (w, x) => {
    if (w.v.k === 'lit') return [];
    const t = tokens(w.fk);
    if (w.v.k === 'obj') { for (const [k, v] of x.st.heap) if (k.startsWith(w.v.key + '.') && v && v.key) t.push(...tokens(v.long || v.key)); const sp = x.st.heap.get(w.v.key + '!spread'); if (sp) for (const s of sp) t.push(...tokens(s.long || s.key)); }
    return t;
  };
  // ---- which locations carry references: something collected from the written value is attached
  const managed = new Map();           // class name of the owner -> Set of locations
  const data = new Map();
  for (const m of D.methods) {
    const paths = m.perPath ? m.exits.map(prep) : []; data.set(m, paths);
    const set = managed.get(m.owner.name) || managed.set(m.owner.name, new Set()).get(m.owner.name);
    m.managed = new Set();
    for (const P of paths) for (const a of P.A) for (const w of P.W) {
      if (!own(w.loc)) continue;
      const nt = w.v.k === 'lit' ? [] : tokens(w.fk);
      for (const { t, i } of a.toks) {
        let loc = null;
        for (const q of nt) { if (under(q, t)) loc = w.loc; else if (under(t, q)) loc = tokens(w.fk).length === 1 && w.fk === q && w.v.k !== 'obj' ? w.loc + t.slice(q.length) : w.loc; }
        if (!loc && t.startsWith('this.') && under(w.loc, t) && i > w.i) loc = w.loc;
        if (loc) loc = loc.replace(/(\.\*)\.\[.*$/, '$1');
        if (loc && !/\.\*\./.test(loc)) { m.managed.add(loc); set.add(loc); }
      }
    }
    for (const P of paths) for (const d of P.D) for (const { t } of d.toks) if (own(t) && t !== 'this.spec' && !/\.\*\./.test(t)) { const loc = t.replace(/(\.\*)\.\[.*$/, '$1'); if (P.W.some(w => w.loc === loc && !w.fresh)) { m.managed.add(loc); set.add(loc); }
      for (const w of P.W) if (w.loc === 'this.spec' && under(t, w.loc) && t !== w.loc && /^p:\w+$/.test(w.fk)) { (m.byWhole = m.byWhole || new Set()).add(t); } }
    // locations written from the same value belong together (an option and its parsed form)
    for (const P of paths) for (const w of P.W) for (const v of P.W) if (w !== v && own(w.loc) && own(v.loc) && m.managed.has(w.loc) && m.managed.has(v.loc) && w.v.k !== 'lit' && v.v.k !== 'lit' && tokens(w.fk).some(t => /^(p:|#)/.test(t) && tokens(v.fk).includes(t))) { const g = (m.peers = m.peers || new Map()); (g.get(w.loc) || g.set(w.loc, new Set()).get(w.loc)).add(v.loc); }
  }
  const managedOf = cls => { const r = new Set(); for (let c = cls; c; c = c.base) for (const l of managed.get(c.name) || []) r.add(l); return r; };
  exports.managed = managed;
  // the released references were collected from the value that is being stored, not from the one it replaces
  const newOnly = (d, q) => { const n = d.toks.filter(({ t }) => t.startsWith('p:')); return n.length > 0 && n.some(({ t }) => q.W.some(w => w.v.k !== 'lit' && tokens(w.fk).some(k => under(t, k) || under(k, t)))); };
  const fieldsOf = new Map();
  const collects = (fk, f, of) => { const r = fk.match(/([\w$]+)@\d+\((.*)\)$/); if (!r) return false;
    const idx = r[2].split(',').indexOf(of), key = r[1] + '#' + idx;
    if (!fieldsOf.has(key)) { const s = new Set(); for (const { node: fn } of p.functions) if (p.fnName(fn) === r[1]) for (const x of paramFields(p, fn, Math.max(0, idx))) s.add(x); fieldsOf.set(key, s); }
    const s = fieldsOf.get(key); return s.has(f) || s.has('*'); };
  // an option left in place is detached and attached again as often
  const balanced = (t, X, Y) => { const n = Z => Z.filter(z => z.toks.some(b => b.t === t)).length; return n(X) > 0 && n(X) === n(Y); };
  let paths = 0, pairs = 0;
  const say = (clause, ok, m, what, where, msg) => rep.ob(clause, ok, { key: m.owner.name + '.' + m.name + (what ? '|' + what : ''), where: p.loc(where || m.fn), msg });
  for (const m of D.methods) {
    const all = managedOf(m.cls);
    if (!m.perPath) {
      const bad = m.writes.filter(w => w.loc.startsWith('this') && !(w.v && w.v.k === 'lit' && (w.v.v === undefined || w.v.v === null) && false) && [...all].some(l => l === w.loc));
      if (bad.length || m.writes.some(w => w.loc.startsWith('this.spec'))) say('replace-releases', bad.length === 0, m, bad[0] && bad[0].loc, bad[0] && bad[0].node, `${m.cls.name}.${m.name}() overwrites ${bad[0] && bad[0].loc}, which carries references, without attaching or detaching anything`);
      continue;
    }
    const P = data.get(m); paths += P.length;
    const res = { attach: null, detach: null, drop: null, leak: null };
    for (const q of P) {
      const { x, W, A, D: Dt } = q;
      const degenerate = toks => toks.some(({ t }) => [...t.matchAll(/\[[^\]]*?(p:[\w$]+)/g)].some(r => x.st.facts.get('T|' + r[1]) === false));
      // A/B: every reference-carrying location that is written
      for (const w of W) {
        const mine = [...m.managed].some(l => l === w.loc || (under(l, w.loc) && w.v.k !== 'obj'));
        const overwritten = [...all].filter(l => l === w.loc || (under(l, w.loc) && !w.fresh && (m.name !== 'parse' || m.managed.has(l))));
        for (const l of m.byWhole || []) if (w.loc === 'this.spec' && /^p:\w+$/.test(w.fk)) { const t = w.fk + l.slice(w.loc.length);
          if (nilOrFalsy(x.st, t) || A.some(a => a.toks.some(b => under(b.t, t) || under(t, b.t))) || q.calls.some(c => c.args.some(k => tokens(k).some(b => under(b, t) || under(t, b) && b !== w.fk)))) continue;
          res.attach = res.attach || { w, msg: `${m.cls.name}.${m.name}() releases the references of ${l} and replaces it with ${t} on a path that does not attach the references of the new value` }; }
        if (!overwritten.length) continue;
        pairs++;
        // new value
        const nt = newToks(w, x).filter(t => t.startsWith('p:') || (t.startsWith('#') && false));
        const none = [...x.st.facts].some(([k, v]) => ((k.startsWith('N|') && v === true) || (k.startsWith('T|') && v === false)) && /\(/.test(k) && !/^..(is[A-Z]|array\()/.test(k) && tokens(k).some(t => nt.includes(t)));
        if (mine && nt.length && !none && !nilOrFalsy(x.st, w.v.key)) {
          const roots = nt.map(t => t.match(/^p:[\w$]+/)[0]);
          const live = nt.filter(t => !nilOrFalsy(x.st, t) && !nilOrFalsy(x.st, t.match(/^p:[\w$]+/)[0]));
          const isArr = live.length && live.every(t => x.st.facts.get('T|isArray(' + t + ')') === true) && A.some(a => a.nil);
          const later = W.some(v => v.i > w.i && v.loc === w.loc);
          const got = A.some(a => a.toks.some(({ t, i }) => live.some(n => under(t, n) || under(n, t)) || (t.startsWith('this') && under(w.loc, t) && i > w.i) || (w.v.k === 'obj' && under(t, w.v.key))));
          if (live.length && !isArr && !later && !got) res.attach = res.attach || { w, msg: `${m.cls.name}.${m.name}() stores a new ${w.loc} on a path that does not attach the references of the new value` };
        }
        if (w.loc === 'this.spec' && (w.v.k !== 'obj' || x.st.heap.has(w.v.key + '!spread')) && Dt.some(d => d.toks.some(b => b.t === 'this.spec')) && !A.some(a => a.toks.some(b => b.t === 'this.spec' && b.i > w.i || b.t === w.v.key || newToks(w, x).includes(b.t)))) res.attach = res.attach || { w, msg: `${m.cls.name}.${m.name}() replaces the whole spec and releases its references on a path that does not attach those of the new one` };
        // old value
        for (const l of overwritten) {
          if (W.some(v => v.i < w.i && under(l, v.loc))) continue;                     // already replaced on this path
          if (w.fresh) continue;
          const group = [l, ...((m.peers && m.peers.get(l)) || [])];
          const gone = o => nilOrFalsy(x.st, o) || nilOrFalsy(x.st, o.replace(/\.[^.]*$/, ''))
            || [...x.st.facts].some(([k, v]) => ((k.startsWith('N|') && v === true) || (k.startsWith('T|') && v === false)) && /\(/.test(k) && !/^..(is[A-Z]|array\()/.test(k) && tokens(k).includes(o))
            || (x.st.facts.get('T|isArray(' + o + ')') === true && Dt.some(d => d.nil));
          if (group.some(gone)) continue;
          if (w.v.k === 'obj' && l !== w.loc) { const kept = x.st.heap.get(w.v.key + l.slice(w.loc.length)); if (kept && tokens(kept.long || kept.key).includes(l)) continue; }
          const rel = Dt.some(d => !newOnly(d, q) && d.toks.some(({ t, i }) => group.some(o => under(t, o) || (under(o, t) && i <= w.i))));
          if (!rel) res.detach = res.detach || { w, l, msg: `${m.cls.name}.${m.name}() replaces ${l} on a path that does not detach the references of the old value` };
        }
      }
      // C: a detached reference belongs to an option that is replaced on this path
      for (const d of Dt) {
        if (d.nil || degenerate(d.toks)) continue;
        const mineT = d.toks.filter(({ t }) => t.startsWith('this.'));
        const replaced = mineT.some(({ t }) => W.some(w => under(t, w.loc)));
        const whole = mineT.some(({ t }) => W.some(w => under(w.loc, t)) && A.some(a => a.toks.some(b => b.t === t && W.some(w => under(w.loc, t) && w.i < b.i))));
        if (newOnly(d, q)) res.drop = res.drop || { w: d, msg: `${m.cls.name}.${m.name}() detaches the references of the new value (${d.toks.find(t => t.t.startsWith('p:')).t}) instead of those it replaces` };
        else if (!replaced && !whole && !mineT.some(({ t }) => balanced(t, A, Dt))) res.drop = res.drop || { w: d, msg: `${m.cls.name}.${m.name}() detaches the references of ${(mineT[0] || d.toks[0] || { t: '?' }).t} on a path that leaves that option in place` };
      }
      // C2: options that a replacement of the whole spec takes over keep their references
      for (const w of W) if (w.loc === 'this.spec' && w.v.k === 'obj' && !w.part) for (const [k, v] of x.st.heap) {
        if (!k.startsWith(w.v.key + '.') || !v || !v.key) continue;
        const loc = 'this.spec' + k.slice(w.v.key.length), kept = tokens(fullKey(v)).find(t => t === loc);
        if (!kept || !all.has(loc) || nilOrFalsy(x.st, loc)) continue;
        const count = Z => Z.filter(z => z.toks.some(b => b.t === loc) || ['this.spec', w.v.key].some(o => z.toks.some(b => b.t === o) && collects(z.e.fk, loc.slice(10), o))).length;
        if (count(Dt) > count(A)) res.drop = res.drop || { w, msg: `${m.cls.name}.${m.name}() keeps ${loc} but detaches its references on a path that does not attach them again` };
      }
      // D: an attached reference belongs to an option that is stored on this path
      for (const a of A) {
        if (a.nil || degenerate(a.toks)) continue;
        if (!a.toks.length) continue;
        const ok = a.toks.some(({ t, i }) => W.some(w => newToks(w, x).some(n => under(t, n) || under(n, t)) || (w.v.k === 'obj' && under(t, w.v.key)) || (t.startsWith('this') && (under(w.loc, t) || under(t, w.loc)))));
        if (!ok && !a.toks.some(({ t }) => balanced(t, Dt, A))) res.leak = res.leak || { w: a, msg: `${m.cls.name}.${m.name}() attaches references of ${a.toks[0].t} on a path that does not store that value` };
      }
    }
    if (!P.some(q => q.A.length || q.D.length)) continue;
    say('new-value-attached', !res.attach, m, res.attach && res.attach.w.loc, res.attach && res.attach.w.node, res.attach && res.attach.msg);
    say('replace-releases', !res.detach, m, res.detach && res.detach.l, res.detach && res.detach.w.node, res.detach && res.detach.msg);
    say('release-matches', !res.drop, m, null, res.drop && res.drop.w.node, res.drop && res.drop.msg);
    say('attach-remembered', !res.leak, m, null, res.leak && res.leak.w.node, res.leak && res.leak.msg);
  }
  bookkeeping(p, rep, D);
  rep.atLeast('replace-releases', 70); rep.atLeast('release-matches', 60);
  rep.extra.paths = paths; rep.extra.pairs = pairs;
  rep.extra.reference_options = Object.fromEntries([...managed].filter(([, s]) => s.size).map(([k, s]) => [k, [...s]]));
};

// ---- attach / detach / detachAll: counts and targets move together
function bookkeeping(p, rep, D) {
  const evs = new Map();
  const attachFn = (p.member(D.base, 'attach') || {}).fn, detachFn = (p.member(D.base, 'detach') || {}).fn;
  const mentions = fn => { let h = false; p.forEachNode(fn.body, n => { if (!h && ts.isPropertyAccessExpression(n) && /^(targets|references)$/.test(n.name.text)) h = true; }); return h; };
  const I = new Interp(p, {
    stepLimit: 80000, loops: 'atLeastOnce', isRelevant: fn => fn !== attachFn && fn !== detachFn && mentions(fn),
    onCall(c) {
      const r = c.recv && c.recv.key;
      if (r === 'this.references' && /^(set|delete|clear)$/.test(c.name)) { c.st.push({ key: c.name + c.args.map(fullKey), t: c.name, args: c.args, node: c.node }); return { value: UNDEF }; }
      if (r === 'this' && /^(attach|detach)$/.test(c.name) && c.ctx.depth >= 0 && c.ctx.fnNode !== undefined && I.cur !== c.name) { c.st.push({ key: c.name + c.args.map(fullKey), t: 'call-' + c.name, args: c.args, node: c.node }); return { value: c.recv }; }
      if (r && /\.targets$/.test(r) && c.name === 'push' && c.args.some(a => a.key === 'this')) c.st.push({ key: 'push' + r, t: 'join', node: c.node });
      if (r && /\.targets$/.test(r) && /^(splice|pop|shift)$/.test(c.name)) c.st.push({ key: 'rm' + r, t: 'leave', node: c.node });
    },
    onWrite(w) { if (w.prop === 'targets') { const joins = w.value && /(concat|spread)/.test(fullKey(w.value)) && /\bthis\b/.test(fullKey(w.value)); w.st.push({ key: 'w' + w.base.key, t: joins ? 'join' : 'leave', node: w.node }); } }
  });
  const lin = v => {
    const r = { c: 0, t: new Map() };
    const add = (v, k) => {
      if (v.k === 'lit' && typeof v.v === 'number') { r.c += k * v.v; return; }
      if (v.k === 'app' && v.name === '+' && v.args.length === 2) { add(v.args[0], k); add(v.args[1], k); return; }
      if (v.k === 'app' && v.name === '-' && v.args.length === 2) { add(v.args[0], k); add(v.args[1], -k); return; }
      if (v.k === 'ite' && v.b.k === 'lit' && (v.b.v === 0 || v.b.v == null)) { add(v.a, k); return; }
      if (v.k === 'app' && (v.name === '??' || v.name === '||') && v.args[1] && v.args[1].k === 'lit' && v.args[1].v === 0) { add(v.args[0], k); return; }
      const q = v.k === 'app' && v.name === 'get' ? 'GET' : v.key === 'p:count' ? 'COUNT' : v.key;
      r.t.set(q, (r.t.get(q) || 0) + k);
    };
    add(v, 1);
    return r;
  };
  const is = (l, g, n, c) => l.c === c && (l.t.get('GET') || 0) === g && (l.t.get('COUNT') || 0) === n && [...l.t].every(([k, v]) => v === 0 || k === 'GET' || k === 'COUNT');
  const run = n => { I.cur = n; const m = p.member(D.base, n); if (!m || !m.fn) return null; const r = I.runMethod(D.base, n); if (I.overflow) { rep.error('analysis of GrammarBase.' + n + ' exceeded its step bound'); I.overflow = false; } return r && { m, r }; };
  const say = (n, ok, m, where, msg) => rep.ob('bookkeeping', ok, { key: 'GrammarBase.' + n, where: p.loc(where || m.fn), msg });
  // does the path know whether GET - COUNT is positive?
  const positive = x => {
    for (const [k, v] of x.st.facts) { const m = /^T\|(>=|<=|>|<)\((.*)\)$/.exec(k); if (!m) continue; const val = (I.cmp && I.cmp.get(k.slice(2))); if (!val) continue; const l = lin(val.args[0]), r = lin(val.args[1]); const d = { c: l.c - r.c, t: new Map(l.t) }; for (const [q, z] of r.t) d.t.set(q, (d.t.get(q) || 0) - z); let op = m[1], pos;
      if (is(d, 1, -1, d.c)) pos = op === '>' ? (d.c === 0 ? v : null) : op === '>=' ? (d.c === -1 ? v : null) : op === '<=' ? (d.c === 0 ? !v : null) : op === '<' ? (d.c === -1 ? !v : null) : null;
      else if (is(d, -1, 1, d.c)) pos = op === '<' ? (d.c === 0 ? v : null) : op === '<=' ? (d.c === 1 ? v : null) : op === '>=' ? (d.c === 0 ? !v : null) : op === '>' ? (d.c === 1 ? !v : null) : null;
      if (pos === true || pos === false) return pos; }
    return undefined;
  };
  // does the path know whether the grammar is among the targets?
  const member = x => {
    for (const [k, v] of x.st.facts) {
      if (!/targets/.test(k)) continue;
      if (/^T\|(includes|some|has)\(/.test(k)) return v;
      const m = /^T\|(>=|<=|>|<)\((.*)\)$/.exec(k);
      if (m && /indexOf\(|findIndex\(/.test(k)) { const val = I.cmp && I.cmp.get(k.slice(2)); if (!val) continue; const [a, b] = val.args; const lit = y => y.k === 'lit' ? y.v : y.k === 'app' && y.args.length === 1 && y.args[0].k === 'lit' ? -y.args[0].v : NaN; const n = lit(b); if (!(n === 0 || n === -1)) continue;
        const yes = m[1] === '>=' && n === 0 || m[1] === '>' && n === -1, no = m[1] === '<' && n === 0 || m[1] === '<=' && n === -1; if (yes) return v; if (no) return !v; }
      if (/^(EQ|E|=)/.test(k) && /indexOf\(/.test(k) && /-1|-\(L:number:1\)/.test(k)) return !v;
      if (/^T\|~?\(?indexOf/.test(k) && k.includes('~')) return v;
    }
    return undefined;
  };
  const at = run('attach');
  if (at) {
    let bad = null;
    for (const x of at.r) {
      const ev = x.st.list(), sets = ev.filter(e => e.t === 'set');
      if ([...x.st.facts].some(([k, v]) => k === 'N|p:reference' && v === true) || [...x.st.facts].some(([k, v]) => /^N\|/.test(k) && v === true && /p:reference/.test(k) && !/get\(/.test(k))) continue;
      if (sets.length !== 1 || !is(lin(sets[0].args[1]), 1, 1, 0)) bad = bad || 'a path does not add exactly the given count to the reference';
      else if (!ev.some(e => e.t === 'join') && member(x) !== true) bad = bad || 'a path does not enter the grammar among the targets of the reference';
      else if (ev.some(e => e.t === 'leave' || e.t === 'delete' || e.t === 'clear')) bad = bad || 'a path removes a target or reference';
    }
    say('attach', !bad, at.m, null, 'attach(): ' + bad);
  }
  const de = run('detach');
  if (de) {
    let bad = null;
    for (const x of de.r) {
      const ev = x.st.list(), sets = ev.filter(e => e.t === 'set'), dels = ev.filter(e => e.t === 'delete');
      if (!sets.length && !dels.length) continue;
      const pos = positive(x);
      if (sets.length && dels.length) bad = bad || 'a path both keeps and deletes the reference';
      else if (sets.length) {
        if (sets.length !== 1 || !is(lin(sets[0].args[1]), 1, -1, 0)) bad = bad || 'the remaining count is not the old count minus the given count';
        else if (ev.some(e => e.t === 'leave')) bad = bad || 'a path that keeps the reference removes the target';
        else if (pos === false) bad = bad || 'a reference with no count left is kept';
      } else {
        if (pos === true) bad = bad || 'a reference that is still counted is dropped';
        else if (!ev.some(e => e.t === 'leave') && member(x) !== false) bad = bad || 'a path drops the reference but stays among its targets';
      }
    }
    say('detach', !bad, de.m, null, 'detach(): ' + bad);
  }
  const all = run('detachAll');
  if (all) {
    const ok = all.r.some(x => x.st.list().some(e => e.t === 'call-detach')) && all.r.every(x => x.st.list().some(e => e.t === 'call-detach' && e.args.length === 2 || e.t === 'delete' || e.t === 'clear') );
    say('detachAll', ok, all.m, null, 'detachAll() does not detach every reference with its whole count');
  }
}
