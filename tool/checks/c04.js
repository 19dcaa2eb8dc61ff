'use strict';
const { ts, SK, isFn, unparen } = require('../lib/program');
const { Interp, V, UNDEF, saysEmpty } = require('../lib/flow');
exports.rule = 'Every path of Dataflow.evaluate (helpers and the commit set inlined, the queue abstract) is executed: each committed grammar is queued and the commit set is replaced by a new one before the first grammar runs and never afterwards; every queued grammar that is taken out is run or put back; after it ran all its targets are queued (unless the first render is not done); evaluation ends only when the queue is empty. Every path of commit, add, remove and of each method of View that records or unrecords a grammar performs the matching operations.';
exports.run = (p, rep) => {
  const flow = p.class('Dataflow'), view = p.class('View'), heap = p.class('Heap'), set = p.class('UniqueList');
  if (!rep.need(flow && view && heap, 'classes Dataflow, View and Heap')) return;
  const m = (c, n) => { const x = p.member(c, n); return x && x.fn; };
  for (const n of ['evaluate', 'commit', 'add', 'remove', 'hasCommitted']) if (!rep.need(m(flow, n), 'Dataflow.' + n)) return;
  const inFile = f => (p.enclosingClass(f) === flow || set && p.enclosingClass(f) === set || f.getSourceFile() === flow.node.getSourceFile());
  const matters = p.reaching(f => { let h = false; if (f.body && inFile(f)) p.forEachNode(f.body, n => { if (h) return false; if (ts.isPropertyAccessExpression(n) && /^(_committed|_heap|_finishFirstRender|run|list)$/.test(n.name.text)) h = true; }); return h; });
  const rel = new Set(p.functions.filter(f => f.node.body && inFile(f.node) && !ts.isConstructorDeclaration(f.node) && matters.has(f.node)).map(f => f.node));
  const ev = (c, t, v, extra) => c.st.push(Object.assign({ t, v, key: t + '|' + v + '|' + c.st.list().length, node: c.node }, extra));
  const isHeap = c => c.recv && (c.recv.key === 'this._heap' || c.targets && c.targets[0] && p.enclosingClass(c.targets[0]) === heap);
  const nil = (x, re) => [...x.st.facts].some(([k, v]) => { const mm = /^(T|N|NE)\|(.*)$/.exec(k); return mm && re.test(mm[2]) && (mm[1] === 'N' ? v === true : v === false); });
  const esc = s => s.replace(/[.*+?^${}()|[\]\\]/g, '\\$&');
  let paths = 0;
  const say = (clause, key, fn, viols) => rep.ob(clause, !viols.length, { key, where: p.loc(viols.length && viols[0].node || fn), msg: viols.length ? viols[0].msg : '' });
  // ---------------------------------------------------------------- evaluation
  {
    const fn = m(flow, 'evaluate');
    const I = new Interp(p, { relevantSet: rel, loops: 'atLeastOnce', recheckLoops: true, joinKey: st => [...st.facts].filter(([k, v]) => /^(T|N|NE)\||L:number:/.test(k) && /\.targets|_finishFirstRender|\?(pop|size)|_committed/.test(k)).map(([k, v]) => k + v).sort().join(), stepLimit: 300000, maxStates: 600, maxDepth: 8, smallNodes: 0, maxTargets: 1,
      onCall(c) {
        const k = c.recv ? c.recv.key : '';
        if (isHeap(c)) {
          const n = c.st.list().filter(e => /^(push|pop)$/.test(e.t)).length;
          if (c.name === 'push') { ev(c, 'push', c.args[0] ? c.args[0].key : ''); return { value: UNDEF }; }
          if (c.name === 'pop') { const v = V.root('?pop' + n); ev(c, 'pop', v.key); return { value: v }; }
          if (c.name === 'size' || c.name === 'last') { const v = V.root('?size' + n); ev(c, 'size', v.key); return { value: v }; }
          if (c.name === 'clear') { ev(c, 'clear', ''); return { value: UNDEF }; }
          return { value: V.app(c.name, [c.recv]) };
        }
        if (c.name === 'run' && c.recv && k !== 'this') { ev(c, 'run', k); return { value: UNDEF }; }
        if (/^(commit|add)$/.test(c.name) && k === 'this') return { value: UNDEF };
      },
      onWrite(w) {
        if (w.base.key !== 'this') return;
        if (w.prop === '_committed') ev(w, 'reset', '', { fresh: w.value && w.value.k !== 'path' });
        if (w.prop === '_finishFirstRender') ev(w, w.value && w.value.k === 'lit' && w.value.v === true ? 'first' : 'unfirst', '');
      } });
    const exits = I.runMethod(flow, 'evaluate') || []; paths += exits.length;
    if (I.overflow) rep.error('analysis of Dataflow.evaluate exceeded its step bound');
    if (process.env.DBG) for (const x of exits) console.log(x.st.list().map(e => e.t + ':' + e.v).join(' '), [...x.st.facts].join(' '));
    const V1 = { taken: [], fresh: [], never: [], popped: [], targets: [], drained: [], first: [], kept: [] };
    const falsyOf = (x, ...ks) => [...x.st.facts].some(([k, v]) => ks.some(s => saysEmpty(k, v, s)));
    let runs = 0;
    for (const x of exits) {
      const l = x.st.list(); const at = t => l.findIndex(e => e.t === t);
      const firstRun = at('run'), reset = at('reset'), popped = at('pop');
      if (firstRun >= 0) runs++;
      if (reset < 0) {
        const empty = falsyOf(x, 'this._committed', 'this._committed.length', 'this._committed.size', 'this._committed.list', 'this._committed.list.length');
        if (!empty || popped >= 0) V1.taken.push({ node: fn, msg: 'a dataflow run can go by without taking over the committed grammars' });
        continue;
      }
      const took = l.slice(0, reset + 1).concat(l.slice(reset + 1)).findIndex(e => e.t === 'push' && /^this\._committed.*\[\*\]/.test(e.v));
      const skipped = nil(x, /^this\._committed.*\[\*\]$/);
      if (took < 0 && !skipped) V1.taken.push({ node: l[reset].node, msg: 'the commit set is replaced without its grammars having been queued for evaluation' });
      if (took >= 0 && firstRun >= 0 && took > firstRun) V1.taken.push({ node: l[took].node, msg: 'a grammar is evaluated before the committed grammars are queued' });
      if (firstRun >= 0 && reset > firstRun) V1.fresh.push({ node: l[reset].node, msg: 'the commit set is replaced after grammars have been evaluated, losing what they committed' });
      l.forEach((e, i) => {
        if (e.t === 'reset' && firstRun >= 0 && i > firstRun) V1.fresh.push({ node: e.node, msg: 'the commit set is replaced after grammars have been evaluated, losing what they committed' });
        if (e.t === 'reset' && !e.fresh) V1.kept.push({ node: e.node, msg: 'the commit set is not replaced by a new, empty one' });
        if (e.t === 'clear') V1.drained.push({ node: e.node, msg: 'the queue is emptied without evaluating what is in it' });
        if (e.t === 'unfirst') V1.first.push({ node: e.node, msg: 'the end of the first render is revoked by a run' });
        if (e.t === 'pop') {
          const rest = l.slice(i + 1);
          if (!rest.some(q => (q.t === 'run' || q.t === 'push') && q.v === e.v) && !falsyOf(x, e.v)) V1.popped.push({ node: e.node, msg: 'a grammar taken from the queue is neither evaluated nor put back' });
        }
        if (e.t === 'run') {
          const rest = l.slice(i + 1), t = esc(e.v + '.targets');
          if (!/^\?pop/.test(e.v)) { V1.popped.push({ node: e.node, msg: `what is evaluated (${e.v}) was not taken from the queue` }); return; }
          const queued = rest.some(q => q.t === 'push' && new RegExp('^(.*\\()?' + t + '.*\\[\\*\\]').test(q.v));
          if (!queued && !falsyOf(x, e.v + '.targets', e.v + '.targets.length', 'this._finishFirstRender') && !nil(x, new RegExp('^(ite|alt)?.*' + t + '.*\\.\\[\\*\\]$'))) V1.targets.push({ x, node: e.node, msg: 'the dependents of an evaluated grammar are not queued' });
        }
      });
      const hs = l.filter(e => /^(push|pop|size)$/.test(e.t)); const last = hs[hs.length - 1];
      const drained = last && last.t === 'size' && falsyOf(x, last.v);
      if (!drained) V1.drained.push({ node: last ? last.node : fn, msg: 'evaluation can end while grammars are still queued' });
      if (at('first') < 0) V1.first.push({ node: fn, msg: 'a run that evaluated does not mark the first render as done, so that dependents are never queued' });
    }
    if (process.env.DBG2) for (const v of V1.targets.slice(0, 2)) console.log(v.x.st.list().map(e => e.t + ':' + e.v).join(' '), [...v.x.st.facts].join(' '));
    rep.need(runs, 'a path of Dataflow.evaluate that evaluates a grammar');
    say('evaluate', 'committed are queued', fn, V1.taken); say('evaluate', 'reset before the first run', fn, V1.fresh); say('evaluate', 'reset to an empty set', fn, V1.kept); say('evaluate', 'taken is evaluated', fn, V1.popped);
    say('evaluate', 'dependents are queued', fn, V1.targets); say('evaluate', 'queue is drained', fn, V1.drained); say('evaluate', 'first render is marked', fn, V1.first);
    // the first-render mark is not revoked anywhere
    const bad = [];
    for (const sf of p.files) p.forEachNode(sf, n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === SK.EqualsToken && ts.isPropertyAccessExpression(n.left) && n.left.name.text === '_finishFirstRender' && n.right.kind !== SK.TrueKeyword) { let a = n; while (a && !isFn(a)) a = a.parent; if (!a || !ts.isConstructorDeclaration(a)) bad.push({ node: n, msg: 'the end of the first render is revoked' }); } });
    say('evaluate', 'first render stays marked', fn, bad);
  }
  // ---------------------------------------------------------------- the operations on the dataflow
  const plain = (cls, name, args, onCall, onWrite, relevant, extra) => {
    const I = new Interp(p, Object.assign({ relevantSet: relevant || new Set(), stepLimit: 200000, maxStates: 400, maxDepth: 6, smallNodes: 0, maxTargets: 1, onCall, onWrite }, extra));
    const exits = I.runMethod(cls, name) || []; paths += exits.length;
    if (I.overflow) rep.error(`analysis of ${cls.name}.${name} exceeded its step bound`);
    return exits;
  };
  const isSet = c => c.recv && /^this\._committed$/.test(c.recv.key);
  const own = new Set(p.functions.filter(f => f.node.body && p.enclosingClass(f.node) === flow && !['commit', 'add', 'remove'].includes(p.fnName(f.node))).map(f => f.node));
  {
    const par = n => 'p:' + n; void par;
    const onCall = c => {
      if (isSet(c) && (c.name === 'add' || c.name === 'remove' || c.name === 'push' || c.name === 'delete')) { ev(c, 'set.' + (c.name === 'push' ? 'add' : c.name === 'delete' ? 'remove' : c.name), c.args[0] ? c.args[0].key : ''); return { value: c.recv }; }
      if (isHeap(c)) { ev(c, 'heap.' + c.name, c.args[0] ? c.args[0].key : ''); return { value: V.app(c.name, [c.recv]) }; }
      if (c.name === 'commit' && c.recv && c.recv.key === 'this') { ev(c, 'set.add', c.args[0] ? c.args[0].key : ''); return { value: c.recv }; }
      if (c.recv && c.recv.key === 'this.grammars' && c.name === 'push') { ev(c, 'list.add', c.args[0] ? c.args[0].key : ''); return { value: UNDEF }; }
      if (c.recv && c.recv.key === 'this.grammars' && c.name === 'splice') { ev(c, 'list.remove', ''); return { value: UNDEF }; }
    };
    const onWrite = w => { if (w.base.key === 'this' && w.prop === 'grammars') ev(w, 'list.remove', ''); if (w.base.key === 'this' && w.prop === '_committed') ev(w, 'list.set', ''); };
    const param = n => { const f = m(flow, n); return f.parameters[0] && f.parameters[0].name.getText(); };
    const need = (name, ops, skipNil) => {
      const fn = m(flow, name), bad = []; const exits = plain(flow, name, null, onCall, onWrite, own);
      rep.need(exits.length, 'a path through Dataflow.' + name);
      if (process.env.DBG) for (const x of exits) console.log(name, x.st.list().map(e => e.t + ':' + e.v).join(' '), [...x.st.facts].join(' '));
      for (const x of exits) {
        if (skipNil && [...x.st.facts].some(([k, v]) => /^[TN]\|/.test(k) && !/[.(\[]/.test(k.slice(2)) && (k[0] === 'T' ? v === false : v === true))) continue;
        for (const [op, what, unless] of ops) if (!x.st.list().some(e => e.t === op) && !(unless && [...x.st.facts].some(([k, v]) => unless(k, v)))) bad.push({ node: fn, msg: `Dataflow.${name} can return without ${what}` });
      }
      say('operations', name, fn, bad);
    };
    need('commit', [['set.add', 'adding the grammar to the commit set']], false);
    need('add', [['set.add', 'committing the grammar'], ['list.add', 'recording the grammar', (k, v) => /includes|indexOf|has|some/.test(k)]], true);
    need('remove', [['set.remove', 'dropping the grammar from the commit set'], ['heap.remove', 'dropping the grammar from the queue'], ['list.remove', 'dropping the grammar from the list of grammars', (k, v) => /includes|indexOf|has/.test(k)]], true);
  }
  // ---------------------------------------------------------------- the commit set: marked <=> listed
  if (set && set.members.has('add') && set.members.has('remove') && /\bids\b/.test(set.node.getText()) && /\blist\b/.test(set.node.getText())) {
    const onCall = c => { if (c.recv && c.recv.key === 'this' && c.name === 'idFunc' || /^this\.idFunc$/.test(c.fnVal && c.fnVal.key || '')) return { value: V.root('?id') }; if (c.recv && c.recv.key === 'this.list' && /^(push|unshift)$/.test(c.name)) { ev(c, 'list+', ''); return { value: UNDEF }; } if (c.recv && c.recv.key === 'this.list' && c.name === 'splice') { ev(c, 'list-', ''); return { value: UNDEF }; } };
    const onWrite = w => { if (/^this\.ids$/.test(w.base.key)) ev(w, w.value && w.value.k === 'lit' && !w.value.v ? 'ids-' : 'ids+', ''); if (w.base.key === 'this' && w.prop === 'list') ev(w, /^filter/.test(w.value && w.value.key || '') || w.value && w.value.k !== 'path' ? 'list-' : 'list?', ''); };
    for (const [name, plus, known] of [['add', '+', true], ['remove', '-', false]]) {
      const fn = m(set, name), bad = []; const exits = plain(set, name, null, onCall, onWrite, new Set());
      if (process.env.DBG) for (const x of exits) console.log(name, x.st.list().map(e => e.t).join(' '), [...x.st.facts].join(' '));
      for (const x of exits) {
        const l = x.st.list().map(e => e.t); const a = l.includes('list' + plus), b = l.includes('ids' + plus);
        if (a !== b) bad.push({ node: fn, msg: `the commit set's ${name} can ${a ? (plus === '+' ? 'list an element without marking it' : 'unlist an element that stays marked') : plus === '+' ? 'mark an element without listing it' : 'unmark an element that stays listed'}` });
        else if (!a && ![...x.st.facts].some(([k, v]) => /this\.ids/.test(k) && (k[0] === 'T' ? v === known : k[0] === 'E' ? false : k[0] === 'N' && v === true && !known))) bad.push({ node: fn, msg: `the commit set's ${name} can return without ${plus === '+' ? 'adding an element that is not in it' : 'removing an element that is in it'}` });
      }
      rep.need(exits.length, 'a path through UniqueList.' + name);
      say('operations', 'set ' + name, fn, bad);
    }
  }
  // ---------------------------------------------------------------- the view
  {
    const isFlow = c => c.recv && /^this\._dataflow$/.test(c.recv.key) || c.targets && c.targets[0] && p.enclosingClass(c.targets[0]) === flow;
    const onCall = c => {
      if (isFlow(c)) { ev(c, 'flow.' + c.name, c.args[0] ? c.args[0].key : ''); return { value: UNDEF }; }
      if (c.recv && c.recv.key === 'this.grammars' && (c.name === 'record' || c.name === 'unrecord')) { ev(c, c.name, c.args[0] ? c.args[0].key : ''); return { value: c.recv }; }
      if (c.name === 'commit' && c.recv && c.recv.key === 'this') { ev(c, 'flow.commit', c.args[0] ? c.args[0].key : ''); return { value: c.recv }; }
    };
    const touches = fn => { let h = false; p.forEachNode(fn.body, n => { if (h) return false; if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && (/^(record|unrecord)$/.test(n.expression.name.text) && /grammars$/.test(n.expression.expression.getText()) || /_dataflow$/.test(n.expression.expression.getText()) && /^(add|remove|commit)$/.test(n.expression.name.text))) h = true; }); return h; };
    const helpers = new Set(p.functions.filter(f => f.node.body && p.enclosingClass(f.node) === view && ts.isMethodDeclaration(f.node) && (f.node.modifiers || []).some(x => x.kind === SK.PrivateKeyword) && touches(f.node)).map(f => f.node));
    let n = 0;
    const callsHelper = fn => { let h = false; p.forEachNode(fn.body, q => { if (!h && ts.isCallExpression(q) && (p.resolveCall(q).targets || []).some(t => helpers.has(t))) h = true; }); return h; };
    for (const [name, mem] of view.members) {
      const fn = mem.fn; if (!fn || !fn.body || helpers.has(fn) || !(touches(fn) || callsHelper(fn))) continue;
      const exits = plain(view, name, null, onCall, () => {}, helpers, { loops: 'atLeastOnce' });
      const bad = [];
      for (const x of exits) {
        const l = x.st.list(); const has = (t, v) => l.some(e => e.t === t && e.v === v);
        for (const e of l) {
          if (e.t === 'record' && !has('flow.add', e.v)) bad.push({ node: e.node, msg: `View.${name} records a grammar that it does not hand to the dataflow` });
          if (e.t === 'flow.add' && !has('record', e.v)) bad.push({ node: e.node, msg: `View.${name} hands a grammar to the dataflow that it does not record` });
          if (e.t === 'unrecord' && !has('flow.remove', e.v)) bad.push({ node: e.node, msg: `View.${name} forgets a grammar that stays in the dataflow` });
          if (e.t === 'flow.remove' && l.slice(l.indexOf(e) + 1).some(q => q.t === 'flow.commit' && q.v === e.v)) bad.push({ node: e.node, msg: `View.${name} commits a grammar after removing it` });
        }
        if (name === 'commit' && !l.some(e => e.t === 'flow.commit')) bad.push({ node: fn, msg: 'View.commit can return without committing the grammar' });
      }
      n++;
      say('view', name, fn, bad);
    }
    for (const [name, t, what] of [['signal', 'flow.add', 'signal'], ['data', 'flow.add', 'data'], ['scale', 'flow.add', 'scale'], ['coordinate', 'flow.add', 'coordinate'], ['mark', 'flow.add', 'mark'], ['customized', 'flow.add', 'customized grammar'], ['addGrammar', 'flow.add', 'grammar'], ['removeGrammar', 'flow.remove', 'grammar']]) {
      const fn = m(view, name); if (!rep.need(fn, 'View.' + name)) continue;
      const exits = plain(view, name, null, onCall, () => {}, helpers, { loops: 'atLeastOnce' });
      const bad = exits.filter(x => {
        if (x.st.list().some(e => e.t === t)) return false;
        // an unknown type creates nothing; a grammar already (or not) in the view needs nothing
        const own = new Set(); return ![...x.st.facts].some(([k, v]) => /^(T|N)\|/.test(k) && (k[0] === 'T' ? v === (/(removeGrammar)/.test(name) ? false : /addGrammar/.test(name) ? true : false) : v === (!/addGrammar/.test(name))) && (/createGrammar|createMark|find|this\.grammars\.\[\*\]|getGrammarById|get[A-Z]\w*Mark/.test(k) || name === 'removeGrammar'));
      });
      if (process.env.DBG && bad.length) for (const x of bad) console.log(name, x.st.list().map(e => e.t + ':' + e.v).join(' '), [...x.st.facts].join(' '));
      say('view', name + ' reaches the dataflow', fn, bad.length ? [{ node: fn, msg: `View.${name} can return without ${t === 'flow.add' ? 'handing the new ' + what + ' to' : 'removing the ' + what + ' from'} the dataflow` }] : []);
    }
    rep.atLeast('view', 12);
  }
  rep.extra.paths = paths;
  rep.assumptions.push('The queue (Heap) and the commit set return what was put into them; exceptions thrown by a grammar are outside.');
};
