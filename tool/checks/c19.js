'use strict';
const { ts, SK, unparen } = require('../lib/program');
const { Interp, V, alts } = require('../lib/flow');
const { transforms } = require('../lib/registry');
exports.rule = 'Every transform implementation found by abstract execution of the registration functions is analysed path by path: no normal exit falls off the end or returns undefined/null, and the same holds for every repository function whose result it hands back; the static type of every returned expression is not a number, string or boolean.';
exports.run = (p, rep) => {
  const I = new Interp(p, { stepLimit: 60000, maxDepth: 5, smallNodes: 60, maxStates: 16,
    onOpaque(c) { const t = (c.targets || []).filter(x => x.body); if (t.length) return { value: Object.assign(V.app(c.name || '?', [...(c.recv ? [c.recv] : []), ...c.args, V.root('@' + p.nid(c.node))]), { targets: t }) }; } });
  const memo = new Map();
  // -> list of offending exits reachable through returned calls
  const offending = fn => {
    if (memo.has(fn)) return memo.get(fn);
    const out = [];
    memo.set(fn, out);
    I.overflow = false;
    const exits = I.runEntry(fn, { thisVal: V.root('this', p.enclosingClass(fn)), cls: p.enclosingClass(fn) });
    if (I.overflow) { rep.extra.unresolved = (rep.extra.unresolved || []).concat(p.qual(fn)); return out; }
    for (const x of exits) for (const v of alts(x.v)) {
      if (v.k === 'lit' && (v.v === undefined || v.v === null)) out.push({ fn, node: x.node || fn, how: x.implicit ? 'falls off the end' : 'returns ' + String(v.v) });
      if (v.targets) for (const t of v.targets) out.push(...offending(t));
    }
    return out;
  };
  for (const t of transforms(p)) {
    if (!t.fn) { rep.ob('delivers-result', t.val && t.val.k !== 'lit', { key: t.key, where: p.loc(t.node), msg: `the transform '${t.key}' is registered without an implementation` }); continue; }
    const bad = offending(t.fn);
    rep.ob('delivers-result', !bad.length, { key: `${t.key}|${bad.length ? p.qual(bad[0].fn) : ''}`, where: p.loc(bad.length ? bad[0].node : t.fn), msg: `transform '${t.key}' can deliver nothing: ${bad.length ? p.qual(bad[0].fn) + ' ' + bad[0].how : ''}` });
  }
  const PRIM = ts.TypeFlags.NumberLike | ts.TypeFlags.StringLike | ts.TypeFlags.BooleanLike;
  for (const t of transforms(p)) if (t.fn) {
    let bad = null;
    const visit = n => {
      if (bad) return;
      if (n !== t.fn && (ts.isFunctionLike(n))) return;
      const e = ts.isReturnStatement(n) ? n.expression : n === t.fn && !ts.isBlock(n.body) ? n.body : null;
      if (e) { const ty = p.checker.getTypeAtLocation(e); for (const x of ty.isUnion() ? ty.types : [ty]) if (x.flags & PRIM) bad = [e, p.checker.typeToString(x)]; }
      ts.forEachChild(n, visit);
    };
    visit(t.fn);
    rep.ob('result-is-data', !bad, { key: t.key + (bad ? '|' + bad[1] : ''), where: p.loc(bad ? bad[0] : t.fn), msg: bad ? `transform '${t.key}' returns a ${bad[1]}, not data` : '' });
  }
  rep.atLeast('delivers-result', 30); rep.atLeast('result-is-data', 30);
  rep.extra.functions_analysed = memo.size;
  rep.assumptions.push('results of third-party functions and of user callbacks are defined');
};
