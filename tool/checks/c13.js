'use strict';
const { ts, SK, unparen, isFn } = require('../lib/program');
const { transforms } = require('../lib/registry');
const { PTA } = require('../lib/pta');
exports.rule = 'For every registered transform an inclusion-based points-to analysis starts from the upstream array (and everything reachable from it) and computes all program points, in the transform and in every function it reaches, that may modify one of these objects. Allowed are only stores of option-named output fields into the records by the transforms that document them.';
// transforms whose documented purpose is to write option-named output fields into the upstream records
const OUTPUT_FIELDS = { map: /^data(\[\])?$/, join: /^data\[\]$/, identifier: /^data\[\]$/, geoPath: /^data\[\]$/, wordcloud: /^data\[\]$/, wordcloudShape: /^data\[\]$/ };
const enclosing = n => { while (n && !isFn(n)) n = n.parent; return n; };
const isView = (p, fn) => { const c = p.enclosingClass(fn); if (!c) return false; for (let k = c; k; k = k.base) if (k.name === 'GrammarBase') return true; return false; };
exports.run = (p, rep) => {
  let insts = 0, objs = 0;
  const dynKey = (p, node) => {
    const n = node && ts.isBinaryExpression(node) ? unparen(node.left) : null;
    if (n && ts.isElementAccessExpression(n)) { try { const t = p.checker.getTypeAtLocation(n.argumentExpression); return !(t.flags & ts.TypeFlags.NumberLike) && p.constOf(n.argumentExpression) === undefined; } catch (e) { return true; } }
    return false;
  };
  const seen = new Set();
  for (const t of transforms(p)) {
    if (!t.fn || seen.has(t.key + p.nid(t.fn))) continue;
    seen.add(t.key + p.nid(t.fn));
    const A = new PTA(p, { skip: fn => isView(p, fn) });
    const params = t.fn.parameters.map((x, i) => i === 0 ? new Set([A.input('options')]) : i === 1 ? new Set([A.input('data')]) : A.EXTS);
    A.entry(t.fn, params);
    A.solve();
    insts += A.insts.size; objs += A.objs.length;
    if (!A.converged) rep.error(`points-to analysis of '${t.key}' did not converge`);
    const bad = [];
    for (const m of A.muts.values()) {
      if (m.o.kind !== 'input' || !/^data\b/.test(m.o.path)) continue;
      const ok = OUTPUT_FIELDS[t.key];
      if (ok && ok.test(m.o.path) && (dynKey(p, m.node) || (m.how === 'Object.assign' && m.o.path === 'data[]'))) continue;
      bad.push(m);
    }
    const b = bad[0];
    rep.ob('upstream-read-only', !b, { key: `${t.key}${b ? '|' + b.o.path + '|' + b.how : ''}`, where: p.loc(b ? b.node : t.fn), msg: b ? `transform '${t.key}' may modify its upstream value ${b.o.path}${b.f === '[]' ? '' : '.' + b.f} (${b.how}) in ${p.qual(enclosing(b.node) || t.fn)}` : '' });
  }
  rep.atLeast('upstream-read-only', 30);
  rep.extra.contexts_analysed = insts;
  rep.extra.abstract_objects = objs;
  rep.assumptions.push('third-party functions and user callbacks do not modify what they are given; objects nested more than four levels are summarised by their ancestor');
};
