'use strict';
const { ts } = require('../lib/program');
const { shared, holder, enclosing } = require('../lib/shared');
const { registration } = require('./c16');
exports.rule = 'Whole-program points-to analysis of every object that module initialisation or a static initialiser creates with content (default option tables, themes, palettes, dispatch tables, constant arrays): no program point outside module initialisation may store into, merge into, assign onto or reorder one of them. Registration functions may add entries to the table they own.';
exports.run = (p, rep) => {
  const S = shared(p), R = registration(p);
  if (!S.A.converged) rep.error('points-to analysis did not converge');
  const by = new Map();
  const empty = o => { const e = o.node; return o.A_empty !== undefined ? o.A_empty : (o.A_empty = (ts.isObjectLiteralExpression(e) && !e.properties.length) || (ts.isArrayLiteralExpression(e) && !e.elements.length && !deepIn(e)) || ts.isNewExpression(e)); };
  const deepIn = e => e.parent && (ts.isPropertyAssignment(e.parent) || ts.isArrayLiteralExpression(e.parent)); // an empty literal nested in a table is part of the table
  const isDefault = o => /default/i.test(holder(p, o.node)) && !ts.isNewExpression(o.node); // an empty default table is still a default table
  for (const m of S.muts) {
    if (m.o.kind === 'cls' || (empty(m.o) && !deepIn(m.o.node) && !isDefault(m.o))) continue; // registries and counters: C16
    const fn = enclosing(m.node);
    if (fn && R.writers.has(fn)) continue;
    if (!by.has(m.o)) by.set(m.o, []);
    by.get(m.o).push(m);
  }
  const tops = S.objects.filter(o => o.kind === 'alloc' && (!(empty(o) && !deepIn(o.node)) || isDefault(o)));
  for (const o of tops) {
    const ms = by.get(o) || [];
    const m = ms[0];
    rep.ob('defaults-read-only', !m, { key: holder(p, o.node) + (m ? '|' + p.qual(enclosing(m.node)) + '|' + m.how : ''), where: p.loc(m ? m.node : o.node), msg: m ? `the shared constant ${holder(p, o.node)} (${p.loc(o.node)}) may be modified at run time (${m.how}${m.f === '[]' || m.f === '*' ? '' : ' .' + m.f}) in ${p.qual(enclosing(m.node))}` : '' });
  }
  // a module that derives its own defaults from those of another module must copy first
  for (const m of S.initWrites) { if (m.o.kind === 'cls' || (empty(m.o) && !deepIn(m.o.node))) continue; const f = enclosing(m.node); if (f && R.writers.has(f)) continue; rep.ob('load-time-isolation', false, { key: holder(p, m.o.node) + '|' + m.node.getSourceFile().fileName.split('/').pop() + '|' + m.how, where: p.loc(m.node), msg: `loading this module modifies ${holder(p, m.o.node)} (${p.loc(m.o.node)}), a default table of another module (${m.how} ${m.f})` }); }
  rep.ob('load-time-isolation', true, { key: 'module statements analysed', where: '', msg: '' });
  rep.atLeast('defaults-read-only', 200);
  rep.extra.entry_functions = S.entries; rep.extra.contexts = S.A.insts.size; rep.extra.shared_objects = tops.length;
  rep.assumptions.push('third-party functions do not modify the objects they are given (except the first argument of Object.assign, merge and mixin)', 'elements of run-time arrays are not told apart, objects kept only inside a run-time array are not followed');
};
