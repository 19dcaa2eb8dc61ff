'use strict';
// Whole-program view of process-wide state: which module-level / static objects and variables are modified after module load, and where.
const { ts, SK, isFn, unparen } = require('./program');
const { PTA } = require('./pta');
function shared(p) {
  if (p._shared) return p._shared;
  const A = new PTA(p, { insensitive: true, sharedOnly: true, fnCap: 40, chaLimit: 8 });
  let entries = 0;
  for (const c of p.classes) {
    const self = A.instOf(c, null, null);
    for (const m of [...p.allMembers(c).values(), ...c.statics.values()]) for (const fn of [m.fn, m.getter, m.setter]) if (fn && fn.body) { A.entry(fn, [], c.statics.get(m.name) === m ? new Set([A.clsObj(c)]) : new Set([self]), 'cap'); entries++; }
    let k = c; while (k && !k.ctor) k = k.base;
    if (k && k.ctor.body) { A.entry(k.ctor, [], new Set([self]), 'cap'); entries++; }
  }
  for (const sf of p.files) for (const s of sf.statements) {
    if (ts.isFunctionDeclaration(s) && s.body) { A.entry(s, [], null, 'cap'); entries++; }
    else if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) {
      const f = d.initializer && p.fnOfDecl(d);
      if (f) { A.entry(f, [], null, 'cap'); entries++; }
      if (ts.isIdentifier(d.name)) A.getDecl(d, new Map(), A.modInst(sf));
    }
  }
  // module-level statements run once; calls they make are analysed like any other
  const initMuts = new Set();
  const runModules = () => { for (const sf of p.files) { const mi = A.modInst(sf); for (const s of sf.statements) if (ts.isExpressionStatement(s) || ts.isIfStatement(s)) A.stmt(s, mi.env, mi); } };
  runModules();
  for (const c of p.classes) for (const m of c.statics.values()) if (!m.fn && m.init) A.readObj(A.clsObj(c), m.name, null, m.node);
  for (let k = 0; k < 6; k++) { A.solve(40); A.changed = false; runModules(); if (!A.changed) break; }
  const muts = [], initWrites = [];
  // modifications made while a module loads, to objects another module created
  for (const m of A.muts.values()) if (m.inst.isModule && m.inst.sf && m.o.node && m.o.shared && !m.o.key.startsWith('mc:') && m.o.node.getSourceFile() !== m.node.getSourceFile()) initWrites.push(m);
  for (const m of A.muts.values()) if ((m.o.shared || m.o.kind === 'cls') && !m.inst.isModule) muts.push(m);
  const objects = A.objs.filter(o => o.shared && !o.key.startsWith('mc:'));
  return (p._shared = { A, muts, initWrites, objects, entries, varWrites: [...A.varWrites.values()].filter(w => !w.inst.isModule) });
}
// name of the variable or static that holds the outermost literal a node belongs to
function holder(p, node) {
  for (let n = node; n; n = n.parent) {
    if (ts.isVariableDeclaration(n) && ts.isIdentifier(n.name)) return n.name.text;
    if (ts.isPropertyDeclaration(n)) { const c = p.enclosingClass(n); return (c ? c.name + '.' : '') + n.name.getText(); }
    if (ts.isClassDeclaration(n)) return n.name ? n.name.text : 'class';
  }
  return '?';
}
const enclosing = n => { n = n && n.parent; while (n && !isFn(n)) n = n.parent; return n || null; };
module.exports = { shared, holder, enclosing };
