'use strict';
const { ts, SK, unparen } = require('../lib/program');
const { Interp, V, UNDEF, alts } = require('../lib/flow');
exports.rule = 'For every method of every class whose (declared or inferred) return type is the polymorphic this type or the class itself, path-sensitive value analysis of the body: every normal exit returns the receiver. For a combined getter/setter (return type this | X) every normal exit reached after storing into the receiver returns the receiver. A call to another such method yields its receiver (that method carries its own obligation).';

exports.run = (p, rep) => {
  const ck = p.checker;
  const fluent = new Map();
  const isFluent = fn => {
    if (fluent.has(fn)) return fluent.get(fn);
    fluent.set(fn, false);
    let r = false;
    if (ts.isMethodDeclaration(fn) || ts.isPropertyDeclaration(fn.parent)) {
      const c = p.enclosingClass(fn);
      const isStatic = ((ts.isMethodDeclaration(fn) ? fn : fn.parent).modifiers || []).some(x => x.kind === SK.StaticKeyword);
      const sig = c && !isStatic && ck.getSignatureFromDeclaration(fn);
      if (sig) {
        const t = ck.getReturnTypeOfSignature(sig);
        if (t && (t.flags & ts.TypeFlags.TypeParameter) && t.isThisType) r = true;
        else if (fn.type && fn.type.kind === SK.ThisType) r = true;
        // an interface the class implements declares the method as returning this
        if (!r) r = declaredFluent(c, ts.isMethodDeclaration(fn) ? fn.name : fn.parent.name);
      }
    }
    fluent.set(fn, r);
    return r;
  };
  const declaredFluent = (c, nameNode) => {
    const name = nameNode && nameNode.text;
    if (!name) return false;
    const closure = p.interfaceClosure();
    for (let x = c; x; x = x.base) for (const i of x.impls) for (const s of closure(i)) for (const d of s.declarations || []) {
      if (!ts.isInterfaceDeclaration(d)) continue;
      const ms = d.members.filter(m => m.name && m.name.text === name);
      if (!ms.length) continue;
      const tys = ms.map(m => ts.isMethodSignature(m) ? m.type : ts.isPropertySignature(m) && m.type && ts.isFunctionTypeNode(m.type) ? m.type.type : null);
      if (tys.every(t => t && t.kind === SK.ThisType)) return true;
    }
    return false;
  };
  const I = new Interp(p, {
    stepLimit: 60000, maxDepth: 6, smallNodes: 60, maxStates: 24,
    onCall(c) {
      if (c.isNew) return null;
      if (c.recv && c.targets && c.targets.length && c.targets.every(isFluent)) return { value: c.isSuper ? (c.ctx.thisVal || V.root('this')) : c.recv };
      return null;
    },
    noInline: fn => p.enclosingClass(fn) && isFluent(fn)
  });
  const setterLike = fn => {
    if (!ts.isMethodDeclaration(fn)) return false;
    const sig = ck.getSignatureFromDeclaration(fn);
    const t = sig && ck.getReturnTypeOfSignature(sig);
    return !!t && t.isUnion && t.isUnion() && t.types.some(x => x.isThisType);
  };
  I.opts.onWrite = w => { if (w.base.key === 'this' || w.base.key.startsWith('this.')) w.st.tags = 'w'; };
  let n = 0, paths = 0;
  for (const c of p.classes) for (const [name, m] of c.members) {
    if (!m.fn || m.kind === 'accessor' || /^evaluate/.test(name)) continue;
    const fl = isFluent(m.fn);
    if (!fl && !setterLike(m.fn)) continue;
    n++;
    I.overflow = false;
    const exits = I.runEntry(m.fn, { thisVal: V.root('this', c), cls: c });
    if (I.overflow) { rep.extra.unresolved = (rep.extra.unresolved || []).concat(c.name + '.' + name); continue; }
    paths += exits.length;
    const bad = exits.filter(x => fl || x.st.tags === 'w').filter(x => alts(x.v).some(v => v.key !== 'this'));
    const what = bad.length ? alts(bad[0].v).find(v => v.key !== 'this') : null;
    rep.ob('returns-receiver', !bad.length, {
      key: `${c.name}.${name}`, where: p.loc(bad.length && bad[0].node || m.node),
      msg: `${c.name}.${name}() is declared to return its own object, but a path ${bad.length && bad[0].implicit ? 'falls off the end' : 'returns ' + (what ? (what.long || what.key).slice(0, 80) : '?')}`
    });
  }
  rep.atLeast('returns-receiver', 150);
  rep.extra.methods = n; rep.extra.exit_paths = paths;
  rep.assumptions.push('Only normal (non-throwing) exits are considered.');
};
