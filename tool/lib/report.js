'use strict';
// Reporting: obligations, violations, known findings, evidence file, exit code.
const fs = require('fs');
const path = require('path');
const ROOT = path.resolve(__dirname, '../..');
const EVID = process.env.VG_EVID || ROOT + '/evidence';

function knownFindings() {
  const f = ROOT + '/known-findings.txt';
  const out = [];
  if (!fs.existsSync(f)) return out;
  for (const line of fs.readFileSync(f, 'utf8').split('\n')) {
    const m = /^finding: property=(\S+) key=(\S+) (.*)$/.exec(line.trim());
    if (m) out.push({ property: m[1], key: m[2], what: m[3] });
  }
  return out;
}

class Report {
  constructor(id, rule) {
    this.id = id; this.rule = rule; this.t0 = Date.now();
    this.obls = new Map(); // clause -> {n, ok, samples}
    this.viol = []; this.errors = []; this.extra = {}; this.assumptions = [];
    this.samples = [];
  }
  clause(name) { if (!this.obls.has(name)) this.obls.set(name, { n: 0, ok: 0, samples: [] }); return this.obls.get(name); }
  // one decided obligation; key must be stable under edits that keep behaviour
  ob(clause, ok, { key, where, msg, sample } = {}) {
    const c = this.clause(clause);
    c.n++;
    if (ok) { c.ok++; if (c.samples.length < 4 && (sample || key)) c.samples.push(sample || key); }
    else this.viol.push({ clause, key: clause + '|' + key, where, msg });
    return ok;
  }
  // instance-count guard: a rule that matches (almost) nothing decides nothing
  atLeast(clause, n) { const c = this.clause(clause); if (c.n < n) this.error(`clause ${clause}: only ${c.n} instances analysed, expected at least ${n} - the rule lost its anchors`); }
  need(cond, what) { if (!cond) this.error('anchor missing: ' + what); return !!cond; }
  error(msg) { this.errors.push(msg); }
  finish() {
    const known = knownFindings().filter(k => k.property === this.id);
    const seen = new Set();
    const news = [], olds = new Map();
    for (const v of this.viol) {
      const k = known.find(x => x.key === v.key.replace(/\s+/g, '_'));
      if (k) { if (!olds.has(k.key)) olds.set(k.key, { k, v }); continue; }
      const id = v.key + '@' + v.where;
      if (seen.has(id)) continue;
      seen.add(id);
      news.push(v);
    }
    let n = 0, ok = 0;
    const clauses = {};
    for (const [name, c] of this.obls) { n += c.n; ok += c.ok; clauses[name] = { instances: c.n, satisfied: c.ok, samples: c.samples }; }
    const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
    const ev = {
      property: this.id, tier, seed: Number(process.env.VERIF_SEED || 1) || 0, level: 'other',
      coverage: Object.assign({
        explanation: this.rule, obligations: n, discharged: ok, clauses,
        known_findings: [...olds.values()].map(x => ({ key: x.k.key, where: x.v.where, what: x.k.what }))
      }, this.extra),
      assumptions: this.assumptions,
      violations: news.length, wall_s: (Date.now() - this.t0) / 1000
    };
    fs.mkdirSync(EVID, { recursive: true });
    fs.writeFileSync(`${EVID}/${this.id}.json`, JSON.stringify(ev, null, 1) + '\n');
    console.log(`${this.id}: ${n} obligations in ${this.obls.size} clauses, ${ok} discharged, ${olds.size} known findings, ${news.length} violations (${ev.wall_s.toFixed(1)} s)`);
    for (const [name, c] of this.obls) console.log(`  clause ${name}: ${c.n} instances, ${c.ok} satisfied`);
    for (const { k, v } of olds.values()) console.log(`KNOWN-FINDING: property=${this.id} ${k.what} [${k.key}] at ${v.where}`);
    if (news.length) {
      const rp = `${EVID}/${this.id}.violations.json`;
      fs.writeFileSync(rp, JSON.stringify(news, null, 1) + '\n');
      for (const v of news.slice(0, 60)) console.log(`  ${v.where}: [${v.clause}] ${v.msg}  (key ${v.key.replace(/\s+/g, '_')})`);
      for (const e of this.errors) console.log('  note: ' + e);
      console.log(`VIOLATION property=${this.id} replay=${rp}`);
      process.exitCode = 1;
      return;
    }
    if (this.errors.length) { for (const e of this.errors) console.log('ERROR ' + e); process.exitCode = 2; return; }
    process.exitCode = 0;
  }
}
module.exports = { Report, ROOT };
