'use strict';
// usage: node tool/run.js C03
const id = process.argv[2];
const mod = require('./checks/' + id.toLowerCase() + '.js');
const { load } = require('./lib/program');
const { Report } = require('./lib/report');
const rep = new Report(id, mod.rule);
const p = load();
rep.extra.analysed = { packages: p.packages.length, files: p.files.length, functions: p.functions.length, classes: p.classes.length };
if (p.packages.length < 12 || p.files.length < 280) rep.error(`only ${p.files.length} source files in ${p.packages.length} packages were loaded`);
mod.run(p, rep);
rep.finish();
