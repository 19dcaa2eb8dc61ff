'use strict';
// Nothing to build: the checks are plain JavaScript on the pre-installed TypeScript compiler API. Verify that it loads.
const { ts } = require('./lib/program');
console.log('node ' + process.version + ', typescript ' + ts.version);
