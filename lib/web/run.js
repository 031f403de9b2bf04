'use strict';
const path = require('path');
const file = process.argv[2];
globalThis.Module = {};
Object.assign(globalThis, require(path.join(__dirname, 'dom.js')));
// what EM_ASM holds is the body of a function of $0, $1, ...
const heap = { is: 'the heap' };
Module.HEAPU8 = { buffer: heap };
const Native = Uint8Array;
function HeapArray(x, p, n) {
  if (x !== heap) return arguments.length === 1 ? new Native(x) : new Native(x, p, n);
  const b = nbdl_heap_bytes(p, n);
  b.set = function (v, off) { Native.prototype.set.call(b, v, off); nbdl_heap_bytes(p, b); };
  return b;
}
HeapArray.prototype = Native.prototype;
const compile = (code) => {
  const f = new Function('Module', 'Uint8Array', 'return function($0,$1,$2,$3,$4,$5,$6,$7,$8,$9,$10,$11) ' + (code.trim()[0] === '{' ? code : '{' + code + '}'));
  return f(Module, HeapArray);
};
globalThis.nbdl_registry = () => Object.keys(Module.nbdl_detail_json_val || {}).length;
const m = { exports: {} };
process.dlopen(m, path.resolve(file));
process.reallyExit(m.exports.start([file].concat(process.argv.slice(3)), Module, compile));
