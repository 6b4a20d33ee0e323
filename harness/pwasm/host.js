// node host.js MODULE LEVEL PART PARTS SEED [CODEC DIR GROUP]
const fs = require('fs');
const [, , file, level, part, parts, seed, codec, dir, group] = process.argv;
let out = [], size = 0, memory;
function write(b) { // (writeSync may write less)
  for (let o = 0; o < b.length;) o += fs.writeSync(1, b, o);
}
let sink = (b) => { out.push(b); size += b.length; if (size > 1 << 20) { write(Buffer.concat(out)); out = []; size = 0; } };
const env = { put: (p, n) => sink(Buffer.from(new Uint8Array(memory.buffer, p >>> 0, n >>> 0))) };
const instance = new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(file)), { env });
memory = instance.exports.memory;
let index = -1;
if (codec !== undefined) {
  const real = sink;
  for (let k = 0; ; k++) {
    let name = '';
    sink = (b) => { name += b.toString(); };
    if (!instance.exports.name(k)) break;
    if (name === codec) { index = k; break; }
  }
  sink = real;
}
const s = BigInt(seed);
let code = 0;
try {
  instance.exports.run(+level, +part, +parts, Number(s & 0xffffffffn) | 0, Number(s >> 32n) | 0, index, +(dir || 0), +(group || 0));
} catch (e) {
  sink(Buffer.from('X ' + e + '\n'));
  code = 101;
}
if (size) write(Buffer.concat(out));
process.exitCode = code;
