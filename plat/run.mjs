// node run.mjs WASM digest FILE OUT | text FILE N
import fs from "node:fs";
const [wasm, mode, file, a] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(wasm));
const raw = fs.readFileSync(file);
const cases = [];
for (let p = 4, n = raw.readUInt32LE(0); n > 0; n--) {
  const l = raw.readUInt32LE(p);
  cases.push(raw.subarray(p + 4, p + 4 + l));
  p += 4 + l;
}
// a fresh instance now and then: what a case leaves behind is not given back
let x, used = 0;
function fresh() {
  x = new WebAssembly.Instance(mod, {}).exports;
  used = 0;
}
function put(c) {
  if (!x || (used += c.length) > 64 << 20) fresh();
  const p = x.plat_alloc(c.length);
  new Uint8Array(x.memory.buffer, p, c.length).set(c);
  return p;
}
function attempt(f) {
  try {
    return f();
  } catch (e) {
    if (!(e instanceof WebAssembly.RuntimeError)) throw e;
    fresh();
    return "panic";
  }
}
if (mode === "digest") {
  let o = "";
  for (const c of cases)
    o += attempt(() => {
      const p = put(c), out = x.plat_alloc(40);
      x.plat_case(p, c.length, out);
      const v = new DataView(x.memory.buffer, out, 40);
      return [0, 1, 2, 3, 4].map((i) => v.getBigUint64(8 * i, true)).join(" ");
    }) + "\n";
  fs.writeFileSync(a, o);
} else {
  const c = cases[Number(a)];
  console.log(attempt(() => {
    const p = put(c), len = x.plat_alloc(8);
    const t = x.plat_text(p, c.length, len);
    const n = new DataView(x.memory.buffer, len, 4).getUint32(0, true);
    return Buffer.from(x.memory.buffer, t, n).toString();
  }));
}
