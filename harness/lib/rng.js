"use strict";
// Seeded PRNG (sfc32 seeded by FNV/splitmix of a string) and basic generators.
function hash32(str) {
  let h = 0x811c9dc5;
  for (let i = 0; i < str.length; i++) {
    h ^= str.charCodeAt(i);
    h = Math.imul(h, 0x01000193) >>> 0;
  }
  return h >>> 0;
}
class Rng {
  constructor(seed) {
    const s = String(seed);
    this.a = hash32(s + "a");
    this.b = hash32(s + "b");
    this.c = hash32(s + "c");
    this.d = 1;
    for (let i = 0; i < 20; i++) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) >>> 0) + this.d) >>> 0;
    this.d = (this.d + 1) >>> 0;
    this.a = (this.b ^ (this.b >>> 9)) >>> 0;
    this.b = (this.c + (this.c << 3)) >>> 0;
    this.c = ((this.c << 21) | (this.c >>> 11)) >>> 0;
    this.c = (this.c + t) >>> 0;
    return t;
  }
  next() {
    return this.u32() / 4294967296;
  }
  /** integer in [lo, hi] */
  int(lo, hi) {
    return lo + Math.floor(this.next() * (hi - lo + 1));
  }
  bool(p = 0.5) {
    return this.next() < p;
  }
  pick(arr) {
    return arr[Math.floor(this.next() * arr.length)];
  }
  /** weighted: [[w, v], ...] */
  weighted(pairs) {
    let t = 0;
    for (const [w] of pairs) t += w;
    let x = this.next() * t;
    for (const [w, v] of pairs) {
      x -= w;
      if (x < 0) return v;
    }
    return pairs[pairs.length - 1][1];
  }
  shuffle(arr) {
    const r = arr.slice();
    for (let i = r.length - 1; i > 0; i--) {
      const j = this.int(0, i);
      [r[i], r[j]] = [r[j], r[i]];
    }
    return r;
  }
  sample(arr, n) {
    return this.shuffle(arr).slice(0, n);
  }
  float(lo, hi) {
    return lo + this.next() * (hi - lo);
  }
  times(n, f) {
    return Array.from({ length: n }, (_, i) => f(i));
  }
}
module.exports = { Rng, hash32 };
