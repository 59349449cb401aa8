"use strict";
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const crypto = require("node:crypto");
const { Rng } = require("./rng.js");

class Ctx {
  constructor({ id, index, shard, tier, seed }) {
    this.id = id;
    this.shard = shard;
    this.tier = tier;
    this.quick = tier !== "thorough";
    this.seed = `${id}/${seed}/${index}`;
    this.rng = new Rng(this.seed);
    this.evaluations = 0;
    this.distinct = new Set();
    this.samples = [];
    this.counters = {};
    this.violations = [];
    this.error = undefined;
    this._lib = undefined;
    this.dirs = [];
    this.heartbeat = new Int32Array(new SharedArrayBuffer(8)); // see worker.js
  }
  get buildRoot() {
    return process.env.VERIF_BUILD;
  }
  /** the public API of the freshly built library */
  get lib() {
    return (this._lib ??= require(path.join(this.buildRoot, "dist/ExifTool.js")));
  }
  /** n in the quick tier, scaled up in the thorough one */
  n(quick, thorough = quick * 8) {
    return this.quick ? quick : thorough;
  }
  tmpdir(name = "d") {
    const d = fs.mkdtempSync(path.join(os.tmpdir(), name + "-"));
    this.dirs.push(d);
    return d;
  }
  /** one evaluated case; key identifies it if non-trivial */
  saw(key, sample) {
    Atomics.add(this.heartbeat, 0, 1);
    this.evaluations++;
    if (key !== undefined) {
      const h = crypto.createHash("sha1").update(String(key)).digest("base64").slice(0, 12);
      if (this.distinct.size < 400000) this.distinct.add(h);
    }
    if (sample !== undefined && this.samples.length < 4) this.samples.push(sample);
  }
  count(name, n = 1) {
    Atomics.add(this.heartbeat, 0, 1);
    this.counters[name] = (this.counters[name] ?? 0) + n;
  }
  violation(kind, key, detail) {
    this.count("violations_raised");
    if (this.violations.length < 40) {
      this.violations.push({ kind, key: `${kind}: ${key}`.slice(0, 400), detail: safe(detail) });
    }
  }
  /** oracle: cond must be true */
  check(cond, kind, key, detail) {
    this.count("oracle:" + kind);
    if (!cond) this.violation(kind, key, typeof detail === "function" ? detail() : detail);
    return cond;
  }
  result() {
    for (const d of this.dirs) fs.rmSync(d, { recursive: true, force: true, maxRetries: 3 });
    return {
      done: true,
      error: this.error,
      evaluations: this.evaluations,
      distinct: [...this.distinct],
      samples: this.samples.map(safe),
      counters: this.counters,
      violations: this.violations,
    };
  }
}
function safe(o) {
  try {
    const s = JSON.stringify(o, (k, v) => (typeof v === "bigint" ? String(v) : v === undefined ? "<undefined>" : typeof v === "number" && !Number.isFinite(v) ? String(v) : v));
    return JSON.parse(s.length > 6000 ? JSON.stringify(s.slice(0, 6000) + "…") : s);
  } catch (e) {
    return String(o);
  }
}
/** bounded wait: resolves {status, value|reason}; "hung" after ms */
function settle(p, ms = 120000) {
  let t;
  return Promise.race([
    Promise.resolve(p).then(
      (value) => ({ status: "fulfilled", value }),
      (reason) => ({ status: "rejected", reason }),
    ),
    new Promise((r) => {
      t = setTimeout(() => r({ status: "hung" }), ms);
    }),
  ]).finally(() => clearTimeout(t));
}
/** run tasks with bounded concurrency */
async function pool(items, width, f) {
  let i = 0;
  const it = items[Symbol.iterator]();
  await Promise.all(
    Array.from({ length: width }, async () => {
      for (;;) {
        const n = it.next();
        if (n.done) return;
        await f(n.value, i++);
      }
    }),
  );
}
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
module.exports = { Ctx, settle, pool, sleep, safe };
