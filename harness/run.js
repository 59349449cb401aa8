"use strict";
// node run.js <PROPERTY-ID>   (VERIF_SEED, VERIF_TIER)
// Builds /repo's working tree, runs the property's shards in child processes,
// merges what their monitors observed, writes evidence/<ID>.json.
// exit 0: held on everything observed; exit 1: VIOLATION; exit 3: inconclusive.
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const cp = require("node:child_process");
const { build } = require("./lib/build.js");

const id = process.argv[2];
const tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const seed = Number.parseInt(process.env.VERIF_SEED ?? "1", 10) || 0;
const VERIF = path.resolve(__dirname, "..");
const started = Date.now();

const check = require(`./checks/${id}.js`);
const work = fs.mkdtempSync(path.join(os.tmpdir(), `vrun-${id}-`));
let buildRoot;
const kids = new Set();

function cleanup() {
  for (const k of kids) {
    try {
      process.kill(-k.pid, "SIGKILL");
    } catch {}
  }
  for (const d of [work, buildRoot]) {
    if (d) fs.rmSync(d, { recursive: true, force: true, maxRetries: 5, retryDelay: 50 });
  }
}
process.on("SIGTERM", () => (cleanup(), process.exit(3)));
process.on("SIGINT", () => (cleanup(), process.exit(3)));

function runShard(shard, i) {
  return new Promise((resolve) => {
    const out = path.join(work, `shard-${i}.json`);
    const tmp = path.join(work, `tmp-${i}`);
    fs.mkdirSync(tmp);
    const env = {
      ...process.env,
      LANG: "C.UTF-8",
      TZ: "UTC",
      ...(shard.env ?? {}),
      TMPDIR: tmp,
      VERIF_BUILD: buildRoot,
      VERIF_TIER: tier,
      VERIF_SEED: String(seed),
    };
    const p = cp.spawn(
      process.execPath,
      ["--expose-gc", ...(shard.nodeArgs ?? []), path.join(__dirname, "worker.js"), id, String(i), JSON.stringify(shard), out],
      { env, stdio: ["ignore", "pipe", "pipe"], detached: true },
    );
    kids.add(p);
    let log = "";
    p.stdout.on("data", (d) => (log += d));
    p.stderr.on("data", (d) => (log += d));
    const limit = (shard.timeoutS ?? (tier === "quick" ? 420 : 3000)) * 1000;
    let timedOut = false;
    const t = setTimeout(() => {
      timedOut = true;
      try {
        process.kill(-p.pid, "SIGKILL");
      } catch {}
    }, limit);
    p.on("close", (code, sig) => {
      clearTimeout(t);
      kids.delete(p);
      try {
        process.kill(-p.pid, "SIGKILL");
      } catch {}
      let r;
      try {
        r = JSON.parse(fs.readFileSync(out, "utf8"));
      } catch {
        r = null;
      }
      if (r == null || !r.done) {
        r = r ?? {};
        r.error = timedOut ? `shard watchdog fired after ${limit} ms` : `shard ended with code ${code} signal ${sig}: ${log.slice(-3000)}`;
      }
      if (process.env.VERIF_VERBOSE && log) process.stderr.write(`[${id}#${i}] ${log}\n`);
      resolve(r);
    });
  });
}

(async () => {
  buildRoot = build();
  const shards = check.shards(tier);
  const par = check.parallel ?? Math.max(2, Math.min(8, os.cpus().length));
  const results = new Array(shards.length);
  let next = 0;
  await Promise.all(
    Array.from({ length: Math.min(par, shards.length) }, async () => {
      while (next < shards.length) {
        const i = next++;
        results[i] = await runShard(shards[i], i);
        if (process.env.VERIF_FAILFAST && results[i].violations?.some((v) => !v.key.startsWith("history-mwg"))) {
          next = shards.length;
          for (const k of kids)
            try {
              process.kill(-k.pid, "SIGKILL");
            } catch {}
        }
      }
    }),
  );

  const known = JSON.parse(fs.readFileSync(path.join(VERIF, "known-findings.json"), "utf8")).findings.filter(
    (f) => f.property === id && f.status === "known",
  );
  let evaluations = 0;
  const distinct = new Set();
  const samples = [];
  const counters = {};
  const violations = [];
  const knownHits = new Map();
  const errors = [];
  for (const [i, r] of results.entries()) {
    if (r == null) continue;
    if (r.error) errors.push(`shard ${i} (${shards[i].name ?? ""}): ${r.error}`);
    evaluations += r.evaluations ?? 0;
    for (const d of r.distinct ?? []) distinct.add(d);
    for (const s of (r.samples ?? []).slice(0, 4)) if (samples.length < 24) samples.push(s);
    for (const [k, v] of Object.entries(r.counters ?? {})) counters[k] = (counters[k] ?? 0) + v;
    for (const v of r.violations ?? []) {
      const kf = known.find((k) => k.key === v.key);
      if (kf) knownHits.set(kf.key, kf);
      else violations.push({ shard: i, shardParams: shards[i], ...v });
    }
  }
  // three-valued verdict: too few observations is inconclusive, not "held"
  const inconclusive = [...errors];
  if (violations.length === 0) {
    for (const [k, min] of Object.entries(check.minimums?.(tier) ?? {})) {
      const got = k === "evaluations" ? evaluations : k === "distinct" ? distinct.size : (counters[k] ?? 0);
      // (a quarter of it will do on a slow machine, where counts depend on time)
      if (got < min / 4) inconclusive.push(`observed only ${got} of at least ${min} expected "${k}"`);
    }
  }
  const evidence = {
    property: id,
    tier,
    seed,
    level: check.level ?? "exploration",
    coverage: {
      evaluations,
      distinct_nontrivial: distinct.size,
      rule: check.rule,
      samples,
      shards: shards.length,
      monitor_counters: counters,
      known_findings_seen: [...knownHits.keys()],
      inconclusive,
    },
    assumptions: check.assumptions ?? [],
    wall_s: (Date.now() - started) / 1000,
    violations: violations.length,
  };
  fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(VERIF, "evidence", `${id}.json`), JSON.stringify(evidence, null, 1));
  for (const k of knownHits.values()) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
  let code = 0;
  const old = path.join(VERIF, "evidence", "replay");
  if (fs.existsSync(old)) for (const f of fs.readdirSync(old)) if (f.startsWith(id + "-")) fs.rmSync(path.join(old, f));
  if (violations.length > 0) {
    const rdir = path.join(VERIF, "evidence", "replay");
    fs.mkdirSync(rdir, { recursive: true });
    const kinds = new Map();
    for (const v of violations) {
      if (!kinds.has(v.kind)) kinds.set(v.kind, []);
      kinds.get(v.kind).push(v);
    }
    let n = 0;
    for (const [kind, vs] of kinds) {
      const f = path.join(rdir, `${id}-${++n}.json`);
      fs.writeFileSync(
        f,
        JSON.stringify({ property: id, seed, tier, kind, count: vs.length, rerun: `VERIF_SEED=${seed} VERIF_TIER=${tier} node harness/run.js ${id}`, witnesses: vs.slice(0, 10) }, null, 1),
      );
      console.log(`VIOLATION property=${id} replay=${f}`);
      console.log(`  ${kind}: ${vs.length} witness(es); first: ${JSON.stringify(vs[0]).slice(0, 1500)}`);
    }
    code = 1;
  } else if (inconclusive.length > 0) {
    console.log(`INCONCLUSIVE property=${id}`);
    for (const e of inconclusive) console.log("  " + e);
    code = 3;
  } else {
    console.log(
      `HELD property=${id} tier=${tier} seed=${seed} evaluations=${evaluations} distinct=${distinct.size} ` +
        `wall=${evidence.wall_s.toFixed(1)}s counters=${JSON.stringify(counters)}`,
    );
  }
  cleanup();
  process.exit(code);
})().catch((e) => {
  console.error(e);
  cleanup();
  process.exit(3);
});
