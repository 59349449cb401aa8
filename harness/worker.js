"use strict";
// One shard of one check: loads the freshly built library, runs the workload
// with its monitors, writes what was observed to the result file.
const fs = require("node:fs");
const path = require("node:path");
const { Ctx } = require("./lib/ctx.js");

const [, , id, index, shardJson, out] = process.argv;
const shard = JSON.parse(shardJson);
const ctx = new Ctx({ id, index: Number(index), shard, tier: process.env.VERIF_TIER, seed: process.env.VERIF_SEED });

// Escaped errors are part of every oracle: nothing the library does may reach
// the host process as an unhandled rejection or uncaught exception.
process.on("unhandledRejection", (e) => {
  ctx.violation("unhandled-rejection", "unhandled-rejection", { error: String(e && e.stack) });
});
process.on("uncaughtException", (e) => {
  if (e && e.harness) {
    ctx.error = String(e.stack);
  } else {
    ctx.violation("uncaught-exception", "uncaught-exception", { error: String(e && e.stack) });
  }
});

// Nothing observed for so long (usual gaps are a few seconds): the library doesn't return, or a
// promise of it doesn't settle. A thread of its own notices that even when the main one is busy.
const { Worker } = require("node:worker_threads");
const NO_PROGRESS_S = 240;
new Worker(
  `const { workerData: { hb, limit, out, id, gaps } } = require("node:worker_threads"), fs = require("node:fs");
   let last = Atomics.load(hb, 0), since = 0, worst = 0;
   setInterval(() => {
     const now = Atomics.load(hb, 0);
     since = now === last ? since + 1 : 0; last = now;
     if (since > worst) { worst = since; if (gaps) fs.writeFileSync(gaps, String(worst)); }
     if (since < limit) return;
     fs.writeFileSync(out, JSON.stringify({ done: true, evaluations: now, violations: [{ kind: "no-progress", key: "no-progress: after " + now + " observations", detail: { seconds: since } }] }));
     process.kill(process.pid, "SIGKILL");
   }, 1000);`,
  { eval: true, workerData: { hb: ctx.heartbeat, limit: NO_PROGRESS_S, out, id, gaps: process.env.VERIF_GAPS && `${process.env.VERIF_GAPS}/${id}-${index}` }, stdin: false },
).unref();
// the event loop is empty, and a promise we wait for isn't settled: nothing ever will settle it
process.on("beforeExit", () => {
  ctx.violation("never-settles", "nothing is left that could settle a pending call", {});
  fs.writeFileSync(out, JSON.stringify(ctx.result()));
  process.exit(0);
});

// (development only: stop at the first violation)
if (process.env.VERIF_FAILFAST) {
  const v = ctx.violation;
  const known = JSON.parse(fs.readFileSync(path.join(__dirname, "../known-findings.json"), "utf8")).findings.filter((f) => f.property === id && f.status === "known").map((f) => f.key);
  ctx.violation = (...a) => {
    v.apply(ctx, a);
    if (known.includes(ctx.violations.at(-1)?.key)) return;
    fs.writeFileSync(out, JSON.stringify(ctx.result()));
    process.exit(0);
  };
}

(async () => {
  const check = require(`./checks/${id}.js`);
  try {
    await check.run(ctx);
  } catch (e) {
    // an error thrown by the library, or a result of the wrong shape, is what was observed
    if (e instanceof TypeError || e instanceof RangeError || String(e && e.stack).includes(ctx.buildRoot)) {
      ctx.violation("unexpected-throw", String(e && e.message), { error: String(e && e.stack) });
    } else ctx.error = "harness error: " + (e && e.stack);
  }
  // give stray rejections a chance to surface before the verdict
  await new Promise((r) => setTimeout(r, 50));
  fs.writeFileSync(out, JSON.stringify(ctx.result()));
  process.exit(0);
})();
