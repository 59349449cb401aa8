"use strict";
// C03: the children's command log against the settled calls. Every call gets a
// fault script (what its 1st, 2nd, ... attempt meets); oracles: at most one
// command per write-like call, at most 1+retries for others, none after a
// success, exactly the expected number when calls run one at a time, and every
// call settles.
const path = require("node:path");
const { FakeFleet, fastOptions, READY } = require("../lib/fake.js");
const { settle, pool, sleep } = require("../lib/ctx.js");

const WRITES = new Set(["write", "editTags", "deleteAllTags"]);
const METHODS = ["read", "readRaw", "buffer", "extract", "rewrite", "write", "editTags", "deleteAllTags"];
// faults that make an attempt fail, for any method
const DEADLY = ["crash-early", "crash-mid", "exit-clean", "kill", "kill-term"];
const GARBAGE = ["garbage", "empty", "stderr-error"];

module.exports = {
  technique: "offline checker of the child command log against settled calls under scripted faults (exactly-once / at-most-once)",
  level: "fault_enumeration",
  rule: "a call with at least one injected fault in its attempts; distinct by method, retry limit, fault script, concurrency and outcome",
  assumptions: [
    "Commands are counted where the child receives them; a command lost with a child that died before reading it counts as not sent.",
    "An extraction that completes but finds no such tag is an answer, not a failed attempt.",
  ],
  shards: (tier) => {
    const s = [];
    for (let k = 0; k < (tier === "quick" ? 1 : 4); k++) {
      for (const retries of [0, 1, 2, 3]) s.push({ name: "sequential", mode: "seq", retries, k });
      s.push({ name: "concurrent", mode: "conc", retries: 2, maxProcs: 4, k });
      s.push({ name: "concurrent-1", mode: "conc", retries: 1, maxProcs: 1, k });
      s.push({ name: "concurrent-recycled", mode: "conc", retries: 1, maxProcs: 3, maxTasksPerProcess: 2, k });
      s.push({ name: "default-retries", mode: "seq", k });
    }
    return s;
  },
  minimums: (tier) => ({ evaluations: tier === "quick" ? 900 : 6000, distinct: 150, "fault:hang": 6, "fault:kill": 30, "fault:crash-mid": 30, "write-like-with-fault": 100 }),
  async run(ctx) {
    const { ExifTool } = ctx.lib;
    const rng = ctx.rng;
    const conc = ctx.shard.mode === "conc";
    const plans = new Map();
    const fleet = new FakeFleet((cmd) => {
      if (cmd.args.length === 1 && cmd.args[0] === "-ver") return [{ out: "13.59\n" + READY }];
      let plan;
      for (const a of cmd.args) {
        const m = /\/(F\d+X)$/.exec(a);
        if (m) plan = plans.get(m[1]);
      }
      const fault = plan.script[plan.sent++] ?? null;
      plan.at.push(Date.now());
      if (plan.settledAt) plan.afterSettle++;
      const ok = { read: `[{"SourceFile":"${plan.file}","Title":"t"}]\n`, readRaw: `[{"SourceFile":"${plan.file}","Title":"t"}]\n`, buffer: `[{"SourceFile":"${plan.file}","ThumbnailImage":"base64:QUJD"}]\n`, extract: "    1 output files created\n", rewrite: "    1 image files created\n" }[plan.method] ?? "    1 image files updated\n";
      if (fault == null) {
        plan.succeeded++;
        return [...(rng.bool(0.2) ? [{ sleep: rng.int(0, 10) }] : []), { out: ok + READY }];
      }
      ctx.count("fault:" + fault);
      switch (fault) {
        case "crash-early": return [{ exit: 1 }];
        case "exit-clean": return [{ exit: 0 }];
        case "crash-mid": return [{ out: ok.slice(0, Math.floor(ok.length / 2)) }, { sleep: rng.int(0, 5) }, { exit: rng.pick([0, 1, 2]) }];
        case "kill": return [{ kill: "SIGKILL" }];
        case "kill-term": return [{ kill: "SIGTERM" }];
        case "hang": return [{ hang: true }];
        case "garbage": return [{ out: "garbage " + rng.pick(["[{", "\u0000", "NaN", "{ready}"]) + "\n" + READY }];
        case "empty": return [{ out: READY }];
        case "stderr-error": return [{ err: "Error: injected failure - " + plan.file + "\n" }, { out: READY }];
        case "crash-late":
          plan.succeeded++;
          return [{ out: ok + READY }, { sleep: rng.int(0, 3) }, { exit: 1 }];
      }
    }, { keepLog: false, args: ["--report-ver"] });
    const retries = ctx.shard.retries;
    const et = new ExifTool(fastOptions(fleet, {
      maxProcs: conc ? ctx.shard.maxProcs : 1,
      ...(retries == null ? {} : { taskRetries: retries }),
      taskTimeoutMillis: 10000,
      ...(ctx.shard.maxTasksPerProcess ? { maxTasksPerProcess: ctx.shard.maxTasksPerProcess } : {}),
    }));
    const R = et.options.taskRetries;
    ctx.check(retries == null ? R >= 0 && R < 10 : R === retries, "retry-option", "taskRetries", { R, retries });
    const out = ctx.tmpdir("c03");
    let uid = 0;
    let hangs = 0;
    const mk = () => {
      const name = `F${uid++}X`;
      const file = "/nonexistent/" + name;
      const method = rng.pick(METHODS);
      const w = WRITES.has(method);
      const script = [];
      const n = rng.weighted([[3, 0], [4, 1], [3, R], [3, R + 1], [1, R + 2]]);
      for (let i = 0; i < n; i++) {
        let f = rng.pick(rng.bool(0.75) ? DEADLY : w ? ["stderr-error"] : GARBAGE);
        if (rng.bool(0.05) && hangs < ctx.n(2, 10)) {
          f = "hang";
          hangs++;
        }
        if (method === "buffer" && GARBAGE.includes(f)) f = "kill";
        if (method === "extract" && f === "empty") f = "garbage";
        script.push(f);
      }
      if (rng.bool(0.08) && script.length <= R && (!w || script.length === 0)) script.push("crash-late");
      const p = { name, file, method, w, script, sent: 0, succeeded: 0, afterSettle: 0, at: [] };
      plans.set(name, p);
      return p;
    };
    const call = (p) => {
      switch (p.method) {
        case "read": return et.read(p.file);
        case "readRaw": return et.readRaw(p.file);
        case "buffer": return et.extractBinaryTagToBuffer("ThumbnailImage", p.file);
        case "extract": return et.extractBinaryTag("ThumbnailImage", p.file, path.join(out, p.name));
        case "rewrite": return et.rewriteAllTags(p.file, path.join(out, p.name));
        case "write": return et.write(p.file, { Title: "x" });
        case "editTags": return et.editTags(p.file, [{ tag: "XMP-dc:Subject", operation: "add", value: "v" }]);
        case "deleteAllTags": return et.deleteAllTags(p.file);
      }
    };
    const settleCounts = new Map();
    const done = [];
    const one = async (p) => {
      const started = Date.now();
      const promise = Promise.resolve().then(() => call(p));
      let fired = 0;
      promise.then(() => fired++, () => fired++);
      const r = await settle(promise, 120000);
      p.settledAt = Date.now();
      p.status = r.status;
      done.push(p);
      const faulty = p.script.length > 0;
      if (p.w && faulty) ctx.count("write-like-with-fault");
      ctx.saw(faulty ? `${p.method}/${R}/${p.script.join(",")}/${ctx.shard.name}/${p.status}` : undefined, { method: p.method, retries: R, script: p.script, sent: p.sent, status: p.status });
      const det = () => ({ method: p.method, retries: R, script: p.script, sent: p.sent, succeeded: p.succeeded, status: p.status, reason: String(r.reason).slice(0, 500), tookMs: Date.now() - started });
      ctx.check(p.status !== "hung" && fired === 1, "settles", p.method, det);
      if (p.w) ctx.check(p.sent <= 1, "write-at-most-once", p.method, det);
      else ctx.check(p.sent <= R + 1, "retries-bounded", p.method, det);
      ctx.check(p.succeeded <= 1, "no-repeat-after-success", p.method, det);
      if (p.status === "fulfilled") ctx.check(p.succeeded === 1, "fulfils-only-after-success", p.method, det);
      if (!conc && p.script.includes("crash-late")) {
        // let the instance notice the death before the next call
        const t = Date.now();
        while (fleet.live.size > 0 && Date.now() - t < 5000) await sleep(10);
        await sleep(100);
      }
      if (!conc) {
        // one call at a time: the accounting is exact
        const fails = p.script.filter((f) => f !== "crash-late").length;
        const limit = p.w ? 1 : R + 1;
        const expectSent = Math.min(limit, fails + 1);
        const expectOk = fails < limit;
        ctx.check(p.status === (expectOk ? "fulfilled" : "rejected"), "retried-until-limit", p.method, det);
        ctx.check(p.sent === expectSent, "attempt-count", p.method, det);
      }
    };
    const deadline = Date.now() + ctx.n(45, 400) * 1000;
    const list = rng.times(conc ? ctx.n(400, 3000) : ctx.n(140, 900), mk);
    await pool(list, conc ? 20 : 1, async (p) => {
      if (Date.now() < deadline) await one(p);
    });
    await sleep(300);
    // nothing may be sent on behalf of a call after it settled
    for (const p of done) ctx.check(p.afterSettle === 0, "nothing-sent-after-settling", p.method, () => ({ method: p.method, script: p.script, sent: p.sent }));
    await settle(et.end(), 20000);
    fleet.killAll();
    if (fleet.failure) throw fleet.failure;
  },
};
