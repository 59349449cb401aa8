"use strict";
// C04: child life cycles, seen from the outside: the fleet's spawn/exit/command
// log, /proc, and the calls' settlements.
const fs = require("node:fs");
const path = require("node:path");
const cp = require("node:child_process");
const { FakeFleet, fastOptions, READY } = require("../lib/fake.js");
const { settle, sleep } = require("../lib/ctx.js");
const { alive, stat, childrenOf } = require("../lib/procs.js");
const { jpeg } = require("../lib/jpeg.js");

const until = async (f, ms) => {
  const t = Date.now();
  for (;;) {
    if (f()) return true;
    if (Date.now() - t > ms) return false;
    await sleep(10);
  }
};
const ENDINGS = ["end", "end-false", "end-end", "end-then-false", "asyncDispose", "end+asyncDispose", "dispose", "dispose-only", "dispose+asyncDispose", "dispose+end", "close+end", "asyncDispose+asyncDispose"];

module.exports = {
  technique: "child life-cycle monitor (spawn/exit/command log, /proc) under random shutdown moments, stubborn and dying children",
  level: "exploration",
  rule: "one instance history with at least one child spawned; distinct by scenario, limits, number of calls in flight and their child behaviours, and ending",
  assumptions: [
    "A retired or killed child may take a moment to exit: it is allowed 1.5 s after shutdown has settled; a pending retry may take its back-off.",
    "Children that are shutting down no longer count against the maximum.",
  ],
  shards: (tier) => {
    const s = [];
    for (let k = 0; k < (tier === "quick" ? 1 : 5); k++) {
      s.push({ name: "limits", k }, { name: "limits", k: k + 100 });
      for (let j = 0; j < 3; j++) s.push({ name: "shutdown", k: k * 10 + j });
      s.push({ name: "close", k }, { name: "real", k });
    }
    s.push({ name: "host" });
    return s;
  },
  minimums: () => ({ "instances:limits": 16, "instances:shutdown": 60, "instances:close": 12, "instances:real": 6, "instances:host": 5, "oracle:busy-children": 500, "shutdown-with-work-in-flight": 30 }),
  async run(ctx) {
    await this[ctx.shard.name](ctx);
  },

  async limits(ctx) {
    const { ExifTool } = ctx.lib;
    const rng = ctx.rng;
    const deadline = Date.now() + ctx.n(40, 300) * 1000;
    for (let round = 0; round < ctx.n(14, 80) && Date.now() < deadline; round++) {
      const maxProcs = rng.int(1, 5);
      const maxTasks = rng.pick([1, 2, 3, 5, 8]);
      const delay = rng.pick([0, 5, 30]);
      const crashy = rng.pick([0, 0, 0.1]);
      const killy = rng.bool(0.4);
      const busy = new Map();
      const perPid = new Map();
      let maxBusy = 0;
      const fleet = new FakeFleet((cmd) => {
        const n = (perPid.get(cmd.pid) ?? 0) + 1;
        perPid.set(cmd.pid, n);
        busy.set(cmd.pid, (busy.get(cmd.pid) ?? 0) + 1);
        for (const p of busy.keys()) if (!fleet.live.has(p)) busy.delete(p);
        maxBusy = Math.max(maxBusy, busy.size);
        const det = () => ({ maxProcs, maxTasks, delay, crashy, killy, pid: cmd.pid, n, busy: [...busy] });
        ctx.check(busy.size <= maxProcs, "busy-children", "more children at work than maxProcs", det);
        ctx.check(busy.get(cmd.pid) === 1, "one-task-at-a-time", "a child was given a task before it answered the last", det);
        ctx.check(n <= maxTasks, "tasks-per-child", "more tasks than maxTasksPerProcess", det);
        ctx.check(et.pids.length <= maxProcs, "pids-in-service", "pids exceed maxProcs", det);
        const f = cmd.args.map((a) => /\/(T\d+)$/.exec(a)?.[1]).find((x) => x);
        if (rng.bool(crashy)) return [{ exit: 1 }];
        return new Promise((r) => {
          setTimeout(() => {
            busy.delete(cmd.pid);
            r([{ out: `[{"SourceFile":"/x/${f}","Title":"${f}"}]\n` + READY }]);
          }, rng.int(0, delay));
        });
      }, { keepLog: false });
      const et = new ExifTool(fastOptions(fleet, { maxProcs, maxTasksPerProcess: maxTasks, taskRetries: 4, minDelayBetweenSpawnMillis: rng.pick([0, 0, 5]), taskTimeoutMillis: 20000 }));
      const n = rng.int(6, 30);
      const calls = [];
      for (let i = 0; i < n; i++) {
        calls.push(settle(et.read("/x/T" + i), 60000).then((r) => ({ i, r })));
        if (rng.bool(0.3)) await sleep(rng.int(0, 15));
        if (killy && rng.bool(0.15)) {
          // an idle child may die at any time; its death must not cost a task
          const pid = [...fleet.live].find((p) => !busy.has(p));
          if (pid) {
            try {
              process.kill(pid, rng.pick(["SIGKILL", "SIGTERM"]));
            } catch {}
            ctx.count("idle-child-killed");
          }
        }
      }
      const res = await Promise.all(calls);
      ctx.count("instances:limits");
      ctx.saw(`limits/${maxProcs}/${maxTasks}/${delay}/${crashy}/${killy}/${n}`, { scenario: "limits", maxProcs, maxTasks, calls: n, children: fleet.children.size, maxBusy });
      if (!crashy && !killy) {
        for (const { i, r } of res) ctx.check(r.status === "fulfilled" && r.value.Title === "T" + i, "task-survives-recycling", "a recycled child took a task with it", () => ({ maxProcs, maxTasks, i, status: r.status, reason: String(r.reason) }));
        ctx.check(fleet.children.size >= Math.ceil(n / maxTasks), "recycled", "fewer children than the task limit requires", { children: fleet.children.size, n, maxTasks });
      }
      ctx.check(res.every((x) => x.r.status !== "hung"), "settles", "call never settled", { maxProcs, maxTasks, crashy, killy });
      // all quiet: later calls still work, whatever died before
      if (!crashy) {
        for (const p of fleet.live) {
          if (rng.bool(0.5)) {
            try {
              process.kill(p, "SIGKILL");
            } catch {}
          }
        }
        await sleep(rng.pick([0, 5, 50]));
        const r = await settle(et.read("/x/T999"), 60000);
        ctx.check(r.status === "fulfilled" && r.value.Title === "T999", "usable-after-child-deaths", "call after child deaths failed", () => ({ status: r.status, reason: String(r.reason) }));
      }
      const e = await settle(et.end(), 20000);
      ctx.check(e.status === "fulfilled", "end-settles", "limits", { status: e.status, reason: String(e.reason) });
      ctx.check(await until(() => fleet.live.size === 0, 3000), "no-child-after-end", "limits", () => ({ live: [...fleet.live] }));
      fleet.killAll();
      if (fleet.failure) throw fleet.failure;
    }
  },

  async shutdown(ctx) {
    const { ExifTool } = ctx.lib;
    const rng = ctx.rng;
    const deadline = Date.now() + ctx.n(48, 400) * 1000;
    let round = 0;
    const one = async () => {
      const ending = ENDINGS[round++ % ENDINGS.length];
      const maxProcs = rng.int(1, 4);
      const stubborn = rng.bool(0.3);
      const n = rng.int(0, 8);
      const beh = rng.times(n, () => rng.weighted([[3, "quick"], [3, "slow"], [2, "hang"], [1, "crash"], [1, "partial"]]));
      const fleet = new FakeFleet((cmd) => {
        const m = cmd.args.map((a) => /\/T(\d+)$/.exec(a)?.[1]).find((x) => x);
        const ok = { out: `[{"SourceFile":"/x/T${m}","Title":"T${m}"}]\n` + READY };
        switch (beh[m]) {
          case "slow": return [{ sleep: rng.int(50, 600) }, ok];
          case "hang": return [{ hang: true }];
          case "crash": return [{ sleep: rng.int(0, 50) }, { exit: 1 }];
          case "partial": return [{ out: "[{" }, { hang: true }];
          default: return [ok];
        }
      }, { args: stubborn ? ["--ignore-sigterm"] : [] });
      const slowSpawn = rng.bool(0.2);
      const et = new ExifTool({
        ...fastOptions(fleet, { maxProcs, taskRetries: rng.int(0, 2), taskTimeoutMillis: 20000, minDelayBetweenSpawnMillis: rng.pick([0, 10]) }),
        ...(rng.bool(0.3) ? { disposalTimeoutMs: rng.int(1, 500), asyncDisposalTimeoutMs: rng.int(1, 500) } : {}),
        ...(slowSpawn ? { processFactory: async () => (await sleep(rng.int(20, 200)), fleet.spawn()) } : {}),
      });
      const calls = beh.map((b, i) => {
        const p = rng.bool(0.7) ? et.read("/x/T" + i) : et.write("/x/T" + i, { Title: "x" });
        return { b, p: settle(p.then((v) => v), 60000), done: false };
      });
      for (const c of calls) void c.p.then(() => (c.done = true));
      await sleep(rng.pick([0, 0, 1, 5, 20, 60, 150, 300, 600]));
      const inFlight = calls.filter((c) => !c.done).length;
      if (inFlight) ctx.count("shutdown-with-work-in-flight");
      const det = () => ({ ending, maxProcs, stubborn, slowSpawn, behaviours: beh, inFlight, spawned: fleet.children.size });
      const started = Date.now();
      let ps;
      switch (ending) {
        case "end": ps = [et.end()]; break;
        case "end-false": ps = [et.end(false)]; break;
        case "end-end": ps = [et.end(), et.end()]; break;
        case "end-then-false": ps = [et.end()]; await sleep(rng.int(0, 100)); ps.push(et.end(false)); break;
        case "asyncDispose": ps = [et[Symbol.asyncDispose]()]; break;
        case "end+asyncDispose": ps = [et.end(rng.bool())]; void ps[0].catch(() => {}); await sleep(rng.pick([0, 1, 20])); ps = [et[Symbol.asyncDispose]()]; break;
        case "dispose": et[Symbol.dispose](); ctx.check(et.ended === true, "ended-at-once", ending, det); ps = [et.end()]; break;
        case "dispose-only":
          // nothing to wait for: it's over when the children are gone
          et[Symbol.dispose]();
          ps = [(async () => { for (let i = 0; i < 3; i++) { await until(() => fleet.live.size === 0, 25000); await sleep(300); } })()];
          break;
        case "dispose+asyncDispose": et[Symbol.dispose](); ps = [et[Symbol.asyncDispose]()]; break;
        case "dispose+end": et[Symbol.dispose](); await sleep(rng.int(0, 50)); ps = [et.end(false)]; break;
        case "close+end": ps = [et.closeChildProcesses(rng.bool()), et.end()]; break;
        case "asyncDispose+asyncDispose": ps = [et[Symbol.asyncDispose](), et[Symbol.asyncDispose]()]; break;
      }
      ctx.check(et.ended === true, "ended-at-once", ending, det);
      // a call made while ending is under way rejects as well
      const during = settle(et.read("/x/T900"), 30000);
      const es = [];
      for (const p of ps) es.push(await settle(p, 30000));
      // whatever settled last, shutdown as a whole must be over by now
      let over = false;
      void et.end().then(() => (over = true), () => (over = true));
      await sleep(30);
      if (ending !== "dispose-only") ctx.check(over, "settles-only-when-ended", ending, det);
      ctx.count("instances:shutdown");
      ctx.saw(`shutdown/${ending}/${maxProcs}/${stubborn}/${slowSpawn}/${beh.slice().sort()}/${inFlight}`, { scenario: "shutdown", ending, stubborn, behaviours: beh, inFlight, children: fleet.children.size, tookMs: Date.now() - started });
      for (const e of es) ctx.check(e.status === "fulfilled", "end-settles", ending, () => ({ ...det(), status: e.status, reason: String(e.reason) }));
      const gone = await until(() => fleet.live.size === 0 && [...fleet.children.keys()].every((p) => !alive(p) || stat(p).ppid !== process.pid), 1500);
      ctx.check(gone, "no-child-after-end", ending, () => ({ ...det(), live: [...fleet.live] }));
      ctx.check(await until(() => calls.every((c) => c.done), 3000), "earlier-calls-settled", ending, () => ({ ...det(), pending: calls.filter((c) => !c.done).map((c) => c.b) }));
      const spawnedBefore = fleet.children.size;
      const later = [await during];
      for (const f of [() => et.read("/x/T901"), () => et.readRaw("/x/T901"), () => et.write("/x/T901", { Title: "x" }), () => et.version(), () => et.extractBinaryTagToBuffer("ThumbnailImage", "/x/T901"), () => et.editTags("/x/T901", [{ tag: "XMP-dc:Subject", operation: "add", value: "v" }]), () => et.deleteAllTags("/x/T901"), () => et.rewriteAllTags("/x/T901", "/x/T902")]) {
        if (rng.bool(0.5)) later.push(await settle(Promise.resolve().then(f), 20000));
      }
      for (const r of later) ctx.check(r.status === "rejected", "later-calls-reject", ending, () => ({ ...det(), status: r.status }));
      const again = [await settle(et.end(), 10000), await settle(et[Symbol.asyncDispose](), 10000)];
      et[Symbol.dispose]();
      for (const r of again) ctx.check(r.status === "fulfilled", "repeated-end-harmless", ending, () => ({ ...det(), status: r.status, reason: String(r.reason) }));
      await sleep(20);
      ctx.check(fleet.children.size === spawnedBefore && fleet.live.size === 0, "no-child-spawned-after-end", ending, det);
      fleet.killAll();
      if (fleet.failure) throw fleet.failure;
    };
    // several instances at once, so that the waits overlap
    await Promise.all(rng.times(4, async () => {
      while (round < ctx.n(66, 600) && Date.now() < deadline) await one();
    }));
  },

  async close(ctx) {
    const { ExifTool } = ctx.lib;
    const rng = ctx.rng;
    const deadline = Date.now() + ctx.n(40, 300) * 1000;
    for (let round = 0; round < ctx.n(20, 150) && Date.now() < deadline; round++) {
      const stubborn = rng.bool(0.2);
      const fleet = new FakeFleet((cmd) => {
        const m = cmd.args.map((a) => /\/T(\d+)$/.exec(a)?.[1]).find((x) => x);
        return [{ sleep: rng.int(0, 40) }, { out: `[{"SourceFile":"/x/T${m}","Title":"T${m}"}]\n` + READY }];
      }, { args: stubborn ? ["--ignore-sigterm"] : [] });
      const et = new ExifTool(fastOptions(fleet, { maxProcs: rng.int(1, 3), taskRetries: 3, taskTimeoutMillis: 20000 }));
      let id = 0;
      for (let k = 0; k < 3; k++) {
        const calls = rng.times(rng.int(0, 5), () => { const i = id++; return et.read("/x/T" + i).then((t) => ({ i, t })); });
        const settled = Promise.all(calls.map((c) => settle(c, 30000)));
        if (rng.bool(0.5)) await settled;
        else await sleep(rng.int(0, 60));
        const old = [...fleet.live];
        const graceful = rng.bool();
        const r = await settle(et.closeChildProcesses(graceful), 20000);
        const det = () => ({ graceful, stubborn, old, live: [...fleet.live], status: r.status, reason: String(r.reason) });
        ctx.check(r.status === "fulfilled", "close-settles", "closeChildProcesses", det);
        ctx.check(!et.ended, "close-does-not-end", "closeChildProcesses", det);
        ctx.check(await until(() => old.every((p) => !fleet.live.has(p)), 3000), "closed-children-gone", "closeChildProcesses", det);
        const s = await settled;
        ctx.check(s.every((x) => x.status !== "hung"), "settles", "call around closeChildProcesses", det);
        if (graceful) for (const x of s) ctx.check(x.status === "fulfilled" && x.value.t.Title === "T" + x.value.i, "graceful-close-keeps-tasks", "call around graceful closeChildProcesses", () => ({ ...det(), status: x.status, reason: String(x.reason) }));
        const i = id++;
        const later = await settle(et.read("/x/T" + i), 30000);
        ctx.check(later.status === "fulfilled" && later.value.Title === "T" + i, "usable-after-close", "read after closeChildProcesses", () => ({ ...det(), later: later.status, reason: String(later.reason) }));
        ctx.saw(`close/${graceful}/${stubborn}/${old.length}/${calls.length}`, { scenario: "close", graceful, stubborn, closed: old.length, calls: calls.length });
      }
      ctx.count("instances:close");
      await settle(et.end(), 20000);
      ctx.check(await until(() => fleet.live.size === 0, 3000), "no-child-after-end", "close", () => ({ live: [...fleet.live] }));
      fleet.killAll();
      if (fleet.failure) throw fleet.failure;
    }
  },

  async real(ctx) {
    const { ExifTool } = ctx.lib;
    const rng = ctx.rng;
    const dir = ctx.tmpdir("c04");
    const file = path.join(dir, "a.jpg");
    fs.writeFileSync(file, jpeg());
    const deadline = Date.now() + ctx.n(35, 200) * 1000;
    for (let round = 0; round < ctx.n(12, 60) && Date.now() < deadline; round++) {
      const maxProcs = rng.int(1, 3);
      const maxTasks = rng.pick([1, 2, 500]);
      const et = new ExifTool({ maxProcs, maxTasksPerProcess: maxTasks, minDelayBetweenSpawnMillis: 0 });
      const seen = new Set();
      const look = () => {
        const p = et.pids;
        for (const x of p) seen.add(x);
        ctx.check(p.length <= maxProcs, "pids-in-service", "real", { p, maxProcs });
      };
      const n = rng.int(1, 8);
      const calls = rng.times(n, () => et.read(file).then((t) => (look(), t)));
      const settled = Promise.all(calls.map((c) => settle(c, 60000)));
      if (rng.bool(0.5)) {
        const s = await settled;
        for (const x of s) ctx.check(x.status === "fulfilled", "task-survives-recycling", "real", { maxTasks, reason: String(x.reason) });
      } else await sleep(rng.int(0, 400));
      look();
      if (rng.bool(0.3)) await et.closeChildProcesses();
      const ending = rng.pick(["end", "end-false", "asyncDispose"]);
      const mine = childrenOf(process.pid);
      const e = await settle(ending === "asyncDispose" ? et[Symbol.asyncDispose]() : et.end(ending === "end"), 30000);
      ctx.check(e.status === "fulfilled", "end-settles", "real " + ending, { status: e.status });
      ctx.check(await until(() => mine.every((p) => !alive(p)) && childrenOf(process.pid).length === 0, 3000), "no-child-after-end", "real " + ending, () => ({ mine, left: childrenOf(process.pid) }));
      await settled;
      const later = await settle(et.read(file), 20000);
      ctx.check(later.status === "rejected", "later-calls-reject", "real " + ending, { status: later.status });
      ctx.count("instances:real");
      ctx.count("real-children-seen", seen.size);
      ctx.saw(`real/${maxProcs}/${maxTasks}/${n}/${ending}`, { scenario: "real", maxProcs, maxTasks, calls: n, ending, children: mine.length });
    }
  },

  /** an idle instance does not keep its host alive; a host that exits leaves no child behind */
  async host(ctx) {
    const dir = ctx.tmpdir("c04h");
    const file = path.join(dir, "a.jpg");
    fs.writeFileSync(file, jpeg());
    const script = path.join(dir, "host.js");
    fs.writeFileSync(script, `
      const { ExifTool, exiftool } = require(process.argv[2]);
      const mode = process.argv[4];
      const et = mode === "singleton" ? exiftool : new ExifTool({ maxProcs: 2, minDelayBetweenSpawnMillis: 0 });
      (async () => {
        await Promise.all([et.read(process.argv[3]), et.read(process.argv[3])]);
        require("fs").writeSync(1, JSON.stringify(et.pids) + "\\n");
        if (mode === "exit") process.exit(0);
        if (mode === "exit-busy") { et.read(process.argv[3]).catch(() => {}); process.exit(0); }
        if (mode === "throw") setTimeout(() => { throw new Error("boom"); }, 1);
        if (mode === "end") await et.end();
        if (mode === "dispose") et[Symbol.dispose]();
        if (mode === "late-await") { const p = et.read(process.argv[3]); p.then((t) => require("fs").writeSync(1, "LATE " + t.FileName + "\\n")); }
      })();
    `);
    for (const mode of ["idle", "singleton", "exit", "exit-busy", "throw", "end", "dispose", "late-await"]) {
      const p = cp.spawn(process.execPath, [script, path.join(ctx.buildRoot, "dist/ExifTool.js"), file, mode], { stdio: ["ignore", "pipe", "pipe"], env: process.env });
      let out = "";
      p.stdout.on("data", (d) => (out += d));
      p.stderr.on("data", () => {});
      const pidsSeen = new Map();
      const watch = setInterval(() => {
        for (const c of childrenOf(p.pid)) pidsSeen.set(c, stat(c)?.start);
      }, 20);
      const exited = await settle(new Promise((r) => p.on("exit", (c, s) => r({ c, s }))), 60000);
      clearInterval(watch);
      const det = () => ({ mode, out, exited, pids: [...pidsSeen] });
      ctx.check(exited.status === "fulfilled", "idle-does-not-keep-host-alive", mode, det);
      if (exited.status !== "fulfilled") p.kill("SIGKILL");
      ctx.check(await until(() => [...pidsSeen].every(([c, st]) => !alive(c, st)), 5000), "no-child-after-host-exit", mode, det);
      await sleep(50);
      if (mode === "late-await") ctx.check(out.includes("LATE a.jpg"), "pending-work-keeps-host-alive", mode, det);
      ctx.count("instances:host");
      ctx.saw("host/" + mode, { scenario: "host", mode, children: pidsSeen.size });
    }
  },
};
