"use strict";
// C24: how children are started. Stand-in executables record their own start
// (path, arguments, environment) and fail to start as planned; oracles: the
// record equals the configuration, calls are served once by the first child
// that starts, nothing escapes, and nothing is left behind.
const fs = require("node:fs");
const path = require("node:path");
const cp = require("node:child_process");
const { Stub } = require("../lib/stub.js");
const { settle, sleep } = require("../lib/ctx.js");

const DEFAULT_ARGS = ["-stay_open", "True", "-@", "-"];
const alive = (pid) => {
  try {
    process.kill(pid, 0);
    return !/^State:\s*Z/m.test(fs.readFileSync(`/proc/${pid}/status`, "utf8"));
  } catch {
    return false;
  }
};
const proc = (pid, what) => {
  try {
    return fs.readFileSync(`/proc/${pid}/${what}`, "utf8").split("\0").filter((x) => x !== "");
  } catch {
    return undefined;
  }
};
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const sorted = (o) => Object.fromEntries(Object.entries(o).sort(([a], [b]) => (a < b ? -1 : 1)));

module.exports = {
  technique: "monitor of started children (arguments and environment recorded by the child itself or read from /proc) under configured paths, environments and start-up faults",
  level: "fault_enumeration",
  rule: "one instance with one way of configuring its children and one sequence of start-up faults; distinct by configuration, faults and number of calls",
  assumptions: ["A child that never starts leaves its calls pending until the instance ends: the pool retries by design."],
  shards: (tier) => [
    ...[...Array(tier === "quick" ? 3 : 8)].map((_, k) => ({ name: "configured", k })),
    ...[...Array(tier === "quick" ? 4 : 12)].map((_, k) => ({ name: "faults", k })),
    { name: "vendored", k: 0 },
  ],
  minimums: () => ({ "oracle:started-as-configured": 60, "oracle:environment": 60, "oracle:path-resolved-once": 20, "oracle:served": 150, "oracle:sent-once": 150, "oracle:settled-by-end": 20, "oracle:gone": 60, "fault:missing": 2, "fault:not-executable": 2, "fault:path-throws": 2, "fault:hang": 3, "fault:exit1": 5, "oracle:vendored": 4 }),
  async run(ctx) {
    await { configured, faults, vendored }[ctx.shard.name](ctx);
  },
};

function environment(rng) {
  const env = {};
  for (const k of rng.sample(["FOO", "PERL_X", "A_B", "LANGUAGE", "EXIFTOOL_HOME", "LANG", "TMP"], rng.int(0, 4))) env[k] = rng.pick(["x", "a b", "/tmp/x y", "é漢", "C", "de_DE.UTF-8", "a=b", "$HOME", ...(k === "EXIFTOOL_HOME" ? ["", " "] : [])]);
  return env;
}

async function calls(ctx, et, n) {
  return Promise.all([...Array(n)].map((_, i) => settle(et.readRaw(`/some/where/F${i}.jpg`, { readArgs: [] }), 30000)));
}

/** every call got its own answer, from a command that was sent once */
function served(ctx, stub, rs, det) {
  const cmds = stub.commands();
  rs.forEach((r, i) => {
    const f = `/some/where/F${i}.jpg`;
    ctx.check(r.status === "fulfilled" && r.value.SourceFile === f, "served", "call", det({ i, status: r.status, reason: String(r.reason), value: r.value }));
    ctx.check(cmds.filter((c) => c.args.includes(f)).length === 1, "sent-once", "call", det({ i, sent: cmds.filter((c) => c.args.includes(f)) }));
  });
}

async function gone(ctx, stub, det) {
  const pids = stub.starts().map((s) => s.pid);
  for (let i = 0; i < 60 && pids.some(alive); i++) await sleep(50);
  ctx.check(!pids.some(alive), "gone", "after end", det({ left: pids.filter(alive) }));
}

async function configured(ctx) {
  const rng = ctx.rng;
  const hostHome = process.env.EXIFTOOL_HOME;
  for (let round = 0; round < ctx.n(45, 250); round++) {
    const dir = ctx.tmpdir("c24");
    const stub = new Stub(dir, rng.pick(["exiftool", "exif tool", "é漢tool", "tool'q", "-tool", "exiftool.pl", "$x"])).write();
    const other = new Stub(dir, "other").write();
    const env = rng.bool(0.8) ? environment(rng) : undefined;
    const envBefore = JSON.stringify(env);
    const home = rng.pick([undefined, undefined, "/host/home", " "]);
    if (home === undefined) delete process.env.EXIFTOOL_HOME;
    else process.env.EXIFTOOL_HOME = home;
    process.env.HOST_SECRET = "s" + round;
    const args = rng.pick([undefined, undefined, [...DEFAULT_ARGS], ["-charset", "utf8", ...DEFAULT_ARGS], ["-config", "/x y/é.cfg", ...DEFAULT_ARGS], ["", ...DEFAULT_ARGS]]);
    const shebang = rng.pick([undefined, undefined, false, true]);
    const how = rng.pick(["text", "text", "promise", "function", "async function", "factory", "promise of function"]);
    let resolved = 0, loggers = 0;
    const fn = (p) => (logger) => {
      resolved++;
      if (logger != null && ["warn", "error", "info", "debug"].every((k) => typeof logger[k] === "function")) loggers++;
      return p;
    };
    const p = stub.path;
    const exiftoolPath = { text: p, promise: Promise.resolve(p), function: fn(p), "async function": fn(sleep(rng.int(0, 5)).then(() => p)), "promise of function": Promise.resolve(fn(p)), factory: other.path }[how];
    const procs = rng.int(1, 3);
    const o = { maxProcs: procs, exiftoolPath, minDelayBetweenSpawnMillis: 0, taskRetries: 0, onIdleIntervalMillis: 250, streamFlushMillis: 1, healthCheckIntervalMillis: 0, ...(rng.bool(0.3) ? { maxTasksPerProcess: 2 } : {}) };
    if (env) o.exiftoolEnv = env;
    if (args) o.exiftoolArgs = args;
    if (shebang !== undefined) o.ignoreShebang = shebang;
    let made = 0;
    if (how === "factory")
      o.processFactory = () => {
        made++;
        return cp.spawn(p, ["made", ...DEFAULT_ARGS], { env: { MADE: "1" } });
      };
    const et = new ctx.lib.ExifTool(o);
    const n = rng.int(1, 7);
    const rs = await calls(ctx, et, n);
    const starts = stub.starts();
    const det = (x) => () => ({ how, env, home, args, shebang, procs, n, name: path.basename(p), starts: starts.slice(0, 2), ...x });
    ctx.saw(`${how}|${JSON.stringify([env, home, args, shebang, procs, n])}|${path.basename(p)}`, det({})());
    served(ctx, stub, rs, det);
    ctx.check(starts.length > 0 && other.starts().length === 0 && (how !== "factory" || made >= starts.length), "started-as-configured", "which", det({ made, other: other.starts().length }));
    const wantArgs = how === "factory" ? ["made", ...DEFAULT_ARGS] : (args ?? DEFAULT_ARGS);
    const wantEnv = how === "factory" ? { MADE: "1" } : { ...env, LANG: "C" };
    if (how !== "factory" && home?.trim() && !wantEnv.EXIFTOOL_HOME?.trim()) wantEnv.EXIFTOOL_HOME = home;
    for (const s of starts) {
      ctx.check(s.script === p && same(s.argv, wantArgs), "started-as-configured", how, det({ s, wantArgs }));
      ctx.check(same(sorted(s.env), sorted(wantEnv)), "environment", how, det({ s, wantEnv }));
    }
    if (/function/.test(how)) ctx.check(resolved === 1 && loggers === 1, "path-resolved-once", how, det({ resolved, loggers }));
    ctx.check(JSON.stringify(env) === envBefore, "caller-environment-untouched", how, det({ envBefore }));
    await settle(et.end(), 15000);
    await gone(ctx, stub, det);
    fs.rmSync(dir, { recursive: true, force: true });
    if (rs.some((r) => r.status === "hung")) break; // (reported already)
  }
  if (hostHome === undefined) delete process.env.EXIFTOOL_HOME;
  else process.env.EXIFTOOL_HOME = hostHome;
}

async function faults(ctx) {
  const rng = ctx.rng;
  const jobs = ctx.n(14, 60);
  let next = 0;
  const one = async (round) => {
    const dir = ctx.tmpdir("c24f");
    const kind = [["missing", "not-executable", "path-throws", "path-rejects", "factory-throws", "factory-rejects", "children", "children", "directory", "not-a-program"], ["children"]][round % 2][Math.floor(round / 2) % (round % 2 ? 1 : 10)];
    const plan = kind === "children" ? rng.times(rng.int(1, 4), () => rng.pick(["exit1", "exit0", "die", "hang", "garbage", "silent"])) : [];
    const stub = new Stub(dir, "exiftool", plan);
    const procs = rng.int(1, 3);
    const n = rng.int(1, 6);
    const recovers = kind === "children" || kind.startsWith("factory") || ((kind === "missing" || kind === "not-executable") && rng.bool());
    const fails = rng.int(1, 4);
    let made = 0;
    const o = { maxProcs: procs, exiftoolPath: stub.path, minDelayBetweenSpawnMillis: 0, taskRetries: rng.int(0, 1), onIdleIntervalMillis: 100, streamFlushMillis: 1, healthCheckIntervalMillis: 0, spawnTimeoutMillis: 1500, taskTimeoutMillis: 20000 };
    if (kind === "children" || kind.startsWith("factory")) stub.write();
    if (kind === "not-executable") stub.write({ executable: false });
    if (kind === "directory") fs.mkdirSync(stub.path);
    if (kind === "not-a-program") {
      fs.writeFileSync(stub.path, Buffer.from([0, 1, 2, 3]));
      fs.chmodSync(stub.path, 0o755);
    }
    if (kind === "path-throws") o.exiftoolPath = () => { throw new Error("no path"); };
    if (kind === "path-rejects") o.exiftoolPath = async () => { throw new Error("no path"); };
    if (kind.startsWith("factory"))
      o.processFactory = () => {
        if (++made > fails) return cp.spawn(stub.path, DEFAULT_ARGS, { env: {} });
        if (kind === "factory-throws") throw new Error("no child");
        return Promise.reject(new Error("no child"));
      };
    for (const f of plan.length ? plan : [kind]) ctx.count("fault:" + f);
    const et = new ctx.lib.ExifTool(o);
    let errors = 0;
    et.on("startError", () => errors++);
    const det = (x) => () => ({ kind, plan, procs, n, recovers, fails, errors, starts: stub.starts().length, ...x });
    const t0 = Date.now();
    let settledEarly = 0;
    const pending = [...Array(n)].map((_, i) => settle(et.readRaw(`/some/where/F${i}.jpg`, { readArgs: [] }), 60000).then((r) => (settledEarly++, r)));
    if (recovers) {
      if (kind === "missing" || kind === "not-executable") {
        await sleep(rng.int(50, 400));
        stub.write();
      }
      const rs = await Promise.all(pending);
      if (rs.some((r) => r.status === "hung")) next = jobs; // (reported below)
      served(ctx, stub, rs, det);
      ctx.saw(`${kind}|${plan}|${procs}|${n}|${fails}`, det({ ms: Date.now() - t0 })());
      await settle(et.end(), 15000);
    } else {
      await sleep(rng.int(0, 400));
      const early = settledEarly;
      const e = await settle(rng.bool(0.7) ? et.end(rng.bool()) : et[Symbol.asyncDispose](), 20000);
      const rs = await Promise.all(pending);
      ctx.saw(`${kind}|${procs}|${n}|${o.taskRetries}`, det({ early })());
      ctx.check(e.status === "fulfilled", "settled-by-end", "end", det({ e: String(e.reason ?? e.status) }));
      for (const r of rs) ctx.check(r.status === "rejected" && r.reason instanceof Error, "settled-by-end", kind, det({ status: r.status, value: r.value }));
    }
    await gone(ctx, stub, det);
    const late = await settle(et.readRaw("/some/where/late.jpg"), 15000);
    ctx.check(late.status === "rejected", "settled-by-end", "late", det({ status: late.status }));
    fs.rmSync(dir, { recursive: true, force: true });
  };
  await Promise.all([0, 1].map(async () => { while (next < jobs) await one(next++ + ctx.shard.k * jobs); }));
}

async function vendored(ctx) {
  const rng = ctx.rng;
  const bin = require(require.resolve("exiftool-vendored.pl", { paths: [ctx.buildRoot + "/dist"] }));
  const want = fs.realpathSync(bin.default ?? bin);
  const version = cp.execFileSync("perl", [want, "-ver"], { env: { PATH: process.env.PATH, LANG: "C" } }).toString().trim();
  process.env.HOST_SECRET = "secret";
  delete process.env.EXIFTOOL_HOME;
  for (const o of [{}, { exiftoolPath: undefined }, { exiftoolPath: "" }, { exiftoolPath: " " }, { ignoreShebang: true }, { exiftoolEnv: { FOO: "bar" } }, { checkPerl: false }]) {
    const et = new ctx.lib.ExifTool({ maxProcs: 1, ...o });
    const r = await settle(et.version(), 30000);
    const det = (x) => () => ({ o, want, version, r, ...x });
    ctx.saw("vendored|" + JSON.stringify(o), det({})());
    ctx.check(r.status === "fulfilled" && r.value === version, "vendored", "version", det({}));
    const pid = et.pids[0];
    const cmd = proc(pid, "cmdline"), env = proc(pid, "environ");
    if (cmd && env) {
      const i = cmd.findIndex((c) => path.isAbsolute(c) && fs.existsSync(c) && fs.realpathSync(c) === want);
      ctx.check(i >= 0 && i <= 2 && same(cmd.slice(i + 1), DEFAULT_ARGS), "vendored", "command", det({ cmd }));
      ctx.check(same([...env].sort(), [...(o.exiftoolEnv ? ["FOO=bar"] : []), "LANG=C"].sort()), "vendored", "environment", det({ env }));
    }
    await settle(et.end(), 15000);
    for (let k = 0; k < 40 && alive(pid); k++) await sleep(50);
    ctx.check(!alive(pid), "gone", "vendored", det({ pid }));
  }
}
