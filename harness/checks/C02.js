"use strict";
// C02: each response carries a token of the command that caused it. Oracle on
// settlement: the data, errors and warnings of a call contain its own token,
// in full and unaltered, and no token of any other call.
const path = require("node:path");
const fs = require("node:fs");
const crypto = require("node:crypto");
const { FakeFleet, fastOptions, READY } = require("../lib/fake.js");
const { settle, pool, sleep } = require("../lib/ctx.js");
const G = require("../lib/gen.js");
const J = require("../lib/jpeg.js");

const tokOf = (f) => "T0K" + crypto.createHash("sha1").update(f).digest("hex").slice(0, 16) + "N";
const TOK = /T0K[0-9a-f]{16}N/g;
const tokens = (x) => new Set(String(x).match(TOK) ?? []);

/** cut bytes into chunks at arbitrary offsets, also inside characters and the marker */
function chunks(rng, text, n) {
  const b = Buffer.from(text);
  const cuts = new Set();
  const marker = b.lastIndexOf("{ready}");
  for (let i = 0; i < n; i++) {
    cuts.add(rng.bool(0.3) && marker > 0 ? marker + rng.int(0, Math.min(8, b.length - marker)) : rng.int(0, b.length));
    if (rng.bool(0.5)) {
      // inside a multi-byte character
      const at = rng.int(0, b.length - 1);
      for (let j = at; j < Math.min(b.length, at + 400); j++) if ((b[j] & 0xc0) === 0x80) { cuts.add(j); break; }
    }
  }
  const pts = [...cuts].filter((c) => c > 0 && c < b.length).sort((x, y) => x - y);
  const out = [];
  let p = 0;
  for (const c of [...pts, b.length]) {
    out.push(b.subarray(p, c));
    p = c;
  }
  return out;
}

module.exports = {
  technique: "token-tagged responses; online cross-talk monitor under injected delays, chunking and child faults",
  level: "exploration",
  rule: "a settled call, distinct by method, reply shape (chunk count, delays, stderr, marker in payload), injected fault and outcome, with at least one other call in flight",
  assumptions: ["Stand-in children produce ExifTool-shaped replies; the real ExifTool is used in its own shard.", "A child writes its error stream before the end-of-response marker."],
  shards: (tier) => {
    const s = [];
    const k = tier === "quick" ? 1 : 4;
    for (let i = 0; i < k; i++) {
      s.push({ name: "chunked-healthy", faults: 0, maxProcs: 6 });
      s.push({ name: "chunked-single-proc", faults: 0, maxProcs: 1 });
      s.push({ name: "faults", faults: 0.12, maxProcs: 5 });
      s.push({ name: "faults-recycled", faults: 0.1, maxProcs: 4, maxTasksPerProcess: 3 });
      s.push({ name: "recycled-age", faults: 0.03, maxProcs: 4, maxProcAgeMillis: 6000 });
      s.push({ name: "same-file", same: true });
      s.push({ name: "real", real: true });
      s.push({ name: "real-killed", real: true, kill: true });
    }
    return s;
  },
  minimums: (tier) => ({ evaluations: tier === "quick" ? 3000 : 20000, "marker-in-payload": 300, "split-character": 300, "fault:crash": 20, "fault:hang": 3, "real-calls": 150, "same-file-calls": 500 }),
  async run(ctx) {
    return ctx.shard.same ? same(ctx) : ctx.shard.real ? real(ctx) : fake(ctx);
  },
};

async function fake(ctx) {
  const { ExifTool } = ctx.lib;
  const rng = ctx.rng;
  const plans = new Map();
  const findPlan = (args) => {
    for (const a of args) {
      const m = /\/(F\d+X)$/.exec(a);
      if (m) return plans.get(m[1]);
    }
  };
  const fleet = new FakeFleet((cmd) => {
    if (cmd.args.length === 1 && cmd.args[0] === "-ver") return [{ out: "13.59\n" + READY }];
    const plan = findPlan(cmd.args);
    plan.attempts++;
    const p = plan.attempts === 1 || plan.always ? plan : { ...plan, fault: null };
    const steps = [];
    for (const e of p.errLines) steps.push({ err: e + "\n" });
    const body = p.stdout + READY;
    let cs = chunks(rng, body, p.nChunks);
    if (p.fault === "crash-early") return [...steps, { exit: 1 }];
    if (p.fault === "hang") return [{ hang: true }];
    if (p.fault === "kill") return [...steps, { kill: "SIGKILL" }];
    if (p.fault === "crash-mid") {
      cs = cs.slice(0, Math.max(1, cs.length >> 1));
      if (cs.length === 1) cs = [cs[0].subarray(0, Math.floor(cs[0].length / 2))];
    }
    cs.forEach((c, i) => {
      if (i > 0 && p.gap && rng.bool(0.5)) steps.push({ sleep: rng.int(0, p.gap) });
      steps.push({ out: c.toString("base64"), b64: true });
    });
    if (p.fault === "crash-mid") steps.push({ exit: 0 });
    if (p.fault === "crash-late") steps.push({ exit: 3 });
    return steps;
  }, { keepLog: false, args: ["--report-ver"] });
  const et = new ExifTool(fastOptions(fleet, {
    maxProcs: ctx.shard.maxProcs,
    taskRetries: 1,
    taskTimeoutMillis: ctx.shard.maxProcAgeMillis ? 6000 : 10000,
    ...(ctx.shard.maxTasksPerProcess ? { maxTasksPerProcess: ctx.shard.maxTasksPerProcess } : {}),
    ...(ctx.shard.maxProcAgeMillis ? { maxProcAgeMillis: ctx.shard.maxProcAgeMillis, spawnTimeoutMillis: 6000 } : {}),
  }));
  let uid = 0;
  const total = ctx.n(1400, 8000);
  const methods = ["read", "read", "readRaw", "write", "editTags", "buffer", "extract", "rewrite", "deleteAll"];
  let hangs = 0;
  const mkCall = () => {
    const name = `F${uid++}X`;
    // names that are alike only after a Unicode normalisation are different files
    const file = path.join("/nonexistent", rng.pick(["", "", "", "e\u0301/", "é/", "\u212b/", "ﬁ x/"]), name);
    const tok = tokOf(name);
    const method = rng.pick(methods);
    let fault = rng.bool(ctx.shard.faults) ? rng.pick(["crash-early", "crash-mid", "crash-late", "kill", "hang"]) : null;
    if (fault === "hang" && hangs++ >= ctx.n(4, 20)) fault = "kill";
    const hostile = () => rng.pick(["{ready}", "\n{ready}\n", "{ready}\r\n", "{ready1}", G.text(rng, { max: 6 }), "漢字🎉é".repeat(rng.int(1, 30)), "x".repeat(rng.int(0, 3000)), '","x":"'])
      + (rng.bool(0.5) ? rng.pick(["{ready}", "é🎉", "\n"]) : "");
    const payload = tok + hostile() + tok + hostile() + tok;
    const bytes = Buffer.from(payload);
    const wantErr = rng.bool(0.3);
    const errLines = [];
    if (wantErr) {
      const w = rng.pick(["Warning: [minor] ", "Warning: "]) + tok + rng.pick([" {ready}", " é", "", " {ready} x"]) + " - " + file;
      errLines.push(w);
    }
    const fails = rng.bool(0.12);
    if (fails) errLines.push("Error: " + tok + " refused {ready} - " + file);
    let stdout;
    switch (method) {
      case "read":
      case "readRaw": {
        stdout = JSON.stringify([{ SourceFile: file, Title: payload, Nested: { A: [payload, 1] }, ...(rng.bool(0.3) ? { Warning: tok + " {ready}" } : {}) }], null, rng.pick([0, 2])) + "\n";
        if (fails) stdout = "";
        break;
      }
      case "buffer":
        stdout = fails ? "" : JSON.stringify([{ SourceFile: file, ThumbnailImage: "base64:" + bytes.toString("base64") }]) + "\n";
        break;
      case "extract":
        stdout = fails ? "    0 output files created\n" : "    1 output files created\n";
        break;
      case "rewrite":
        stdout = fails ? "    0 image files updated\n" : "    1 image files created\n";
        break;
      default:
        stdout = fails ? "    0 image files updated\n    1 files weren't updated due to errors\n" : `    ${(uid % 9) + 1} image files updated\n`;
    }
    if (method === "read" && !fails && rng.bool(0.05)) {
      // a desynchronised child answers about another file: that must never be this call's result
      const other = rng.pick([() => path.join("/nonexistent", `F${rng.int(0, 5000)}Y`), () => path.join(path.dirname(file), path.basename(file).toLowerCase()), () => path.join("/nonexistent/sub", path.basename(file)), () => file + "0", () => file.slice(0, -1), () => [file.normalize("NFC"), file.normalize("NFD"), file.normalize("NFKC"), file + " "].find((x) => x !== file)])();
      if (other === file) throw new Error("not another file");
      stdout = JSON.stringify([{ SourceFile: other, Title: tokOf(other) }]) + "\n";
      fault = "foreign";
      ctx.count("fault:foreign");
    }
    const plan = { tok, name, method, stdout, errLines, fault, attempts: 0, always: rng.bool(0.3), nChunks: rng.pick([0, 1, 3, 10, 40]), gap: rng.pick([0, 0, 2, 15]), fails, payload, bytes, updated: (uid % 9) + 1 };
    if (payload.includes("{ready}")) ctx.count("marker-in-payload");
    if (plan.nChunks && /[^\x00-\x7f]/.test(payload)) ctx.count("split-character");
    if (plan.fault === "foreign") plan.always = true;
    else if (fault) ctx.count(fault === "hang" ? "fault:hang" : "fault:crash");
    plans.set(name, plan);
    return { file, plan };
  };
  const outDir = ctx.tmpdir("c02");
  const call = ({ file, plan }) => {
    switch (plan.method) {
      case "read": return et.read(file);
      case "readRaw": return et.readRaw(file);
      case "write": return et.write(file, { Title: "x" });
      case "editTags": return et.editTags(file, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]);
      case "deleteAll": return et.deleteAllTags(file);
      case "buffer": return et.extractBinaryTagToBuffer("ThumbnailImage", file);
      case "extract": return et.extractBinaryTag("ThumbnailImage", file, path.join(outDir, "o" + plan.name));
      case "rewrite": return et.rewriteAllTags(file, path.join(outDir, "o" + plan.name));
    }
  };
  await pool(rng.times(total, mkCall), 24, async (c) => {
    const { plan, file } = c;
    const r = await settle(call(c), 90000);
    ctx.saw(`${plan.method}/${plan.nChunks}/${plan.gap}/${plan.errLines.length}/${plan.fault}/${plan.always}/${r.status}/${plan.payload.includes("{ready}")}`, { method: plan.method, fault: plan.fault, chunks: plan.nChunks, status: r.status });
    const foreign = (x) => [...tokens(x)].filter((t) => t !== plan.tok);
    const det = (more) => () => ({ method: plan.method, plan: { ...plan, bytes: undefined, payload: plan.payload.slice(0, 300), stdout: plan.stdout.slice(0, 500) }, status: r.status, reason: String(r.reason), value: JSON.stringify(r.value)?.slice(0, 1500), ...more });
    if (!ctx.check(r.status !== "hung", "settles", plan.method, det())) return;
    if (plan.fault === "foreign") return void ctx.check(r.status === "rejected", "foreign-answer-refused", plan.method, det());
    if (r.status === "rejected") {
      ctx.check(foreign(r.reason?.message + JSON.stringify(r.reason)).length === 0, "rejection-is-own", plan.method, det());
      // (a child that crashed just after answering can take the next command with it)
      ctx.check(plan.fails || plan.fault != null || ctx.shard.faults > 0, "healthy-call-fulfils", plan.method, det());
      return;
    }
    ctx.check(!plan.fails, "failed-command-rejects", plan.method, det());
    const v = r.value;
    ctx.check(foreign(JSON.stringify(v)).length === 0, "result-is-own", plan.method, det());
    switch (plan.method) {
      case "read":
      case "readRaw": {
        ctx.check(v.SourceFile === file && v.Title === plan.payload && v.Nested.A[0] === plan.payload && v.Nested.A[1] === 1, "data-intact", plan.method, det());
        const warns = plan.errLines.filter((l) => l.startsWith("Warning"));
        const got = [...(v.warnings ?? []), ...(v.errors ?? [])].filter((w) => tokens(w).size > 0);
        const exp = [...warns, ...(plan.stdout.includes('"Warning"') ? [plan.tok + " {ready}"] : [])];
        ctx.check(exp.every((w) => got.includes(w)) && got.length === exp.length, "messages-are-own", plan.method, det({ exp, got }));
        break;
      }
      case "buffer":
        ctx.check(Buffer.isBuffer(v) && v.equals(plan.bytes), "data-intact", plan.method, det());
        break;
      case "write":
      case "editTags":
      case "deleteAll": {
        const warns = plan.errLines.filter((l) => l.startsWith("Warning"));
        ctx.check(v.updated === plan.updated, "data-intact", plan.method, det());
        ctx.check(JSON.stringify(v.warnings ?? []) === JSON.stringify(warns), "messages-are-own", plan.method, det());
        break;
      }
    }
  });
  await settle(et.end(), 20000);
  fleet.killAll();
  if (fleet.failure) throw fleet.failure;
}

/**
 * Many calls on the same few files at once, told apart only by their options, tags or
 * destination: each reply names the marks found in its command and a serial number, and each
 * result must carry the marks of its own call, and a serial not seen by an earlier call.
 */
async function same(ctx) {
  const { ExifTool } = ctx.lib;
  const rng = ctx.rng;
  let serial = 0;
  const marksIn = (args) => [...new Set(args.join("\n").match(/Mk\d+q/g) ?? [])].sort().join("+") || "none";
  const fleet = new FakeFleet((cmd) => {
    if (cmd.args.length === 1 && cmd.args[0] === "-ver") return [{ out: "13.59\n" + READY }];
    const n = ++serial;
    const marks = marksIn(cmd.args);
    const file = cmd.args.filter((a) => a.startsWith("/nonexistent/S")).pop();
    const pre = rng.bool(0.5) ? [{ sleep: rng.int(0, 12) }] : [];
    const tags = { SourceFile: file, Title: marks, Serial: n, Warning: "serial " + n };
    const tag = cmd.args.find((a) => /^-Mk\d+qImage$/.test(a))?.slice(1);
    if (cmd.args.includes("-b") && cmd.args.includes("-json")) return [...pre, { out: JSON.stringify([{ SourceFile: file, [tag]: "base64:" + Buffer.from(marks + " " + n).toString("base64") }]) + "\n" + READY }];
    if (cmd.args.includes("-W") || cmd.args.includes("-W!")) return [...pre, { err: "Error: extract " + marks + " " + n + "\n" }, { sleep: 10 }, { out: "    0 output files created\n" + READY }];
    if (cmd.args.includes("-json")) return [...pre, { out: JSON.stringify([tags]) + "\n" + READY }];
    return [...pre, { err: "Warning: wrote " + marks + " " + n + "\n" }, { sleep: 10 }, { out: `    ${n} image files updated\n` + READY }];
  }, { keepLog: false, args: ["--report-ver"] });
  const outDir = ctx.tmpdir("c02s");
  for (const maxProcs of [1, 4]) {
    const et = new ExifTool(fastOptions(fleet, { maxProcs, taskRetries: 0, taskTimeoutMillis: 20000 }));
    const files = ["/nonexistent/SaX", "/nonexistent/SbX"];
    let uid = 0;
    const work = rng.times(ctx.n(450, 2500), () => {
      const mark = rng.bool(0.15) ? "none" : `Mk${uid++}q`;
      return { mark, file: rng.pick(files), method: rng.pick(["read", "read", "read-numeric", "readRaw", "write", "editTags", "buffer", "extract"]) };
    });
    await pool(work, 12, async ({ mark, file, method }) => {
      const before = serial; // what was sent before this call belongs to others
      const none = mark === "none";
      const readArgs = none ? undefined : ["-fast", "-api", "u=" + mark];
      if (none && !/^read/.test(method)) method = "readRaw";
      const p =
        method === "read" ? et.read(file, none ? undefined : { readArgs })
        : method === "read-numeric" ? et.read(file, none ? {} : { numericTags: [mark] })
        : method === "readRaw" ? et.readRaw(file, none ? undefined : { readArgs })
        : method === "write" ? et.write(file, { Title: mark })
        : method === "editTags" ? et.editTags(file, [{ tag: "XMP-dc:Subject", operation: "add", value: mark }])
        : method === "buffer" ? et.extractBinaryTagToBuffer(mark + "Image", file)
        : et.extractBinaryTag("ThumbnailImage", file, path.join(outDir, "o" + mark));
      const r = await settle(p, 60000);
      ctx.count("same-file-calls");
      ctx.saw(`same/${maxProcs}/${method}/${none}/${r.status}`, { same: method, status: r.status });
      const det = () => ({ method, mark, file, status: r.status, reason: String(r.reason), before, value: JSON.stringify(r.value)?.slice(0, 400) });
      let marks, n;
      if (method === "extract") [, marks, n] = /extract (\S+) (\d+)/.exec(String(r.reason?.message)) ?? [];
      else if (r.status !== "fulfilled") return void ctx.check(false, "healthy-call-fulfils", method, det);
      else if (method === "buffer") [marks, n] = String(r.value).split(" ");
      else if (/^read/.test(method)) {
        marks = r.value.Title;
        n = r.value.Serial;
        ctx.check((r.value.warnings ?? []).join() === "serial " + n, "messages-are-own", method, det);
      } else {
        n = r.value.updated;
        [, marks] = /wrote (\S+)/.exec((r.value.warnings ?? []).join("\n")) ?? [];
        ctx.check((r.value.warnings ?? []).length === 1 && r.value.warnings[0].endsWith(" " + n), "messages-are-own", method, det);
      }
      ctx.check(marks === mark, "same-file-answer-is-own", method, det);
      ctx.check(Number(n) > before, "answer-is-not-older-than-the-call", method, det);
    });
    await settle(et.end(), 20000);
  }
  fleet.killAll();
  if (fleet.failure) throw fleet.failure;
}

async function real(ctx) {
  const { ExifTool } = ctx.lib;
  const rng = ctx.rng;
  const dir = ctx.tmpdir("c02r");
  const et = new ExifTool({ maxProcs: 3, taskRetries: 3, taskTimeoutMillis: 60000, minDelayBetweenSpawnMillis: 0 });
  const thumb = (tok) => J.jpeg({ seed: tok, size: 300 });
  const files = [];
  for (let i = 0; i < ctx.n(40, 120); i++) {
    const f = path.join(dir, `f${i}${rng.pick(["", "{ready}", "é漢", " {ready} ", "e\u0301", "ﬁ", "\u212b", "İ"])}.jpg`);
    const tok = tokOf(f);
    const desc = tok + rng.pick(["{ready}", "\n{ready}\n", "é🎉漢".repeat(2000), "a"]) + tok;
    fs.writeFileSync(f, J.jpeg({ seed: tok, segments: [J.exifSegment(J.tiff({ ifd0: { 0x10e: J.ascii(desc), 0x10f: J.ascii("{ready}") }, thumb: thumb(tok) }))] }));
    files.push({ f, tok, desc });
  }
  let killer;
  let stop = false;
  if (ctx.shard.kill) {
    killer = (async () => {
      while (!stop) {
        await sleep(rng.int(300, 900));
        const pids = et.pids;
        if (pids.length) {
          try {
            process.kill(rng.pick(pids), rng.pick(["SIGKILL", "SIGTERM"]));
            ctx.count("children-killed");
          } catch {}
        }
      }
    })();
  }
  const work = rng.times(ctx.n(160, 900), () => ({ ...rng.pick(files), method: rng.pick(["read", "readRaw", "buffer", "write", "missing"]) }));
  let n = 0;
  await pool(work, 8, async ({ f, tok, desc, method }) => {
    const id = n++;
    let r;
    if (method === "read") r = await settle(et.read(f));
    else if (method === "readRaw") r = await settle(et.readRaw(f));
    else if (method === "buffer") r = await settle(et.extractBinaryTagToBuffer("ThumbnailImage", f));
    else if (method === "missing") r = await settle(et.read(path.join(dir, `missing${id}{ready}.jpg`)));
    else {
      const side = path.join(dir, `w${id}.xmp`);
      const t = tokOf(side);
      r = await settle(et.write(side, { Title: t + "{ready}\n" + t }));
      if (r.status === "fulfilled") {
        const back = await settle(et.readRaw(side));
        if (back.status === "fulfilled") ctx.check(back.value.Title === t + "{ready}\n" + t, "real-data-intact", "write", { title: back.value.Title });
      }
    }
    ctx.count("real-calls");
    ctx.saw(`real/${ctx.shard.name}/${method}/${desc.length}/${r.status}`, { real: method, status: r.status });
    const det = () => ({ f, method, status: r.status, reason: String(r.reason), value: JSON.stringify(r.value)?.slice(0, 1200) });
    if (!ctx.check(r.status !== "hung", "settles", "real " + method, det)) return;
    if (r.status === "rejected") {
      const own = method === "write" ? tokOf(path.join(dir, `w${id}.xmp`)) : tok;
      ctx.check([...tokens(String(r.reason))].every((t) => t === own), "rejection-is-own", "real " + method, det);
      if (!ctx.shard.kill) ctx.check(method === "missing", "healthy-call-fulfils", "real " + method, det);
      return;
    }
    const others = [...tokens(JSON.stringify(r.value))].filter((t) => t !== tok);
    if (method === "read" || method === "readRaw") {
      ctx.check(others.length === 0 && r.value.SourceFile === f && r.value.ImageDescription === desc && r.value.Make === "{ready}", "real-data-intact", method, det);
    } else if (method === "buffer") ctx.check(r.value.equals(thumb(tok)), "real-data-intact", method, det);
    else if (method === "missing") ctx.check((r.value.errors ?? []).some((e) => e.includes(`missing${id}{`)) && others.length === 0, "real-missing-is-own", method, det);
  });
  stop = true;
  await killer;
  await settle(et.end(), 30000);
}
