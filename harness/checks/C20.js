"use strict";
// C20: interleaved calls on several instances with different options; every command and result is
// compared with a model of the merged options and with a twin call; callers' objects are watched
// and changed while calls are under way.
const path = require("node:path");
const fs = require("node:fs");
const { settle, pool, sleep } = require("../lib/ctx.js");
const { FakeFleet, fastOptions, READY } = require("../lib/fake.js");
const J = require("../lib/jpeg.js");
const G = require("../lib/gen.js");

// ------------------------------------------------------------------ objects of callers
/** deep description of a value; functions and foreign class instances by identity */
const ids = new WeakMap();
let nextId = 0;
const idOf = (f) => ids.get(f) ?? (ids.set(f, ++nextId), nextId);
function describe(v, seen = new Set()) {
  if (typeof v === "function") return `fn#${idOf(v)}`;
  if (v === null || typeof v !== "object") return typeof v + ":" + String(Object.is(v, -0) ? "-0" : v);
  if (seen.has(v)) return "cycle";
  seen.add(v);
  const proto = Object.getPrototypeOf(v);
  let r;
  if (v instanceof Set) r = "Set(" + [...v].map((x) => describe(x, seen)).join() + ")";
  else if (v instanceof Map) r = "Map(" + [...v].map((x) => describe(x, seen)).join() + ")";
  else if (v instanceof RegExp) r = String(v) + v.lastIndex;
  else r = (Array.isArray(v) ? "A" : proto === null || proto === Object.prototype ? "O" : "I" + (proto.constructor?.name ?? "")) + "{" + Object.keys(v).map((k) => JSON.stringify(k) + "=" + describe(v[k], seen)).join() + "}";
  seen.delete(v);
  return r;
}
function freeze(v) {
  if (v === null || typeof v !== "object" || Object.isFrozen(v)) return v;
  if (Array.isArray(v) || [null, Object.prototype].includes(Object.getPrototypeOf(v))) {
    Object.freeze(v);
    for (const k of Object.keys(v)) freeze(v[k]);
  }
  return v;
}
/** what a careless caller does with its objects once the call has returned */
function spoil(rng, v) {
  if (v === null || typeof v !== "object") return;
  if (Array.isArray(v)) {
    for (const x of v) spoil(rng, x);
    if (rng.bool()) v.push(typeof v[0] === "object" && v[0] ? { tag: "XMP-dc:Subject", operation: "add", value: "spoiled" } : "-spoiled");
    else v.length = 0;
    if (rng.bool()) v.unshift("-spoiledtoo");
    return;
  }
  if (![null, Object.prototype].includes(Object.getPrototypeOf(v))) return;
  for (const k of Object.keys(v)) {
    spoil(rng, v[k]);
    if (rng.bool(0.5)) delete v[k];
    else if (typeof v[k] === "boolean") v[k] = !v[k];
    else if (typeof v[k] === "number") v[k] = (v[k] + 1) % 3;
    else if (typeof v[k] === "string") v[k] = "spoiled";
  }
  v.ignoreMinorErrors = rng.bool();
  v.useMWG = rng.bool();
}

// ------------------------------------------------------------------ options
let token = 0;
const geo1 = () => "Asia/Tokyo", geo2 = () => "America/Denver", geo3 = () => undefined;
const dst1 = () => 60, dst2 = () => undefined;
const READ = {
  backfillTimezones: (r) => r.bool(),
  defaultVideosToUTC: (r) => r.bool(),
  geolocation: (r) => r.bool(),
  geoTz: (r) => r.pick([geo1, geo2, geo3]),
  ignoreMinorErrors: (r) => r.bool(),
  ignoreZeroZeroLatLon: (r) => r.bool(),
  imageHashType: (r) => r.pick([false, "MD5", "SHA256", "SHA512"]),
  inferTimezoneFromDatestamps: (r) => r.bool(),
  inferTimezoneFromDatestampTags: (r) => r.sample(["DateTimeOriginal", "CreateDate", "ModifyDate", "SubSecDateTimeOriginal"], r.int(0, 3)),
  inferTimezoneFromTimeStamp: (r) => r.bool(),
  keepUTCTime: (r) => r.bool(),
  numericTags: (r) => r.times(r.int(0, 3), () => `Num${++token}`),
  preferTimezoneInferenceFromGps: (r) => r.bool(),
  readArgs: (r) => r.pick([[], ["-fast"], ["-G"], ["-fast", "-userParam", `Tok${++token}=1`], ["-userParam", `Tok${++token}=2`, "-a"]]),
  struct: (r) => r.pick([0, 1, 2, "undef"]),
  useMWG: (r) => r.bool(),
  adjustTimeZoneIfDaylightSavings: (r) => r.pick([dst1, dst2]),
};
const WRITE = { useMWG: READ.useMWG, struct: READ.struct, ignoreMinorErrors: READ.ignoreMinorErrors, writeArgs: (r) => r.pick([[], ["-overwrite_original"], ["-userParam", `Tok${++token}=3`], ["-P", "-userParam", `Tok${++token}=4`]]) };
const RAW = { readArgs: READ.readArgs, ignoreMinorErrors: READ.ignoreMinorErrors, useMWG: READ.useMWG };
function some(rng, gens, p = rng.pick([0.1, 0.3, 0.7])) {
  const o = {};
  for (const [k, g] of Object.entries(gens)) if (rng.bool(p)) o[k] = g(rng);
  return o;
}
const clone = (o) => (Array.isArray(o) ? o.map(clone) : o !== null && typeof o === "object" && [null, Object.prototype].includes(Object.getPrototypeOf(o)) ? Object.fromEntries(Object.entries(o).map(([k, v]) => [k, clone(v)])) : o);

const pairs = (args, a) => args.map((x, i) => (x === a ? args[i + 1] : undefined)).filter((x) => x !== undefined);
const contains = (args, part) => part.length === 0 || args.some((_, i) => part.every((p, j) => args[i + j] === p));

module.exports = {
  technique: "monitor of commands, results and callers' objects over interleaved calls on several instances (model of merged options and twin calls as oracles; objects frozen, or changed during calls and retries); history-independence against fresh children on the real ExifTool",
  level: "exploration",
  rule: "one call with one combination of instance and call options; distinct by operation and options",
  assumptions: [
    "An option given as undefined isn't used here; logger is documented to be global.",
    "deleteAllTags() uses the arguments documented for it instead of the instance's writeArgs.",
    "Objects passed to the constructor are not changed by the caller afterwards.",
  ],
  shards: (tier) => [...Array.from({ length: tier === "quick" ? 5 : 6 }, (_, k) => ({ name: "fake", k })), { name: "values" }, { name: "real", k: 0 }, { name: "real", k: 1 }],
  minimums: () => ({ evaluations: 1500, "oracle:command": 1000, "oracle:twin-command": 500, "oracle:twin-result": 300, "oracle:caller-object": 1500, "oracle:frozen-accepted": 500, "oracle:spoiled-later": 300, "oracle:spoiled-before-retry": 40, "oracle:no-foreign-option": 1000, "oracle:defaults": 6, "oracle:history": 20, "sensitive-results": 8 }),
  async run(ctx) {
    const before = exportsOf(ctx.lib);
    await { fake, values, real }[ctx.shard.name](ctx);
    const after = exportsOf(ctx.lib);
    for (const k of Object.keys(before)) ctx.check(before[k] === after[k], "defaults", k, () => ({ before: before[k]?.slice(0, 1500), after: after[k]?.slice(0, 1500) }));
  },
};
function exportsOf(lib) {
  const o = {};
  for (const k of Object.keys(lib)) {
    if (k === "exiftool" || k === "default" || k === "Settings") continue;
    if (typeof lib[k] !== "function") o[k] = describe(lib[k]);
  }
  return o;
}

const REPORTS = [
  { MIMEType: "image/jpeg", GPSLatitude: 35.6, GPSLongitude: 139.7, DateTimeOriginal: "2020:07:01 12:00:00", CreateDate: "2020:07:01 12:00:00-03:00", DaylightSavings: "Yes", TimeZone: "+01:00" },
  { MIMEType: "video/mp4", CreateDate: "2020:07:01 12:00:00", GPSLatitude: 35.6, GPSLongitude: 139.7 },
  { MIMEType: "image/jpeg", GPSLatitude: 0, GPSLongitude: 0, DateTimeOriginal: "2020:07:01 12:00:00" },
  { MIMEType: "image/jpeg", TimeStamp: "2020:07:01 03:00:00Z", DateTimeOriginal: "2020:07:01 12:00:00" },
  { MIMEType: "image/jpeg", SubSecDateTimeOriginal: "2020:07:01 12:00:00.5+09:00", ModifyDate: "2020:07:01 12:00:00-05:00", CreateDate: "2020:07:01 12:00:00" },
  { MIMEType: "image/jpeg", TimeZoneOffset: -5, DaylightSavings: "On", DateTimeOriginal: "2020:07:01 12:00:00", GPSLatitude: 10, GPSLongitude: 10 },
];
const OPS = ["read", "read", "read", "readRaw", "write", "editTags", "deleteAllTags", "extractBinaryTag", "buffer", "rewriteAllTags"];

async function fake(ctx) {
  const { rng, lib } = ctx;
  const jobs = new Map(); // file -> {report, failures, commands}
  const fleet = new FakeFleet(
    (c) => {
      const file = c.args.findLast((a) => a.startsWith("/nowhere/f"));
      const j = jobs.get(file);
      if (!j) return [{ err: "Error: File not found - " + file + "\n" }, { out: READY }];
      j.commands.push(c.args);
      if (j.commands.length <= j.failures) return j.how === "kill" ? [{ kill: "SIGKILL" }] : [{ out: "not what was expected" + READY }];
      const delay = rng.bool(0.2) ? [{ sleep: rng.int(1, 15) }] : [];
      if (j.op === "read" || j.op === "readRaw") return [...delay, { out: JSON.stringify([{ SourceFile: file, ...j.report }]) + "\n" + READY }];
      if (j.op === "buffer") return [...delay, { out: JSON.stringify([{ ThumbnailImage: "base64:QUJD" }]) + "\n" + READY }];
      if (j.op === "extractBinaryTag") return [...delay, { out: "    1 output files created\n" + READY }];
      if (j.op === "rewriteAllTags") return [...delay, { out: "    1 image files created\n" + READY }];
      return [...delay, { out: "    1 image files updated\n" + READY }];
    },
    { keepLog: false },
  );
  const common = { maxProcs: 2, taskTimeoutMillis: 60000, taskRetries: 2, maxReasonableProcessFailuresPerMinute: 0 };
  const make = (o, olderNames = false) => {
    const full = { ...fastOptions(fleet, common), ...(rng.bool() ? { exiftoolEnv: { FOO: "x" }, exiftoolArgs: [...lib.DefaultExiftoolArgs] } : {}), ...o };
    let own = clone(full);
    // the option's older name
    if (olderNames && o.imageHashType === undefined && rng.bool(0.3)) {
      own.includeImageDataMD5 = rng.bool();
      o = { ...o, imageHashType: own.includeImageDataMD5 ? "MD5" : false };
    }
    const wasFrozen = rng.bool();
    if (wasFrozen) freeze(own);
    const before = describe(own);
    let et;
    try {
      et = new lib.ExifTool(own);
    } catch (e) {
      ctx.check(false, "frozen-accepted", "constructor options", () => ({ own: before, frozen: wasFrozen, err: String(e.stack) }));
      et = new lib.ExifTool((own = clone(full)));
    }
    ctx.check(describe(own) === before, "caller-object", "constructor options", () => ({ before, after: describe(own) }));
    return { et, o, own, before };
  };
  const dir = ctx.tmpdir("c20");
  let n = 0;
  for (let round = 0; round < ctx.n(3, 14); round++) {
    const insts = [make({}), ...rng.times(3, () => make({ ...some(rng, READ), ...some(rng, WRITE) }, true))];
    const twin = make({});
    try {
      await pool(rng.times(ctx.n(130, 350), (i) => i), 8, async () => {
        const inst = rng.pick(insts);
        const op = rng.pick(OPS);
        await call(ctx, inst, twin, op, `/nowhere/f${++n}.jpg`, dir, jobs, make);
      });
      for (const i of insts) ctx.check(describe(i.own) === i.before, "caller-object", "constructor options after use", () => ({ before: i.before, after: describe(i.own) }));
    } finally {
      await Promise.all([...insts, twin].map((i) => settle(i.et.end(), 20000)));
    }
  }
  fleet.killAll();
  if (fleet.failure) throw fleet.failure;
}

function tagsFor(rng) {
  return rng.pick([
    { "XMP:Title": "t" + rng.int(0, 9) },
    { GPSLatitude: rng.float(-80, 80), GPSLongitude: rng.float(-170, 170), GPSAltitude: rng.int(-9, 9) },
    { GPSLatitude: null, GPSLongitude: null },
    { "XMP:RegionInfo": { AppliedToDimensions: { W: 1, H: 2, Unit: "pixel" }, RegionList: [{ Name: "a", Type: "Face" }] }, Keywords: ["a", "b"] },
    { Subject: ["x", "y"], Rating: 3 },
    {},
  ]);
}
const editsFor = (rng) => rng.times(rng.int(1, 3), (i) => ({ tag: rng.pick(["XMP-dc:Subject", "IPTC:Keywords"]), operation: rng.pick(["add", "remove"]), value: "v" + i }));

async function call(ctx, inst, twin, op, file, dir, jobs, make) {
  const { rng } = ctx;
  const gens = op === "read" ? READ : op === "readRaw" ? RAW : op === "write" || op === "editTags" ? WRITE : { ignoreMinorErrors: READ.ignoreMinorErrors };
  const opts = rng.bool(0.2) ? undefined : some(rng, gens);
  if (opts && op === "extractBinaryTag" && rng.bool(0.4)) opts.forceWrite = rng.bool();
  if (opts && op === "rewriteAllTags" && rng.bool(0.4)) opts.allowMakerNoteRepair = rng.bool();
  if (opts && op === "deleteAllTags" && rng.bool(0.4)) opts.retain = rng.sample(["Orientation", "Title", "XMP:Rating"], rng.int(0, 3));
  if (opts && op === "editTags") delete opts.writeArgs;
  if (opts && op === "read" && opts.imageHashType === undefined && rng.bool(0.1)) opts.includeImageDataMD5 = rng.bool();
  // the older signature, with the arguments as an array
  const arrayForm = opts && ((op === "read" || op === "readRaw") && opts.readArgs && rng.bool(0.3)) ? "readArgs" : opts && op === "write" && opts.writeArgs && rng.bool(0.3) ? "writeArgs" : undefined;
  const tags = op === "write" ? tagsFor(rng) : undefined;
  const edits = op === "editTags" ? editsFor(rng) : undefined;
  const merged = { ...ctx.lib.DefaultExifToolOptions, ...inst.o, ...opts };
  if (opts?.includeImageDataMD5 !== undefined) merged.imageHashType = opts.includeImageDataMD5 ? "MD5" : false;
  const want = clone({ opts, tags, edits, merged: { ...merged } });
  const mine = { opts: clone(opts), tags: clone(tags), edits: clone(edits) };
  const rest = arrayForm ? Object.fromEntries(Object.entries(mine.opts).filter(([k]) => k !== arrayForm)) : undefined;
  const arr = arrayForm ? mine.opts[arrayForm] : undefined;
  const tail = arrayForm ? (rng.bool(0.3) && Object.keys(rest).length === 0 ? [arr] : [arr, rest]) : mine.opts === undefined ? [] : [mine.opts];
  const invoke = (et, T, t, e) => {
    switch (op) {
      case "read": return et.read(file, ...T);
      case "readRaw": return et.readRaw(file, ...T);
      case "write": return et.write(file, t, ...T);
      case "editTags": return et.editTags(file, e, ...T);
      case "deleteAllTags": return et.deleteAllTags(file, ...T);
      case "extractBinaryTag": return et.extractBinaryTag("ThumbnailImage", file, path.join(dir, "o"), ...T);
      case "buffer": return et.extractBinaryTagToBuffer("ThumbnailImage", file, ...T);
      case "rewriteAllTags": return et.rewriteAllTags(file, path.join(dir, "o.jpg"), ...T);
    }
  };
  const mode = rng.weighted([[3, "frozen"], [3, "spoil-later"], [2, "watch"]]);
  const retried = !["write", "editTags", "deleteAllTags"].includes(op) && rng.bool(0.15);
  const how = retried ? (op === "extractBinaryTag" || op === "buffer" || rng.bool(0.5) ? "kill" : "bad") : undefined;
  const job = { op, report: rng.pick(REPORTS), failures: retried ? 1 : 0, how, commands: [] };
  jobs.set(file, job);
  const objects = [...tail, mine.tags, mine.edits].filter((x) => x !== undefined);
  if (mode === "frozen") objects.forEach(freeze);
  const before = objects.map((o) => describe(o));
  const label = `${op}${arrayForm ? " (array form)" : ""}`;
  let p;
  try {
    p = invoke(inst.et, tail, mine.tags, mine.edits);
  } catch (e) {
    p = Promise.reject(e);
  }
  const d = (more) => () => ({ op, arrayForm, inst: describe(inst.o).slice(0, 800), opts: want.opts, tags: want.tags, edits: want.edits, mode, retried, ...more });
  objects.forEach((o, i) => ctx.check(describe(o) === before[i], "caller-object", label, d({ before: before[i], after: describe(o) })));
  if (mode === "spoil-later") {
    if (rng.bool(0.5)) await sleep(rng.int(0, 3));
    objects.forEach((o) => spoil(rng, o));
  }
  const r = await settle(p, 60000);
  ctx.saw(JSON.stringify([op, describe(inst.o), want.opts ?? null, mode, retried, arrayForm ?? null]), { op, opts: want.opts, mode, retried });
  if (mode !== "spoil-later") objects.forEach((o, i) => ctx.check(describe(o) === before[i], "caller-object", label + " after", d({ before: before[i], after: describe(o) })));
  if (!ctx.check(r.status === "fulfilled" && job.commands.length >= 1, mode === "frozen" ? "frozen-accepted" : "fulfils", label, d({ reason: String(r.reason?.stack ?? r.reason) }))) return jobs.delete(file);
  const kind = mode === "spoil-later" ? (retried ? "spoiled-before-retry" : "spoiled-later") : "command";
  const expected = { ...want.merged };
  for (const [k, args] of job.commands.entries()) {
    const wrong = wrongs(op, args, expected, want, inst, file);
    ctx.check(wrong.length === 0, k > 0 && mode !== "spoil-later" ? "retry-command" : kind, `${label}: ${wrong[0]}`, d({ wrong, args, attempt: k }));
    const mineTokens = JSON.stringify([expected.readArgs, expected.writeArgs, expected.numericTags]);
    const foreign = args.filter((a) => /^(Tok\d+=\d|-Num\d+#|-spoiled.*)$/.test(a) && !mineTokens.includes(a.replace(/^-|#$/g, "")));
    ctx.check(foreign.length === 0, "no-foreign-option", label, d({ foreign, args }));
  }
  // ---- a twin: the same merged options in one piece, on an instance of its own
  if (rng.bool(0.6)) {
    const relevant = op === "read" ? Object.keys(READ) : op === "readRaw" ? Object.keys(RAW) : op === "write" ? Object.keys(WRITE) : op === "editTags" ? ["useMWG", "struct", "ignoreMinorErrors"] : undefined;
    let T;
    if (relevant) T = [Object.fromEntries(relevant.filter((k) => expected[k] !== undefined).map((k) => [k, clone(expected[k])]))];
    else T = [{ ...clone(want.opts), ignoreMinorErrors: expected.ignoreMinorErrors }];
    // edits with writeArgs, and options the operation takes from the instance only, need a twin instance
    const alone = relevant === undefined || op === "editTags" || rng.bool(0.05);
    const t = alone && rng.bool(0.3) ? make({ ...inst.o, ...(relevant ? clone(want.opts) : { ignoreMinorErrors: expected.ignoreMinorErrors }) }) : undefined;
    if (op === "editTags" && !t) return jobs.delete(file);
    if ((op === "deleteAllTags" || op === "rewriteAllTags") && !t) return jobs.delete(file);
    const job2 = { op, report: job.report, failures: 0, commands: [] };
    jobs.set(file, job2);
    const used = t ? (relevant && !want.opts?.retain ? [] : [clone(want.opts)].filter((x) => x !== undefined)) : T;
    const r2 = await settle(invoke((t ?? twin).et, used, clone(want.tags), clone(want.edits)), 60000);
    if (t) await settle(t.et.end(), 20000);
    ctx.check(r2.status === "fulfilled" && JSON.stringify(job2.commands[0]) === JSON.stringify(job.commands[0]), "twin-command", label, d({ one: job.commands[0], two: job2.commands[0], reason: String(r2.reason) }));
    if (op === "read" || op === "readRaw") {
      const a = JSON.stringify(r.value), b = JSON.stringify(r2.value);
      ctx.check(a === b, "twin-result", label, d({ a, b }));
      // is the report sensitive to options at all?
      if (op === "read" && rng.bool(0.2)) {
        const job3 = { op, report: job.report, failures: 0, commands: [] };
        jobs.set(file, job3);
        const r3 = await settle(twin.et.read(file), 60000);
        if (JSON.stringify(r3.value) !== a) ctx.count("sensitive-results");
      }
    }
  }
  jobs.delete(file);
}

/** what's wrong with a command, given the options it has to reflect */
function wrongs(op, args, o, want, inst, file) {
  const w = [];
  const need = (cond, what) => cond || w.push(what);
  need(args.includes("-ignoreMinorErrors") === (o.ignoreMinorErrors === true), "ignoreMinorErrors");
  if (op !== "extractBinaryTag" && op !== "rewriteAllTags" && op !== "buffer") need(contains(args, ["-use", "MWG"]) === !!o.useMWG, "useMWG");
  need(args.filter((a) => a === file).length === 1, "file");
  const api = pairs(args, "-api");
  const structs = api.filter((a) => /^struct=/i.test(a)).map((a) => a.slice(7));
  if (op === "read") {
    need(structs.length === 1 && structs[0] === (typeof o.struct === "number" ? String(o.struct) : "0"), "struct");
    need(api.some((a) => /^geolocation/i.test(a)) === (o.geolocation === true), "geolocation");
    need(api.some((a) => /^keeputctime/i.test(a)) === (o.keepUTCTime === true), "keepUTCTime");
    const hash = api.filter((a) => /^imagehashtype=/i.test(a)).map((a) => a.slice(14));
    need(o.imageHashType ? hash.length === 1 && hash[0] === o.imageHashType && api.some((a) => /^requesttags=.*imagedatahash/i.test(a)) : hash.length === 0, "imageHashType");
    const num = args.filter((a) => /^-[*\w]+#$/.test(a)).map((a) => a.slice(1, -1));
    need(JSON.stringify(num) === JSON.stringify(o.numericTags), "numericTags");
  }
  if (op === "read" || op === "readRaw") {
    need(contains(args, o.readArgs), "readArgs");
    need(args.includes("-G") === o.readArgs.includes("-G") && args.includes("-fast") === o.readArgs.includes("-fast") && args.includes("-a") === o.readArgs.includes("-a"), "readArgs of another call");
  }
  if (op === "write" || op === "editTags") {
    need(structs.length === 1 && structs[0] === (typeof o.struct === "number" ? String(o.struct) : "2"), "struct");
    need(contains(args, o.writeArgs), "writeArgs");
    need(args.includes("-overwrite_original") === o.writeArgs.includes("-overwrite_original") && args.includes("-P") === o.writeArgs.includes("-P"), "writeArgs of another call");
  }
  if (op === "editTags") {
    const sent = args.filter((a) => /^-(XMP-dc:Subject|IPTC:Keywords)[+-]=/.test(a));
    need(JSON.stringify(sent) === JSON.stringify(want.edits.map((e) => `-${e.tag}${e.operation === "add" ? "+" : "-"}=${e.value}`)), "edits");
  }
  if (op === "write") {
    for (const k of Object.keys(want.tags)) need(args.some((a) => a.startsWith(`-${k}=`)), "tag " + k);
    const scalar = Object.entries(want.tags).filter(([, v]) => typeof v === "string" || typeof v === "number");
    for (const [k, v] of scalar) need(args.includes(`-${k}=${v}`), "value of " + k);
  }
  if (op === "deleteAllTags") {
    const kept = args.filter((a) => /^-[\w:]+<[\w:]+$/.test(a));
    need(JSON.stringify(kept) === JSON.stringify((want.opts?.retain ?? []).map((t) => `-${t}<${t}`)), "retain");
    need(args.includes("-all="), "delete all");
  }
  if (op === "extractBinaryTag") need(args.includes("-W!") === (want.opts?.forceWrite === true), "forceWrite");
  if (op === "rewriteAllTags") need(args.includes("-F") === (want.opts?.allowMakerNoteRepair === true), "allowMakerNoteRepair");
  return w;
}

// ------------------------------------------------------------------ value classes and helpers
async function values(ctx) {
  const { rng, lib } = ctx;
  const { ExifDateTime, ExifDate, ExifTime } = lib;
  const untouched = (what, objs, f) => {
    const frozen = rng.bool();
    if (frozen) objs.forEach(freeze);
    const before = objs.map((o) => describe(o));
    let err;
    try {
      f();
    } catch (e) {
      err = e;
    }
    ctx.saw(what + "/" + frozen + "/" + before.join().slice(0, 300));
    objs.forEach((o, i) => ctx.check(describe(o) === before[i], "caller-object", what, () => ({ before: before[i], after: describe(o) })));
    ctx.check(err === undefined, frozen ? "frozen-accepted" : "fulfils", what, () => ({ err: String(err?.stack) }));
  };
  for (let i = 0; i < ctx.n(400, 4000); i++) {
    const zone = rng.pick([undefined, null, "UTC", "America/New_York", "UTC+5", lib.UnsetZoneName, lib.UnsetZone]);
    const mo = { ...(zone !== undefined || rng.bool() ? { zone } : {}), ...(rng.bool() ? { rawValue: "r" } : {}), ...(rng.bool(0.2) ? { locale: "fr" } : {}) };
    const ms = rng.int(-2e12, 4e12);
    untouched("ExifDateTime.fromMillis", [mo], () => ExifDateTime.fromMillis(ms, mo));
    const o2 = clone(mo);
    untouched("ExifDateTime.now", [o2], () => ExifDateTime.now(o2));
    const edt = ExifDateTime.fromEXIF(`2020:0${rng.int(1, 9)}:1${rng.int(0, 9)} 10:20:30${rng.pick(["", "Z", "-07:00", ".5"])}`);
    const j = JSON.parse(JSON.stringify(edt));
    untouched("ExifDateTime.fromJSON", [j], () => ExifDateTime.fromJSON(j));
    const before = JSON.stringify(edt) + String(edt);
    const so = { keepLocalTime: rng.bool() };
    untouched("ExifDateTime methods", [so], () => {
      edt.setZone(rng.pick(["UTC", "Asia/Tokyo", lib.UnsetZone]), so);
      edt.plus({ hours: 5 });
      edt.toDateTime({ zone: "UTC" });
      edt.toDate();
      edt.toMillis?.();
      edt.toISOString({ includeOffset: rng.bool() });
      edt.toExifString({ includeOffset: rng.bool() });
      edt.matches?.(edt);
    });
    ctx.check(JSON.stringify(edt) + String(edt) === before, "immutable-value", "ExifDateTime", () => ({ before, after: JSON.stringify(edt) + String(edt) }));
    const t = { GPSLatitude: rng.float(-90, 90), GPSLongitude: rng.float(-180, 180), TimeZone: "+05:00", DateTimeOriginal: "2020:01:01 00:00:00", GPSDateTime: "2020:01:01 05:00:00Z", CreateDate: "2020:01:01 00:00:00+02:00", DaylightSavings: 1 };
    for (const k of rng.sample(Object.keys(t), rng.int(0, 5))) delete t[k];
    untouched("extractTzOffsetFromTags", [t], () => lib.extractTzOffsetFromTags(t));
    untouched("extractTzOffsetFromUTCOffset", [t], () => lib.extractTzOffsetFromUTCOffset(t));
    const text = JSON.stringify({ a: edt, b: [ExifDate.fromISO("2020-01-02"), ExifTime.fromEXIF("10:11:12")] });
    const p1 = lib.parseJSON(text);
    const d1 = describe(p1);
    lib.parseJSON(text).a = 5;
    ctx.check(describe(p1) === d1, "immutable-value", "parseJSON", () => ({ d1 }));
  }
}

// ------------------------------------------------------------------ real children
async function real(ctx) {
  const { rng, lib } = ctx;
  const dir = ctx.tmpdir("c20r");
  const XMP = `<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description rdf:about='' xmlns:dc='http://purl.org/dc/elements/1.1/' xmlns:tiff='http://ns.adobe.com/tiff/1.0/' xmlns:my='http://example.com/my/'><dc:rights><rdf:Alt><rdf:li xml:lang='x-default'>xmp rights</rdf:li></rdf:Alt></dc:rights><dc:creator><rdf:Seq><rdf:li>xmp a</rdf:li><rdf:li>xmp b</rdf:li></rdf:Seq></dc:creator><tiff:Orientation>6</tiff:Orientation><my:Thing rdf:parseType='Resource'><my:x>1</my:x></my:Thing></rdf:Description></rdf:RDF></x:xmpmeta>`;
  const f = path.join(dir, "a.jpg");
  const gps = { 1: J.ascii("N"), 2: { type: 5, values: [[47, 1], [30, 1], [0, 1]] }, 3: J.ascii("E"), 4: { type: 5, values: [[8, 1], [30, 1], [0, 1]] } };
  let tiff;
  try {
    tiff = J.tiff({ ifd0: { 0x10f: J.ascii("Maker"), 0x8298: J.ascii("exif rights"), 0x13b: J.ascii("exif artist") }, exif: { 0x9003: J.ascii("2020:07:01 12:00:00") }, gps });
  } catch {
    tiff = J.tiff({ ifd0: { 0x10f: J.ascii("Maker"), 0x8298: J.ascii("exif rights"), 0x13b: J.ascii("exif artist") }, exif: { 0x9003: J.ascii("2020:07:01 12:00:00") } });
  }
  fs.writeFileSync(f, J.jpeg({ segments: [J.exifSegment(tiff), J.xmpSegment(XMP)] }));
  const inst = (o) => new lib.ExifTool({ maxProcs: 1, maxTasksPerProcess: 10000, taskTimeoutMillis: 60000, ...o });
  // the order of keys is ExifTool's, and it varies
  const sorted = (x) => (Array.isArray(x) ? x.map(sorted) : x && typeof x === "object" ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, sorted(x[k])])) : x);
  const norm = (v) => JSON.stringify(sorted(JSON.parse(JSON.stringify(v, (k, x) => (/FileAccessDate|FileInodeChangeDate|FileModifyDate|ProcessingTime/.test(k) ? undefined : x)))));
  const answers = new Map();
  const fresh = async (op, opts) => {
    const key = JSON.stringify([op, opts]);
    if (!answers.has(key)) {
      const et = inst();
      const r = await settle(et[op](f, clone(opts)));
      answers.set(key, r.status + norm(r.value ?? String(r.reason)));
      await settle(et.end(), 20000);
    }
    return answers.get(key);
  };
  const option = (mwg) => {
    const o = { useMWG: mwg };
    if (rng.bool(0.4)) o.struct = rng.pick([0, 1, 2]);
    if (rng.bool(0.3)) o.geolocation = rng.bool();
    if (rng.bool(0.3)) o.keepUTCTime = rng.bool();
    if (rng.bool(0.3)) o.imageHashType = rng.pick([false, "MD5", "SHA256"]);
    if (rng.bool(0.3)) o.numericTags = rng.pick([[], ["Orientation", "GPSLatitude"], ["FileSize"]]);
    if (rng.bool(0.4)) o.readArgs = rng.pick([[], ["-G"], ["-fast2"], ["-n"], ["-c", "%.3f"], ["-lang", "de"], ["-d", "%Y"], ["-E"], ["-sep", "|"], ["-charset", "iptc=latin1"]]);
    return o;
  };
  for (let h = 0; h < ctx.n(2, 10); h++) {
    const mwg = rng.bool();
    const et = inst();
    try {
      const past = [];
      for (let i = 0; i < ctx.n(14, 40); i++) {
        const op = rng.weighted([[3, "read"], [1, "readRaw"]]);
        let o = option(mwg);
        if (op === "readRaw") o = { useMWG: o.useMWG, ...(o.readArgs ? { readArgs: o.readArgs } : {}) };
        const r = await settle(et[op](f, clone(o)));
        const got = r.status + norm(r.value ?? String(r.reason));
        const want = await fresh(op, o);
        ctx.saw("real/" + JSON.stringify([op, o, past.length]), { op, o, past: past.length });
        ctx.check(got === want, "history", `${op} ${JSON.stringify(o)}`, () => ({ op, o, past, got: got.slice(0, 2500), want: want.slice(0, 2500) }));
        past.push([op, o]);
        if (rng.bool(0.15)) await settle(et.write(path.join(dir, "b.jpg"), { "XMP:Title": "x" }, { useMWG: mwg, writeArgs: ["-overwrite_original", "-ignoreMinorErrors"] }));
      }
    } finally {
      await settle(et.end(), 20000);
    }
  }
  // "-use MWG" of a command stays in effect in that child
  const et = inst();
  try {
    await settle(et.read(f, { useMWG: true }));
    const r = await settle(et.read(f, { useMWG: false }));
    const want = await fresh("read", { useMWG: false });
    ctx.check(r.status + norm(r.value) === want, "history-mwg", "useMWG: false after useMWG: true in the same child", () => ({ got: norm(r.value).slice(0, 2500), want: want.slice(0, 2500) }));
  } finally {
    await settle(et.end(), 20000);
  }
}
