"use strict";
// C26: the time a call keeps the host busy grows no faster than the text it is given. Monitor: the
// process's own CPU time per call, at growing sizes of the same hostile shape.
const path = require("node:path");
const fs = require("node:fs");
const { FakeReader } = require("../lib/reader.js");
const { FakeFleet, fastOptions, READY } = require("../lib/fake.js");
const { settle } = require("../lib/ctx.js");
const J = require("../lib/jpeg.js");

const UNITS = [" ", "\t", "\n", "\r\n", "\u00a0", "0", "1", "9", "00", "-", "+", ":", ".", ",", ", ", "/", "_", "a", "A", "Z", "T", "N", "S ", "z", "é", "漢", "🎉", "\ufffd", "(", ")", "{", "[", "|", "=", "&", "&amp;", "&#10;", '"', "\\", "'", "°", "° ", "deg ", "1 ", "1.", "1:", "0:", "12:", "-1", "+01:00", " +01:00", "+1", "UTC", " UTC", "UTC ", "UTC+", "GMT", "America/", "2020:", "2020:01:02 ", "03:04:05", "DST", "Binary ", "data ", "bytes", "warning", "warning: ", "Error: ", "error: warning", "12 34 56 N ", "true", "−"];
const SEEDS = ["", "2020:01:02 03:04:05", "2020:01:02 03:04:05.123+05:30", "2020-01-02T03:04:05Z", "2020:01:02", "2020-01", "2020", "03:04:05", "03:04:05.6-08:00", "Jan 2 2020", "Mon Jan 02 03:04:05 2020", "+05:30", "UTC+5", "America/New_York", "Z", "GMT-3", "12 deg 34' 56.78\" N", "12.5 N, 13.5 E", "-12.5", "12° 30.5' S", "40 26 46 N 79 58 56 W", "(Binary data 123 bytes, use -b option to extract)", "Error: x - y", "Warning: [minor] z", "text"];
const SIZES = [40, 1500, 15000, 60000];
const LIMIT_MS = 1500;

module.exports = {
  technique: "CPU-time monitor per call over hostile text shapes at growing sizes (parsers, read, write)",
  level: "exploration",
  rule: "one call with one hostile text shape (seed, inserted run or runs, suffix) up to 60,000 characters, or one oversized list, structure or tag set; distinct by call and shape",
  assumptions: ["Violation: a call of at most 60,000 characters (or a few thousand items) takes over 1.5 s of CPU time in each of three runs, and at least 7 times what a quarter of it takes. Calls proportional to their input take a few milliseconds.", "CPU time is the process's own, with one call in flight."],
  shards: (tier) => [...Array.from({ length: tier === "quick" ? 4 : 8 }, (_, k) => ({ name: "parse", k })), ...Array.from({ length: tier === "quick" ? 3 : 4 }, (_, k) => ({ name: "read", k })), { name: "write" }, { name: "real" }],
  minimums: () => ({ evaluations: 3000, "oracle:proportional": 6000, "case:parser": 3000, "case:read": 150, "case:write": 60, "case:real": 4, "oracle:settles": 200 }),
  async run(ctx) {
    return { parse, read, write, real }[ctx.shard.name](ctx, ctx.rng);
  },
};

/** a shape: text of about n characters */
function shape(rng) {
  const seed = rng.pick(SEEDS);
  const at = rng.pick([0, seed.length, rng.int(0, seed.length)]);
  const u = rng.pick(UNITS), v = rng.bool(0.3) ? rng.pick(UNITS) : undefined;
  const tail = rng.pick(["", "", "x", "!", "Z", " ", "\n", "N", "0", "\ufffd"]);
  const rep = (s, n) => s.repeat(Math.max(1, Math.ceil(n / s.length)));
  const text = (n) => seed.slice(0, at) + rep(u, v ? n / 2 : n) + (v ? rep(v, n / 2) : "") + tail + seed.slice(at);
  return { text, key: JSON.stringify([seed, at, u, v, tail]) };
}
/** every seed with a run of what stands at a position, of blanks or of digits inserted there */
function sweep() {
  const all = [];
  for (const seed of SEEDS)
    for (let at = 0; at <= seed.length; at++)
      for (const u of new Set([seed[at - 1], seed[at], " ", "0"]))
        if (u !== undefined) for (const tail of [seed.slice(at), seed.slice(at) + "!", "!"]) all.push({ text: (n) => seed.slice(0, at) + u.repeat(n) + tail, key: JSON.stringify(["sweep", seed, at, u, tail]) });
  return all;
}
const cpu = () => {
  const c = process.cpuUsage();
  return (c.user + c.system) / 1000;
};
/** f(n) at growing sizes; stops at the first that is slow */
async function grow(ctx, what, key, f, sizes = SIZES) {
  const took = async (n) => {
    const t = cpu();
    await f(n);
    return cpu() - t;
  };
  for (const n of sizes) {
    let ms = await took(n);
    ctx.check(true, "proportional", what);
    if (ms < LIMIT_MS) continue;
    for (let k = 0; k < 2 && ms >= LIMIT_MS; k++) ms = Math.min(ms, await took(n));
    if (ms < LIMIT_MS) continue;
    let quarter = Infinity;
    for (let k = 0; k < 3; k++) quarter = Math.min(quarter, await took(Math.floor(n / 4)));
    ctx.check(ms < quarter * 7, "proportional", what, () => ({ what, key, n, ms: Math.round(ms), quarter: Math.round(quarter) }));
    return;
  }
}

function parsers(lib) {
  const out = {};
  const add = (name, o, m, more = (s) => [s]) => typeof o?.[m] === "function" && (out[name] = (s) => o[m](...more(s)));
  for (const m of ["fromEXIF", "fromISO", "fromExifStrict", "fromExifLoose", "from"]) {
    add("ExifDateTime." + m, lib.ExifDateTime, m);
    add("ExifDate." + m, lib.ExifDate, m);
    add("ExifTime." + m, lib.ExifTime, m);
  }
  add("ExifDateTime.fromEXIF zone", lib.ExifDateTime, "fromEXIF", (s) => ["2020:01:02 03:04:05", s]);
  add("BinaryField.fromRawValue", lib.BinaryField, "fromRawValue");
  for (const m of ["normalizeZone", "extractZone", "isZoneValid", "isZone", "isUTC", "isZoneUnset", "parseTimezoneOffsetToMinutes", "parseTimezoneOffsetMatch", "isGeolocationTag"]) add(m, lib, m);
  add("equivalentZones", lib, "equivalentZones", (s) => [s, "UTC"]);
  add("extractTzOffsetFromTags", lib, "extractTzOffsetFromTags", (s) => [{ TimeZone: s, OffsetTime: s, TimeZoneOffset: s, DateTimeOriginal: s }]);
  add("extractTzOffsetFromUTCOffset", lib, "extractTzOffsetFromUTCOffset", (s) => [{ DateTimeOriginal: s, GPSDateTime: s, DateTimeUTC: "2020:01:02 03:04:05" }]);
  add("parseJSON", lib, "parseJSON", (s) => [JSON.stringify({ a: { _ctor: "ExifDateTime", rawValue: s, zone: s, zoneName: s, year: 2020, month: 1, day: 1 }, b: { _ctor: s }, invalidUtf8Bytes: { [s]: s } })]);
  return out;
}

async function parse(ctx, rng) {
  const fns = Object.entries(parsers(ctx.lib));
  const end = Date.now() + ctx.n(40, 400) * 1000;
  const all = sweep().filter((_, i) => i % (ctx.quick ? 4 : 8) === ctx.shard.k);
  for (let i = 0; i < ctx.n(1200, 20000) && Date.now() < end; i++) {
    const { text, key } = all[i] ?? shape(rng);
    for (const [name, f] of i < all.length ? fns : rng.sample(fns, 4)) {
      await grow(ctx, name, key, (n) => {
        try {
          f(text(n));
        } catch {
          // (which texts are refused is others' subject)
        }
      }, i < all.length ? [40, 2000, 60000] : SIZES);
      ctx.count("case:parser");
      ctx.saw(name + key, i < 4 ? { name, key } : undefined);
    }
    if (i % 50 === 0) await new Promise((r) => setImmediate(r));
  }
}

const NAMES = ["DateTimeOriginal", "CreateDate", "ModifyDate", "GPSDateTime", "GPSDateStamp", "GPSTimeStamp", "SubSecCreateDate", "TimeZone", "OffsetTime", "OffsetTimeOriginal", "TimeZoneOffset", "DaylightSavings", "GPSLatitude", "GPSLongitude", "GPSLatitudeRef", "GPSLongitudeRef", "GPSPosition", "GPSAltitude", "Geolocation", "GeolocationTimeZone", "Title", "Make", "MIMEType", "FileModifyDate", "DateCreated", "TimeCreated", "ThumbnailImage", "Error", "Warning", "ExifToolVersion", "FileName", "SomeValid", "Keywords", "Duration"];
const SOME = ["CreateDate", "GPSDateTime", "GPSTimeStamp", "TimeZone", "OffsetTime", "GPSLatitude", "GPSLongitude", "GPSPosition", "GPSAltitude", "ThumbnailImage", "SomeValid", "Warning"];
async function read(ctx, rng) {
  const reader = new FakeReader(ctx.lib, { taskRetries: 0, taskTimeoutMillis: 120000 }, 1);
  const end = Date.now() + ctx.n(60, 400) * 1000;
  const all = rng.shuffle(sweep().filter((s, i) => s.key.endsWith('!"]') && Math.floor(i / 3) % (ctx.quick ? 3 : 4) === ctx.shard.k));
  for (const s of all) {
    if (Date.now() > end - ctx.n(20, 100) * 1000) break;
    await grow(ctx, "read all", s.key, async (n) => {
      const r = await reader.read(Object.fromEntries(SOME.map((k) => [k, s.text(n)])), undefined, all.indexOf(s) % 2 ? { err: "Warning: " + s.text(n) + "\n" } : {});
      ctx.check(r.status === "fulfilled", "settles", "read all", () => ({ n, key: s.key, status: r.status, reason: String(r.reason).slice(0, 300) }));
    }, [40, 2000, 50000]);
    ctx.count("case:read");
    ctx.saw("all" + s.key);
  }
  const opts = () => rng.pick([undefined, undefined, { backfillTimezones: false }, { inferTimezoneFromDatestamps: true, inferTimezoneFromDatestampTags: ["DateTimeOriginal", "CreateDate"] }, { adjustTimeZoneIfDaylightSavings: () => 60 }, { keepUTCTime: true }, { defaultVideosToUTC: false }]);
  for (let i = 0; i < ctx.n(150, 2000) && Date.now() < end; i++) {
    const o = opts();
    const method = rng.pick(["read", "read", "read", "readRaw"]);
    const kind = rng.weighted([[10, "texts"], [2, "stderr"], [1, "list"], [1, "struct"], [1, "deep"], [1, "many"], [1, "broken"]]);
    const shapes = rng.times(rng.int(1, 4), () => [rng.pick(NAMES), shape(rng)]);
    const names = rng.times(40, () => rng.pick(NAMES));
    const one = shapes[0][1];
    const call = async (n) => {
      let tags = {}, extra = {};
      const k = Math.ceil(n / 20);
      if (kind === "texts" || kind === "stderr") for (const [t, s] of shapes) tags[t] = s.text(n);
      if (kind === "stderr") extra.err = rng.pick(["", "Warning: ", "Error: "]) + one.text(n) + "\n";
      if (kind === "list") tags[names[0]] = Array.from({ length: k }, (_, j) => one.text(10) + j);
      if (kind === "struct") tags[names[0]] = Object.fromEntries(Array.from({ length: k }, (_, j) => [names[j % 40] + j, one.text(10) + j]));
      if (kind === "many") for (let j = 0; j < k; j++) tags[names[j % 40] + j] = one.text(10);
      if (kind === "deep") {
        let x = one.text(10);
        for (let j = 0; j < Math.min(1500, n / 20); j++) x = j % 2 ? [x] : { CreateDate: x };
        tags[names[0]] = x;
      }
      if (kind === "broken") extra.text = (f) => JSON.stringify([{ SourceFile: f, Title: one.text(n) }]).slice(0, -3);
      const r = await reader.call(method, tags, o, extra);
      ctx.check(r.status === "fulfilled" || (r.status === "rejected" && r.reason instanceof Error), "settles", kind, () => ({ kind, method, n, names: shapes.map((s) => s[0]), status: r.status, reason: String(r.reason).slice(0, 300) }));
    };
    const key = JSON.stringify([method, kind, o, shapes.map(([t, s]) => [t, s.key])]);
    await grow(ctx, `${method} ${kind}`, key, call, [1500, 15000, 60000]);
    ctx.count("case:read");
    ctx.saw(key, i < 3 ? { method, kind, key: key.slice(0, 300) } : undefined);
  }
  await reader.end();
}

async function write(ctx, rng) {
  const fleet = new FakeFleet(() => [{ out: "    1 image files updated\n" + READY }], { keepLog: false });
  const et = new ctx.lib.ExifTool(fastOptions(fleet, { maxProcs: 1, taskRetries: 0, taskTimeoutMillis: 120000 }));
  const end = Date.now() + ctx.n(40, 300) * 1000;
  for (let i = 0; i < ctx.n(90, 1000) && Date.now() < end; i++) {
    const s = shape(rng), t = rng.pick(["XMP:Title", "IPTC:Caption-Abstract", "Keywords", "CreateDate", "GPSLatitude", "GPSLongitude", "GPSAltitude", "Orientation", "XMP-dc:Subject"]);
    const op = rng.pick(["write text", "write text", "write list", "write struct", "write many", "write deep", "edit", "edit many", "retain", "tag name", "file name", "extract"]);
    const call = async (n) => {
      const k = Math.ceil(n / 20);
      const file = "/nowhere/x.jpg";
      const p = {
        "write text": () => et.write(file, { [t]: s.text(n) }),
        "write list": () => et.write(file, { Keywords: Array.from({ length: k }, (_, j) => s.text(8) + j) }),
        "write struct": () => et.write(file, { "XMP:Foo": Object.fromEntries(Array.from({ length: k }, (_, j) => ["F" + j, s.text(8)])) }),
        "write many": () => et.write(file, Object.fromEntries(Array.from({ length: k }, (_, j) => ["XMP:T" + j, s.text(8)]))),
        "write deep": () => {
          let x = s.text(10);
          for (let j = 0; j < Math.min(400, n / 20); j++) x = j % 2 ? [x] : { A: x };
          return et.write(file, { "XMP:Foo": x });
        },
        edit: () => et.editTags(file, [{ tag: "XMP-dc:Subject", operation: rng.pick(["add", "remove"]), value: s.text(n) }]),
        "edit many": () => et.editTags(file, Array.from({ length: k }, (_, j) => ({ tag: "XMP-dc:Subject", operation: "add", value: "v" + j }))),
        retain: () => et.deleteAllTags(file, { retain: Array.from({ length: k }, (_, j) => "XMP:T" + j) }),
        "tag name": () => et.write(file, { [s.text(n)]: "x" }),
        "file name": () => et.readRaw("/nowhere/" + s.text(n)),
        extract: () => et.extractBinaryTagToBuffer(s.text(n), file),
      }[op];
      const r = await settle((async () => p())(), 100000);
      ctx.check(r.status === "fulfilled" || (r.status === "rejected" && r.reason instanceof Error), "settles", op, () => ({ op, n, key: s.key, status: r.status, reason: String(r.reason).slice(0, 300) }));
    };
    await grow(ctx, op, s.key, call, [1500, 15000, 60000]);
    ctx.count("case:write");
    ctx.saw(JSON.stringify([op, t, s.key]), i < 3 ? { op, key: s.key } : undefined);
  }
  await settle(et.end(), 20000);
  fleet.killAll();
  if (fleet.failure) throw fleet.failure;
}

/** such texts do reach read(), out of a file */
async function real(ctx, rng) {
  const dir = ctx.tmpdir("c26");
  const et = new ctx.lib.ExifTool({ maxProcs: 1 });
  try {
    for (let i = 0; i < ctx.n(6, 60); i++) {
      const unit = rng.pick([" ", "\t", "0", "+", ":", "1.", "UTC ", "deg "]);
      const call = async (n) => {
        const text = "2020-01-02" + unit.repeat(n / unit.length) + "x";
        const file = path.join(dir, `r${i}-${n}.jpg`);
        fs.writeFileSync(file, J.jpeg({ seed: "r" + i, segments: [J.xmpSegment(`<?xpacket begin='' id='W5M0MpCehiHzreSzNTczkc9d'?><x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description rdf:about='' xmlns:xmp='http://ns.adobe.com/xap/1.0/'><xmp:CreateDate>${text}</xmp:CreateDate></rdf:Description></rdf:RDF></x:xmpmeta><?xpacket end='w'?>`)] }));
        const r = await settle(et.read(file), 100000);
        ctx.check(r.status === "fulfilled" && String(r.value.CreateDate?.rawValue ?? r.value.CreateDate).length > n / 2, "settles", "real", () => ({ unit, n, status: r.status, reason: String(r.reason) }));
        fs.rmSync(file);
      };
      await grow(ctx, "real read", unit, call, [1500, 15000, 55000]);
      ctx.count("case:real");
      ctx.saw("real" + unit, { unit });
    }
  } finally {
    await settle(et.end(), 20000);
  }
}
