"use strict";
// A deterministic workload whose outputs must not depend on the host's time zone, locale or season:
//   node hostwork.js <build> <seed> <n> <now ms> <files dir>
// writes one JSON line per observation: [label, input, output]
const path = require("node:path");
const fs = require("node:fs");
const [build, seed, n, now, dir] = process.argv.slice(2);
{
  // the host's clock (the season): shifted, still running
  const shift = +now - Date.now();
  const RealDate = Date;
  const realNow = RealDate.now;
  globalThis.Date = class Date extends RealDate {
    constructor(...a) {
      if (a.length === 0) super(realNow() + shift);
      else super(...a);
    }
    static now() {
      return realNow() + shift;
    }
  };
}
const lib = require(path.join(build, "dist/ExifTool.js"));
const { DateTime } = require(require.resolve("luxon", { paths: [fs.realpathSync(path.join(build, "node_modules"))] }));
const { Rng } = require("./rng.js");
const W = require("./when.js");
const { FakeReader } = require("./reader.js");
const { FakeFleet, READY, fastOptions } = require("./fake.js");
const rng = new Rng(seed);
const out = fs.openSync(path.join(dir, "out"), "w");
let buf = "";
function emit(label, input, value) {
  buf += JSON.stringify([label, input, value === undefined ? "<undefined>" : value]) + "\n";
  if (buf.length > 1 << 20) flush();
}
function flush() {
  fs.writeSync(out, buf);
  buf = "";
}
const attempt = (f) => {
  try {
    const v = f();
    return v === undefined ? "<undefined>" : v;
  } catch (e) {
    return "throws " + (e?.message ?? e);
  }
};
/** its zone's clocks show these fields twice: which one is meant, is luxon's guess, and that depends on the season */
function repeated(v) {
  const z = v.zone;
  if (!z || !String(z).includes("/")) return false;
  return W.instants(z, W.utc(v.year, v.month, v.day, v.hour, v.minute, v.second)).length > 1;
}
/** everything observable about a value that has to be the same everywhere */
function look(v) {
  if (v instanceof lib.ExifDateTime) {
    if (repeated(v)) return { c: "ExifDateTime", repeated: [v.year, v.month, v.day, v.hour, v.minute, v.second, v.millisecond ?? null, v.zone, v.rawValue ?? null] };
    const o = { c: "ExifDateTime", ...JSON.parse(JSON.stringify(v)), iso: attempt(() => v.toISOString()), isoNoOff: attempt(() => v.toISOString({ includeOffset: false })), exif: attempt(() => v.toExifString()), text: attempt(() => String(v)), zone: v.zone ?? null, hasZone: v.hasZone, valid: v.isValid, off: attempt(() => v.tzoffsetMinutes ?? null), inferred: v.inferredZone ?? null };
    if (v.hasZone) Object.assign(o, { ms: attempt(() => v.toMillis()), date: attempt(() => v.toDate().toISOString()), dt: attempt(() => v.toDateTime().toISO()) });
    return o;
  }
  if (v instanceof lib.ExifDate) return { c: "ExifDate", ...JSON.parse(JSON.stringify(v)), iso: attempt(() => v.toISOString()), exif: attempt(() => v.toExifString()), text: String(v) };
  // (a time of day in a zone with rules shows that zone's current offset)
  if (v instanceof lib.ExifTime && String(v.zone ?? "").includes("/")) return { c: "ExifTime", ...JSON.parse(JSON.stringify(v)), hms: [v.hour, v.minute, v.second, v.millisecond ?? null] };
  if (v instanceof lib.ExifTime) return { c: "ExifTime", ...JSON.parse(JSON.stringify(v)), iso: attempt(() => v.toISOString()), exif: attempt(() => v.toExifString()), text: String(v) };
  if (v instanceof lib.BinaryField) return { c: "BinaryField", ...JSON.parse(JSON.stringify(v)) };
  if (Array.isArray(v)) return v.map(look);
  if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, look(x)]));
  return v;
}
const MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const DAYS = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
function fields() {
  // often near a transition of some zone, where a host zone would show
  let t;
  if (rng.bool(0.6)) {
    const tr = rng.pick(W.transitionsOf(rng.pick(W.ZONES.filter((z) => W.transitionsOf(z).length))));
    t = new Date(tr.ms + tr.before * 60000 + rng.int(-5400, 5400) * 1000);
  } else t = new Date(W.utc(rng.int(1880, 2090), rng.int(1, 12), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59)));
  return { y: t.getUTCFullYear(), m: t.getUTCMonth() + 1, d: t.getUTCDate(), h: t.getUTCHours(), mi: t.getUTCMinutes(), s: t.getUTCSeconds(), wd: t.getUTCDay() };
}
const p2 = W.p2;
const suffix = () => rng.weighted([[5, ""], [2, "Z"], [3, W.offsetText(rng.pick(W.OFFSETS))], [1, W.offsetText(rng.pick(W.OFFSETS), { colon: "" })], [1, " " + rng.pick(W.ZONES)], [1, " " + rng.pick(["PST", "PDT", "EST", "CEST", "JST", "UTC", "GMT", "CST"])], [1, rng.pick([" DST", " foo", "+15:00", "-12:00", " -08:00 DST"])]]);
function dateText(f) {
  return rng.pick([
    () => `${f.y}:${p2(f.m)}:${p2(f.d)} ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`,
    () => `${f.y}:${p2(f.m)}:${p2(f.d)} ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`,
    () => `${f.y}-${p2(f.m)}-${p2(f.d)}T${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`,
    () => `${f.y}-${p2(f.m)}-${p2(f.d)} ${p2(f.h)}:${p2(f.mi)}`,
    () => `${f.y}:${p2(f.m)}:${p2(f.d)} ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}.${rng.int(0, 999)}`,
    () => `${f.y}${p2(f.m)}${p2(f.d)}T${p2(f.h)}${p2(f.mi)}${p2(f.s)}`,
    () => `${MONTHS[f.m - 1]} ${f.d} ${f.y}, ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`,
    () => `${MONTHS[f.m - 1]} ${p2(f.d)} ${f.y} ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`,
    () => `${DAYS[f.wd]} ${MONTHS[f.m - 1]} ${p2(f.d)} ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)} ${f.y}`,
    () => `${f.d} ${MONTHS[f.m - 1]} ${f.y} ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`,
    () => `${f.y}:${p2(f.m)}:${p2(f.d)}`,
    () => `${f.y}-${p2(f.m)}-${p2(f.d)}`,
    () => `${f.y}:${p2(f.m)}`,
    () => `${f.y}`,
    () => `${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`,
    () => `${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}.${rng.pick(["0", "04", "123", "500", "999999"])}`,
    () => `${f.d}/${f.m}/${f.y} ${f.h}:${p2(f.mi)}`,
  ])();
}
async function main() {
  const { ExifDateTime, ExifDate, ExifTime } = lib;
  const zones = [undefined, undefined, "UTC", "America/New_York", "Asia/Kolkata", "UTC-8", "Europe/London", lib.UnsetZoneName];
  const vals = [];
  for (let i = 0; i < +n; i++) {
    const t = dateText(fields()) + suffix();
    const z = rng.pick(zones);
    for (const f of ["fromEXIF", "fromISO", "fromExifStrict", "fromExifLoose", "from"]) {
      if (typeof ExifDateTime[f] !== "function") continue;
      const v = attempt(() => ExifDateTime[f](t, z));
      emit("ExifDateTime." + f, [t, z ?? null], look(v));
      if (v instanceof ExifDateTime && !repeated(v)) {
        vals.push(v);
        const z2 = rng.pick(["UTC", "Asia/Tokyo", "America/St_Johns", lib.UnsetZone]);
        if (v.hasZone || rng.bool(0.3)) {
          const keepLocalTime = rng.bool() || !v.hasZone;
          emit("setZone", [t, z ?? null, String(z2?.name ?? z2), keepLocalTime], look(attempt(() => v.setZone(z2, { keepLocalTime }))));
        }
        if (v.hasZone) emit("plus", [t, z ?? null], look(attempt(() => v.plus({ hours: 30, minutes: 7 }))));
        emit("JSON", [t, z ?? null], look(attempt(() => lib.parseJSON(JSON.stringify({ v })).v)));
        emit("fromDateTime", [t, z ?? null], v.hasZone ? look(attempt(() => ExifDateTime.fromDateTime(v.toDateTime()))) : 0);
        emit("asExif", [t], look(attempt(() => ExifDateTime.fromEXIF(v.toExifString()))));
        emit("asISO", [t], look(attempt(() => ExifDateTime.fromISO(v.toISOString()))));
      }
    }
    for (const f of ["fromEXIF", "fromISO", "fromExifStrict", "fromExifLoose", "from"]) {
      if (typeof ExifDate[f] === "function") emit("ExifDate." + f, t, look(attempt(() => ExifDate[f](t))));
      if (typeof ExifTime[f] === "function") emit("ExifTime." + f, [t, z ?? null], look(attempt(() => ExifTime[f](t, z))));
    }
    const ms = W.utc(1960, 1, 1) + rng.int(0, 4e9) * 1000;
    for (const zone of ["UTC", "America/New_York", "Australia/Lord_Howe", "UTC+5:45"]) emit("fromMillis", [ms, zone], look(attempt(() => ExifDateTime.fromMillis(ms, { zone }))));
    emit("extractZone", t, attempt(() => lib.extractZone(t)));
    const a = dateText(fields()), b = dateText(fields()) + "Z";
    emit("utcoffset", [a, b], attempt(() => lib.extractTzOffsetFromUTCOffset({ DateTimeOriginal: a, GPSDateTime: b })));
  }
  for (let i = 0; i + 1 < vals.length && i < 2 * n; i++) emit("matches", [String(vals[i]), String(vals[i + 1])], [attempt(() => vals[i].matches?.(vals[i + 1])), attempt(() => vals[i].matches?.(vals[i]))]);
  for (const z of [...W.ZONES, ...W.OFFSETS, "UTC+3", "Z", "gmt", "nonsense"]) {
    emit("normalizeZone", z, attempt(() => lib.normalizeZone(z)?.name));
    emit("zoneToShortOffset", z, attempt(() => lib.zoneToShortOffset(z, W.utc(2021, 7, 1))));
    if (!String(z).includes("/")) emit("equivalentZones", z, attempt(() => lib.equivalentZones(z, "UTC-5")));
  }
  // ---- reads of made-up reports
  const reader = new FakeReader(lib, { geoTz: (lat, lon) => (lat > 0 ? "Europe/Paris" : lon > 0 ? "Australia/Adelaide" : "America/Sao_Paulo"), taskRetries: 0 }, 1);
  const TAGS = ["DateTimeOriginal", "CreateDate", "ModifyDate", "SubSecDateTimeOriginal", "GPSDateTime", "GPSDateStamp", "GPSTimeStamp", "FileModifyDate", "FileAccessDate", "MediaCreateDate", "TrackModifyDate", "DateCreated", "TimeCreated", "MetadataDate", "TimeStamp", "DateTime", "CreationDate", "SonyDateTime", "ExpirationDate", "HistoryWhen", "DateTimeUTC", "ProfileDateTime", "ReleaseDate", "TimeSent"];
  for (let i = 0; i < n / 2; i++) {
    const tags = { MIMEType: rng.pick(["image/jpeg", "image/jpeg", "video/mp4", "video/quicktime"]) };
    for (const k of rng.sample(TAGS, rng.int(1, 7))) tags[k] = rng.bool(0.15) ? [dateText(fields()), dateText(fields()) + suffix()] : dateText(fields()) + suffix();
    if (rng.bool(0.3)) Object.assign(tags, { GPSLatitude: rng.int(-80, 80), GPSLongitude: rng.int(-170, 170) });
    if (rng.bool(0.2)) tags[rng.pick(["TimeZone", "OffsetTime", "OffsetTimeOriginal", "TimeZoneOffset"])] = rng.pick(["+05:30", "-08:00", -5, "Z", "+01:00"]);
    const opts = {};
    for (const k of ["backfillTimezones", "defaultVideosToUTC", "inferTimezoneFromDatestamps", "inferTimezoneFromTimeStamp", "preferTimezoneInferenceFromGps", "keepUTCTime"]) if (rng.bool(0.25)) opts[k] = rng.bool();
    const r = await reader.read(tags, opts);
    emit("read", [tags, opts], r.status === "fulfilled" ? look(r.value) : "rejected " + r.reason);
    if (r.status === "fulfilled") emit("read JSON", [tags, opts], look(lib.parseJSON(JSON.stringify(r.value))));
  }
  await reader.end();
  // ---- what is sent for dates
  const sent = [];
  const fleet = new FakeFleet((c) => (c.args[0] === "-ver" || sent.push(c.args), [{ out: "    1 image files updated\n" + READY }]), { keepLog: false });
  const et = new lib.ExifTool(fastOptions(fleet, { maxProcs: 1 }));
  for (const v of rng.sample(vals, Math.min(vals.length, Math.ceil(n / 4)))) {
    const tags = { DateTimeOriginal: v, "XMP:CreateDate": rng.bool() ? v.toISOString() : v };
    if (v.hasZone) tags.ModifyDate = attempt(() => v.toDateTime());
    sent.length = 0;
    const r = await et.write("/nowhere/a.jpg", tags).then((x) => x, (e) => "rejected " + e);
    emit("write", [String(v), v.zoneName ?? null], [sent.slice(), r]);
  }
  await et.end();
  fleet.killAll();
  // ---- files
  const files = fs.readdirSync(path.join(dir, "..", "files")).sort();
  if (files.length) {
    const real = new lib.ExifTool({ maxProcs: 1, taskTimeoutMillis: 60000 });
    for (const f of files) {
      for (const o of [{}, { keepUTCTime: false }, { defaultVideosToUTC: false, backfillTimezones: false }, { struct: 1, inferTimezoneFromTimeStamp: true }]) {
        const r = await real.read(path.join(dir, "..", "files", f), o).then(look, (e) => "rejected " + e);
        // the access time isn't ours
        if (r && typeof r === "object") delete r.FileAccessDate;
        emit("file", [f, o], r);
      }
      emit("file raw", f, await real.readRaw(path.join(dir, "..", "files", f)).then((r) => ({ ...r, FileAccessDate: 0 }), String));
    }
    await real.end();
  }
  flush();
  fs.closeSync(out);
  process.exit(0);
}
main().catch((e) => {
  console.error(e);
  process.exit(3);
});
