"use strict";
// C13: zone inference of read(), against a model of the documented order.
const W = require("../lib/when.js");
const { p2 } = W;
const { FakeReader } = require("../lib/reader.js");
const CAPTURED = ["SubSecDateTimeOriginal", "SubSecCreateDate", "DateTimeOriginal", "CreateDate", "MediaCreateDate", "CreationDate", "DateTimeCreated", "TimeCreated"];
const OTHERS = ["ModifyDate", "FileModifyDate", "MetadataDate", "DigitalCreationDateTime", "TrackCreateDate", "ProfileDateTime", "SubSecModifyDate", "DateTimeDigitized"];
const zname = (m) => (m === 0 ? "UTC" : `UTC${m < 0 ? "-" : "+"}${Math.floor(Math.abs(m) / 60)}${m % 60 ? ":" + p2(Math.abs(m) % 60) : ""}`);
const show = (d) => (d?.toJSON ? { ...d.toJSON(), iso: d.toISOString() } : d);
const fieldsOf = (local) => {
  const t = new Date(local);
  return { y: t.getUTCFullYear(), m: t.getUTCMonth() + 1, d: t.getUTCDate(), h: t.getUTCHours(), mi: t.getUTCMinutes(), s: t.getUTCSeconds() };
};
const text = (f) => `${f.y}:${p2(f.m)}:${p2(f.d)} ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`;
const offOf = (z) => {
  const x = /^UTC(?:([+-])(\d+)(?::(\d+))?)?$/.exec(z);
  return x && (x[1] ? (x[1] === "-" ? -1 : 1) * (Number(x[2]) * 60 + Number(x[3] ?? 0)) : 0);
};

module.exports = {
  technique: "online monitor of read() with a stand-in ExifTool reporting generated tag sets (model of the documented inference order as oracle)",
  level: "exploration",
  rule: "one report read under one combination of options; distinct by report and options",
  assumptions: ["GPS positions are plain numbers here (coordinate parsing is C08 and C09).", "Wall-clock times that an inferred IANA zone skips are not generated."],
  shards: () => ["UTC", "America/New_York", "Asia/Kathmandu", "Australia/Lord_Howe"].map((tz) => ({ name: "infer", env: { TZ: tz } })),
  minimums: () => ({ "oracle:zone": 8000, "oracle:source": 8000, "oracle:stated-zone": 8000, "oracle:backfilled": 2000, "oracle:not-backfilled": 500, "oracle:utc-tag": 1500, "oracle:video": 1000, "source:explicit": 500, "source:adjusted": 40, "source:gps": 400, "source:geolocation": 200, "source:datestamp": 300, "source:video": 150, "source:utc-delta": 200, "source:timestamp": 30, "source:none": 200 }),
  async run(ctx) {
    const { rng } = ctx;
    const calls = { mode: null };
    const geoTz = (lat, lon) => {
      calls.args = [lat, lon];
      if (calls.mode === "throw") throw new Error("geoTz broke");
      return calls.mode;
    };
    const reader = new FakeReader(ctx.lib, { geoTz, taskRetries: 0 }, 1);
    const end = Date.now() + ctx.n(50, 400) * 1000;
    const N = ctx.n(3500, 60000);
    for (let i = 0; i < N && Date.now() < end; i++) await this.one(ctx, rng, reader, calls);
    await reader.end();
  },
  async one(ctx, rng, reader, calls) {
    const { ExifDateTime, ExifTime } = ctx.lib;
    const tags = {};
    const opts = {};
    const flag = (name, dflt, p) => {
      if (rng.bool(p)) return (opts[name] = !dflt);
      if (rng.bool(0.2)) opts[name] = dflt;
      return dflt;
    };
    const preferGps = flag("preferTimezoneInferenceFromGps", false, 0.3);
    const fromDates = flag("inferTimezoneFromDatestamps", true, 0.3);
    const fromStamp = flag("inferTimezoneFromTimeStamp", false, 0.4);
    const videosUtc = flag("defaultVideosToUTC", true, 0.3);
    const backfill = flag("backfillTimezones", true, 0.3);
    const ignore00 = flag("ignoreZeroZeroLatLon", true, 0.2);
    let dateTags = CAPTURED;
    if (rng.bool(0.3)) opts.inferTimezoneFromDatestampTags = dateTags = rng.bool() ? rng.shuffle([...CAPTURED]).slice(0, rng.int(1, 5)) : rng.sample([...CAPTURED, ...OTHERS], rng.int(1, 4));
    // the base instant: all timestamps are within a day of it
    const T = W.utc(2000, 1, 1) + rng.int(0, 7.5e8) * 1000;
    const zoneText = () => {
      const off = rng.pick(W.OFFSETS);
      return rng.pick([
        () => [W.offsetText(off, { colon: rng.pick([":", ""]) }), zname(off)],
        () => ["UTC" + W.offsetText(off), zname(off)],
        () => {
          const z = rng.pick(W.ZONES);
          return [z, z];
        },
        () => ["Z", "UTC"],
      ])();
    };
    const bad = () => [rng.pick(["", "unknown", "+15:30", "+99:00", "Foo/Bar", "--", "  ", "+05:60", "null", false]), null];
    // 1. explicit offset tags
    const expl = {};
    const dense = rng.bool(0.5); // half of the reports have no explicit zone tag
    if (dense)
      for (const name of ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset"]) {
        if (!rng.bool(0.3)) continue;
        let v, z;
        if ((name === "TimeZoneOffset" || rng.bool(0.2)) && rng.bool(0.8)) {
          const off = rng.pick(W.OFFSETS.filter((x) => x % 30 === 0));
          v = off / 60;
          z = zname(off);
          if (rng.bool(0.1)) [v, z] = [rng.pick([15, 99, -13, 1.234]), null];
          if (name === "TimeZoneOffset" && rng.bool(0.4)) v = [v, rng.int(-11, 11)];
        } else [v, z] = rng.bool(0.75) ? zoneText() : bad();
        tags[name] = v;
        expl[name] = z;
      }
    if (rng.bool(0.2)) tags.OffsetTime = zoneText()[0]; // belongs to ModifyDate: not a source
    // 2. position
    let gpsInvalid = false, gpsOk = false, geoloc, geo;
    calls.mode = undefined;
    calls.args = undefined;
    if (rng.bool(0.5)) {
      const kind = rng.pick(["ok", "ok", "ok", "zero", "range"]);
      const [lat, lon] = kind === "zero" ? [0, 0] : kind === "range" ? rng.pick([[91, 10], [10, 181], [-500, 0.5]]) : [rng.float(-80, 80), rng.float(-170, 170)].map((x) => Math.round(x * 1e5) / 1e5 + 0.00001);
      tags.GPSLatitude = lat;
      tags.GPSLongitude = lon;
      gpsInvalid = kind === "range" || (kind === "zero" && ignore00);
      gpsOk = !gpsInvalid;
      if (rng.bool(0.35)) {
        const [v, z] = rng.bool(0.7) ? (() => {
          const z = rng.pick(W.ZONES);
          return [z, z];
        })() : bad();
        tags.GeolocationTimeZone = v;
        geoloc = z;
      }
      const g = rng.pick(["zone", "zone", "none", "bad", "throw"]);
      calls.mode = g === "zone" ? rng.pick([...W.ZONES, "UTC", "UTC+8"]) : g === "bad" ? "Nowhere/Land" : g === "throw" ? "throw" : undefined;
      geo = g === "zone" ? calls.mode : undefined;
    } else if (rng.bool(0.1)) tags.GeolocationTimeZone = rng.pick(W.ZONES); // without a position: not a source
    // 3. timestamps
    const local = T + rng.pick(W.OFFSETS) * 60000 + rng.pick([0, 0, 3, -5, 600, -700, 840]) * 1000;
    const stamps = {}; // name → {f, ms, zone, time}
    for (const name of [...CAPTURED, ...OTHERS]) {
      if (!rng.bool(0.25)) continue;
      const at = rng.bool(0.8) ? local : local + rng.int(-80000, 80000) * 1000;
      const f = fieldsOf(at);
      const k = rng.pick(["plain", "plain", "plain", "zoned", "utc", "bad"]);
      const time = name === "TimeCreated" && rng.bool(0.7);
      if (k === "bad") {
        tags[name] = rng.pick(["0000:00:00 00:00:00", "unknown", "2020:13:45 00:00:00", 5]);
        continue;
      }
      const off = k === "zoned" ? rng.pick(W.OFFSETS.filter((x) => x !== 0)) : 0;
      const subsec = name.startsWith("SubSec") && rng.bool(0.7) ? rng.int(0, 999) : undefined;
      const zt = k === "plain" ? "" : k === "utc" ? rng.pick(["Z", "+00:00"]) : W.offsetText(off);
      tags[name] = (time ? text(f).slice(11) : text(f)) + (subsec == null ? "" : "." + String(subsec).padStart(3, "0")) + zt;
      stamps[name] = { f, ms: subsec, zone: k === "plain" ? undefined : zname(off), time };
    }
    if (rng.bool(0.2)) {
      const f = fieldsOf(local);
      tags.History = [{ When: text(f), Action: "saved" }, { When: text(f) + "+03:00" }];
    }
    // 4. videos
    const video = rng.bool(0.3);
    if (rng.bool(0.9) || video) tags.MIMEType = video ? rng.pick(["video/mp4", "video/mp4", "video/quicktime", "video/webm", "video/3gpp", "video/x-msvideo", "video/x-matroska", "video/mpeg", "video/m2ts", "video/x-m4v", "video/ogg"]) : rng.pick(["image/jpeg", "image/heic", "audio/mpeg", "x-video/y"]);
    // 5. UTC timestamps
    const utcSrc = {};
    const utcOnly = []; // named after UTC, but not a source
    const tF = fieldsOf(T);
    const T2 = text(tF);
    const utcText = () => T2 + rng.pick(["", "", "Z", "+00:00"]);
    if (rng.bool(0.5)) {
      if (rng.bool(0.4)) {
        const other = rng.bool(0.15);
        tags.GPSDateTime = other ? T2 + "+05:00" : utcText();
        if (!other) utcSrc.GPSDateTime = T;
      }
      if (rng.bool(0.25)) {
        tags.UTCStartDateTime = T2;
        tags.GPSDateTimeX = T2;
        utcOnly.push("UTCStartDateTime", "GPSDateTimeX");
      }
      if (rng.bool(0.25)) {
        tags.DateTimeUTC = T2;
        utcSrc.DateTimeUTC = T;
      }
      if (rng.bool(0.3)) {
        tags.GPSDateStamp = T2.slice(0, 10);
        if (rng.bool(0.8)) {
          tags.GPSTimeStamp = T2.slice(11) + rng.pick(["", ".5", ".123"]);
          utcSrc.GPSDateTimeStamp = T;
        }
      }
      if (rng.bool(0.2)) {
        tags.SonyDateTime2 = T2;
        utcSrc.SonyDateTime2 = T;
      }
    }
    // 6. TimeStamp
    let stamp;
    if (rng.bool(0.4)) {
      const off = rng.pick(W.OFFSETS);
      const zoned = rng.bool(0.8);
      tags.TimeStamp = text(fieldsOf(T + off * 60000)) + (zoned ? W.offsetText(off) : "");
      if (zoned) stamp = T;
      stamps.TimeStamp = { f: fieldsOf(T + off * 60000), zone: zoned ? zname(off) : undefined };
    }
    // daylight savings
    let dst;
    if (rng.bool(0.3)) {
      tags.DaylightSavings = rng.pick(["Yes", "No", true, "Yes"]);
      tags.Make = rng.pick(["NIKON CORPORATION", "Nikon", "Canon", "FS-Nikon"]);
      if (tags.DaylightSavings !== "No" && tags.Make !== "Canon") dst = 60;
    }
    let asked;
    const custom = rng.bool(0.15);
    if (custom) {
      const minutes = rng.pick([undefined, 60, -60, 30, -120, 0]);
      opts.adjustTimeZoneIfDaylightSavings = (t, z) => {
        asked = { make: t.Make, z };
        return minutes;
      };
      dst = minutes;
    }
    // ---- the model
    const gps = () => (!gpsOk ? undefined : geoloc ? [geoloc, "GeolocationTimeZone", "geolocation"] : geo ? [geo, "GPSLatitude/GPSLongitude", "gps"] : undefined);
    const explicit = () => {
      for (const n of ["TimeZone", "OffsetTimeOriginal", "OffsetTimeDigitized", "TimeZoneOffset"]) {
        const z = expl[n];
        if (z == null) continue;
        const o = offOf(z);
        if (dst != null && o != null && W.OFFSETS.includes(o + dst)) return [zname(o + dst), n + " (adjusted for DaylightSavings)", "adjusted"];
        return [z, n, "explicit"];
      }
    };
    const dated = () => {
      if (fromDates) for (const n of dateTags) if (stamps[n]?.zone && stamps[n].zone !== "UTC") return [stamps[n].zone, n, "datestamp"];
    };
    const isUtcVideo = video && videosUtc;
    const near = (minutes) => {
      const c = W.OFFSETS.map((o) => [Math.abs(o - minutes), o]).sort((a, b) => a[0] - b[0]);
      return c[0][0] > 30 ? undefined : c[1][0] === c[0][0] ? null : c[0][1];
    };
    let unsure = false;
    const localOf = (n) => W.utc(stamps[n].f.y, stamps[n].f.m, stamps[n].f.d, stamps[n].f.h, stamps[n].f.mi, stamps[n].f.s, 0);
    const delta = () => {
      const u = ["GPSDateTime", "DateTimeUTC", "GPSDateTimeStamp", "SonyDateTime2"].find((n) => utcSrc[n] != null);
      const c = CAPTURED.find((n) => stamps[n] && !stamps[n].zone && !stamps[n].time);
      if (!u || !c) return;
      const o = near((localOf(c) - utcSrc[u]) / 60000);
      if (o === null) unsure = true;
      return o == null ? undefined : [zname(o), `offset between ${c} and ${u}`, "utc-delta"];
    };
    const stamped = () => {
      if (!fromStamp || stamp == null) return;
      for (const n of dateTags) {
        const s = stamps[n];
        if (!s || s.time) continue;
        if (s.zone) return [s.zone, n, "timestamp"];
        const o = near(Math.floor((localOf(n) - stamp) / 60000));
        if (o === null) unsure = true;
        if (o != null) return [zname(o), `offset between ${n} and TimeStamp`, "timestamp"];
      }
    };
    const want = (preferGps ? gps() : undefined) ?? explicit() ?? gps() ?? dated() ?? (isUtcVideo ? ["UTC", "defaultVideosToUTC", "video"] : undefined) ?? delta() ?? stamped();
    if (unsure) return;
    const tz = want?.[0];
    // wall clocks the inferred zone skips are out of scope
    if (tz && offOf(tz) == null && !isUtcVideo) for (const n in stamps) if (!stamps[n].zone && W.instants(tz, localOf(n)).length === 0) return;
    // ---- the read
    const grouped = rng.bool(0.2);
    let report = tags;
    if (grouped) {
      opts.readArgs = ["-fast", "-G"];
      report = Object.fromEntries(Object.entries(tags).map(([k, v]) => [(/^(GPS|SubSec)/.test(k) ? "Composite:" : /MIMEType|^File/.test(k) ? "File:" : "EXIF:") + k, v]));
    }
    const snapshot = JSON.stringify(opts);
    const adjust = opts.adjustTimeZoneIfDaylightSavings;
    const r = await reader.read(report, rng.bool(0.9) || Object.keys(opts).length ? opts : undefined);
    const det = (x) => ({ tags, opts, grouped, geoTz: calls.mode, want, host: process.env.TZ, got: r.value && { tz: r.value.tz, zone: r.value.zone, tzSource: r.value.tzSource }, err: r.reason && String(r.reason), ...x });
    ctx.saw(JSON.stringify([tags, opts, custom && String(dst), calls.mode, grouped]), det());
    if (!ctx.check(r.status === "fulfilled", "fulfilled", "read", det)) return;
    const t = r.value;
    const get = (n) => t[n] ?? t[["EXIF:", "Composite:", "File:"].map((g) => g + n).find((k) => k in t)];
    ctx.count("source:" + (want?.[2] ?? "none"));
    ctx.check((t.zone ?? undefined) === tz && (t.tz ?? undefined) === tz, "zone", want?.[2] ?? "none", det);
    ctx.check((t.tzSource ?? undefined) === want?.[1], "source", want?.[2] ?? "none", det);
    if (asked) ctx.check(asked.make === tags.Make && (want?.[2] !== "explicit" || asked.z === want[0]), "adjust-args", "args", () => det({ asked }));
    ctx.check(JSON.stringify(opts) === snapshot && opts.adjustTimeZoneIfDaylightSavings === adjust, "options-untouched", "opts", det);
    if (gpsOk && calls.args) ctx.check(Math.abs(calls.args[0] - tags.GPSLatitude) < 1e-6 && Math.abs(calls.args[1] - tags.GPSLongitude) < 1e-6, "geotz-args", "args", det);
    const sameFields = (x, s) => x.hour === s.f.h && x.minute === s.f.mi && x.second === s.f.s && (s.time || (x.year === s.f.y && x.month === s.f.m && x.day === s.f.d)) && x.millisecond === s.ms;
    for (const n in stamps) {
      const s = stamps[n];
      const x = get(n);
      const d2 = () => det({ tag: n, raw: tags[n], value: show(x) });
      if (!ctx.check(x instanceof (s.time ? ExifTime : ExifDateTime), "typed", n, d2)) continue;
      if (s.zone) ctx.check(x.zone === s.zone && sameFields(x, s) && !x.inferredZone && (s.time || x.tzoffsetMinutes === offOf(s.zone)), "stated-zone", isUtcVideo ? "video" : "image", d2);
      else if (isUtcVideo) {
        const at = localOf(n) + (s.ms ?? 0);
        if (s.time) continue;
        ctx.check(x.toMillis() === at && x.zone === (backfill ? tz : "UTC") && x.millisecond === s.ms && x.inferredZone === true, "video", backfill ? "backfill" : "no backfill", d2);
      } else if (backfill && tz) ctx.check(x.zone === tz && sameFields(x, s) && x.inferredZone === true && (s.time || offOf(tz) == null || x.tzoffsetMinutes === offOf(tz)), "backfilled", "zone", d2);
      else ctx.check(x.zone == null && sameFields(x, s) && !x.inferredZone && !x.hasZone, "not-backfilled", backfill ? "no zone" : "off", d2);
      if (!s.time) ctx.check(x.rawValue === tags[n], "raw", "text", d2);
    }
    for (const n of ["GPSDateTime", "DateTimeUTC", ...utcOnly]) {
      if (utcSrc[n] == null && !utcOnly.includes(n)) continue;
      const x = get(n);
      if (gpsInvalid && n.startsWith("GPS")) {
        ctx.check(x == null, "utc-tag", "dropped", () => det({ tag: n, value: show(x) }));
        continue;
      }
      ctx.check(x instanceof ExifDateTime && x.zone === "UTC" && x.toMillis() === T && x.hour === tF.h && x.day === tF.d, "utc-tag", n, () => det({ tag: n, value: show(x) }));
    }
    const hist = get("History");
    if (hist) ctx.check(hist.length === 2 && hist[0].Action === "saved" && hist[1].When?.zone === "UTC+3" && (isUtcVideo ? hist[0].When?.zone === (backfill ? tz : "UTC") : (hist[0].When?.zone ?? undefined) === (backfill ? tz : undefined)), "nested", "History", () => det({ hist }));
  },
};
