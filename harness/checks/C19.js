"use strict";
// C19: read()/readRaw() results compared, key by key, with the report the child emitted
// (a stand-in's generated reports; and the real ExifTool's own report of generated files).
const path = require("node:path");
const fs = require("node:fs");
const { settle, pool } = require("../lib/ctx.js");
const { FakeReader } = require("../lib/reader.js");
const { RawExif } = require("../lib/rawexif.js");
const G = require("../lib/gen.js");
const J = require("../lib/jpeg.js");
const { p2 } = require("../lib/when.js");

const NULLISH = ["undef", "null", "undefined"];
const nullish = (v) => v == null || (typeof v === "string" && NULLISH.includes(v.trim()));
const DATEY = /when|date|time|subsec|creat|modif/i;
const DERIVED = new Set(["SourceFile", "zone", "tz", "tzSource", "errors", "warnings", "invalidUtf8Bytes"]);
const POSITION = new Set(["GPSLatitude", "GPSLatitudeRef", "GPSLongitude", "GPSLongitudeRef", "GPSPosition", "GeolocationPosition"]);
const YES = ["true", "yes", "1", "on"], NO = ["false", "no", "0", "off"];

/** undefined if got is a faithful rendition of the reported value, else what's wrong */
function differs(lib, name, want, got, o) {
  // (nested null-like texts of passed-through tags are kept)
  if (nullish(want)) return got == null || got === want ? undefined : "a null-like value became something";
  if (Array.isArray(want)) {
    if (!Array.isArray(got)) return "a list is not a list";
    if (got.length !== want.length) return "a list has another length";
    for (let i = 0; i < want.length; i++) {
      const d = differs(lib, name, want[i], got[i], o);
      if (d) return `[${i}] ` + d;
    }
    return;
  }
  if (typeof want === "object") {
    if (got === null || typeof got !== "object" || Array.isArray(got)) return "a structure is not a structure";
    const proto = Object.getPrototypeOf(got);
    if (proto !== null && proto !== Object.prototype) return "a structure has an unexpected prototype";
    for (const k of Object.keys(want)) {
      if (!Object.hasOwn(got, k)) {
        if (nullish(want[k])) continue;
        return `field ${k} is missing`;
      }
      const d = differs(lib, name + "." + k, want[k], got[k], o);
      if (d) return `.${k} ` + d;
    }
    for (const k of Object.keys(got)) if (!Object.hasOwn(want, k)) return `field ${k} was invented`;
    return;
  }
  if (Object.is(got, want)) return;
  if (typeof want !== "string") return "a value was altered";
  if (typeof got === "boolean") {
    const t = want.trim().toLowerCase();
    if (!/Valid$/.test(name)) return "text became a boolean";
    return (got ? YES : NO).includes(t) ? undefined : "text became the wrong boolean";
  }
  if (got instanceof lib.BinaryField) {
    const m = /(\d+) bytes/i.exec(want);
    if (!/^\s*\(?binary( data)? \d+ bytes(, use -b option to extract)?\)?\s*$/i.test(want) || !m) return "text became a binary field";
    if (got.bytes !== Number(m[1])) return "a binary field has the wrong size";
    return got.rawValue === want ? undefined : "a binary field lost its original text";
  }
  const typed = got instanceof lib.ExifDateTime || got instanceof lib.ExifDate || got instanceof lib.ExifTime;
  if (!typed) return "a text was altered";
  if (!/when|date|time|subsec/i.test(name)) return "text of a tag that isn't named for dates became a date or time";
  if ((want.match(/\d/g) ?? []).length < 1) return "text without a date or time became one";
  if (String(got.rawValue).trim() !== want.trim()) return "a typed value lost its original text";
}

function version(rng) {
  return rng.pick(["12.3", "12.30", "13.00", "13.5", "13.50", "13.59", "9", "10", "10.10"]);
}
const NAMES = ["Make", "Model", "Title", "Description", "Keywords", "Subject", "Artist", "Copyright", "LensID", "ISO", "Sharpness", "Firmware", "RegionInfo", "HierarchicalSubject", "IsValid", "HistogramValid", "CRCValid", "Thumbnail", "PreviewImage", "MIMEType", "FileType", "Rating", "Orientation", "Duration", "Comment", "Notes", "City"];
const DATE_NAMES = ["DateTimeOriginal", "CreateDate", "ModifyDate", "SubSecDateTimeOriginal", "DateCreated", "TimeCreated", "DigitalCreationTime", "FileModifyDate", "MediaCreateDate", "WhenMade", "ExposureTime", "SubSecTime", "SubSecTimeOriginal", "ReleaseDate", "DateStampMode", "DateDisplayFormat", "TimeZone", "OffsetTime", "OffsetTimeOriginal", "TimeZoneOffset", "CreationTime", "SelfTimer", "FileCreateDate", "SonyDateTime", "GPSDateStamp", "GPSTimeStamp", "GPSDateTime", "Creator", "ModificationPermissions", "DaylightSavings", "LastKeywordXMP", "UTCTime", "TimeStamp"];
const GPS_NAMES = ["GPSImgDirection", "GPSDOP", "GPSMapDatum", "GPSVersionID", "GPSSpeed", "GPSProcessingMethod", "GPSAltitude", "GPSAltitudeRef", "GeolocationCity", "GeolocationTimeZone", "GPSValid"];
const ODD_NAMES = ["constructor", "toString", "hasOwnProperty", "valueOf", "__proto__", "length", "0", "", "a b", "Ключ", "then", "toJSON", "_ctor", "prototype", "x-y", "x.y", "isPrototypeOf"];

function dateText(rng) {
  const y = rng.int(1900, 2100), mo = rng.int(1, 12), d = rng.int(1, 28), h = rng.int(0, 23), mi = rng.int(0, 59), s = rng.int(0, 59);
  return rng.pick([
    `${y}:${p2(mo)}:${p2(d)} ${p2(h)}:${p2(mi)}:${p2(s)}`,
    `${y}:${p2(mo)}:${p2(d)} ${p2(h)}:${p2(mi)}:${p2(s)}.${rng.int(0, 999999)}`,
    `${y}:${p2(mo)}:${p2(d)} ${p2(h)}:${p2(mi)}:${p2(s)}${rng.pick(["Z", "+05:30", "-07:00", "+14:00", "-13:00", " PST", "+99:99", "+3"])}`,
    `${y}-${p2(mo)}-${p2(d)}T${p2(h)}:${p2(mi)}:${p2(s)}`,
    `${y}:${p2(mo)}:${p2(d)}`,
    `${y}:${p2(mo)}`,
    `${y}`,
    `${p2(h)}:${p2(mi)}:${p2(s)}`,
    `${p2(h)}:${p2(mi)}`,
    `${y}:${p2(rng.int(0, 20))}:${p2(rng.int(0, 40))} ${p2(rng.int(0, 30))}:${p2(rng.int(0, 70))}:${p2(rng.int(0, 70))}`,
    "0000:00:00 00:00:00", "0000:00:00", "00", "0", "    :  :     :  :  ", "1/250", "0.5 s", "Off", "2020:02:30", "Unknown (5)", ` ${y}:${p2(mo)}:${p2(d)} `, `Mon Jan ${p2(d)} ${p2(h)}:${p2(mi)}:${p2(s)} ${y}`, "3 weeks ago", "Jan 2020", `${p2(d)}/${p2(mo)}/${y}`, "12:", ":30", "2020:", "9999:99:99 99:99:99", "None", "n/a",
  ]);
}
function scalar(rng, name) {
  return rng.weighted([
    [4, () => (DATEY.test(name) ? dateText(rng) : G.text(rng, { max: 3 }))],
    [2, () => G.text(rng, { max: 4 })],
    [1, () => dateText(rng)],
    [2, () => rng.pick([0, 1, -1, 0.5, 1e21, 1e-7, 2020, 20200101, 123456789012345, -0.0001, 1.5e300, 65535])],
    [1, () => rng.bool()],
    [1, () => rng.pick([null, "undef", " undef ", "null", "undefined", "NULL", "undef ined"])],
    [1, () => rng.pick(["(Binary data 5 bytes, use -b option to extract)", "(Binary data 123456 bytes, use -b option to extract)", "(Binary data 1234567890 bytes, use -b option to extract)", "Binary 7 bytes", "(binary data 12 bytes)", "(Binary data x bytes, use -b option to extract)", "(Binary data 5 bytes, use -b option to extract) ", "(Binary data 5 bytes, use -b option to extract) of mine", "Binary 7 bytes of text", "see (Binary data 5 bytes)", "(Binary data 5 bytes, use the other option)", "Binary data 5 bytes.txt", "base64:AAAA"])],
    [1, () => rng.pick(["true", "false", "Yes", "No", "1", "0", "on", "Off", " yes ", "y", "2"])],
    [1, () => ""],
  ])();
}
function value(rng, name, depth = 0) {
  if (depth < 4 && rng.bool(0.12)) return rng.times(rng.int(0, 4), () => value(rng, name, depth + 1));
  if (depth < 4 && rng.bool(0.12)) {
    const o = {};
    for (let i = rng.int(0, 4); i > 0; i--) {
      const k = rng.weighted([[4, () => rng.pick(NAMES)], [3, () => rng.pick(DATE_NAMES)], [2, () => rng.pick(ODD_NAMES)], [1, () => G.text(rng, { max: 2 })]])();
      Object.defineProperty(o, k, { value: value(rng, name + "." + k, depth + 1), enumerable: true, configurable: true, writable: true });
    }
    return o;
  }
  return scalar(rng, name);
}
/** the report as JSON text in ExifTool's manner; the version is an unquoted number */
function render(report, ver, file, group, style) {
  const parts = [`"SourceFile": ${JSON.stringify(file)}`];
  for (const [k, v] of Object.entries(report)) parts.push(`${JSON.stringify(k)}: ${JSON.stringify(v)}`);
  const v = `"${group}ExifToolVersion"${style === 2 ? " : " : style ? ":" : ": "}${ver}`;
  parts.splice(style === 3 ? parts.length : 1, 0, v);
  return style === 1 ? `[{${parts.join(",")}}]` : `[{\n  ${parts.join(",\n  ")}\n}]\n`;
}

module.exports = {
  technique: "online monitor of read() and readRaw(): key-by-key comparison with the report the child emitted (generated hostile reports from a stand-in; the real ExifTool's own report of generated files)",
  level: "exploration",
  rule: "one read of one report; distinct by report and options",
  assumptions: [
    'Null-like values are JSON null and the texts "undef", "null" and "undefined".',
    "ExifTool's tag names don't collide with the lower-case names of the documented derived tags.",
    "The values of GPS position tags are judged by C08, and instants and zones of dates by C10-C13; this check judges their original text.",
  ],
  shards: (tier) => [...Array.from({ length: tier === "quick" ? 5 : 7 }, (_, k) => ({ name: "fake", k, env: { TZ: ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Europe/London"][k % 5] } })), { name: "real", env: { TZ: "Asia/Kolkata" } }],
  minimums: () => ({ evaluations: 2000, "oracle:kept": 10000, "oracle:no-throw": 2000, "oracle:raw-kept": 2000, "oracle:version": 800, "oracle:nothing-invented": 1500, "oracle:typed": 2000, "oracle:gps-dropped": 50, "oracle:real-kept": 800 }),
  async run(ctx) {
    await (ctx.shard.name === "real" ? real(ctx) : fake(ctx));
  },
};

async function fake(ctx) {
  const { rng, lib } = ctx;
  for (let inst = 0; inst < ctx.n(8, 40); inst++) {
    const iopts = inst === 0 ? {} : { ...(rng.bool(0.5) ? { backfillTimezones: rng.bool() } : {}), ...(rng.bool(0.3) ? { defaultVideosToUTC: rng.bool() } : {}), ...(rng.bool(0.3) ? { inferTimezoneFromTimeStamp: true } : {}), ...(rng.bool(0.3) ? { ignoreZeroZeroLatLon: rng.bool() } : {}), ...(rng.bool(0.3) ? { struct: rng.pick([0, 1, 2, "undef"]) } : {}) };
    const r = new FakeReader(lib, iopts, 3);
    try {
      await pool(rng.times(ctx.n(300, 1000), (i) => i), 6, () => one(ctx, r, iopts));
    } finally {
      await r.end();
    }
  }
}

async function one(ctx, reader, iopts) {
  const { rng, lib } = ctx;
  const grouped = rng.bool(0.3) ? rng.pick([["-G"], ["-fast", "-G"], ["-G1"], ["-G", "-a"]]) : undefined;
  const bare = (k) => (grouped?.includes("-G") ? (k.split(":")[1] ?? k) : k);
  const report = {};
  const group = () => (grouped ? rng.pick(["EXIF:", "XMP:", "IPTC:", "File:", "MakerNotes:", "Composite:", "QuickTime:"]) : "");
  for (let i = rng.int(1, 14); i > 0; i--) {
    const n = rng.weighted([[5, () => rng.pick(NAMES)], [6, () => rng.pick(DATE_NAMES)], [2, () => rng.pick(GPS_NAMES)], [1, () => rng.pick(ODD_NAMES)], [1, () => G.text(rng, { max: 2 }).replace(/:/g, "")]])();
    if (n === "__proto__" && !grouped) continue; // ExifTool prefixes such top-level names
    const k = group() + n;
    if (DERIVED.has(n) || n === "ExifToolVersion") continue;
    report[k] = value(rng, n);
  }
  const std = [];
  const into = (n, text, is) => {
    const k = group() + n;
    report[k] = text;
    std.push([k, text, is]);
  };
  const [Y, M, D, h, m, s] = [rng.int(1800, 2100), rng.int(1, 12), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59)];
  const isDate = (v) => v.year === Y && v.month === M && v.day === D;
  const isTime = (v) => v.hour === h && v.minute === m && v.second === s;
  if (rng.bool(0.5)) {
    const z = rng.pick(["", "", "Z", "+05:30", "-08:00"]);
    into(rng.pick(["DateTimeOriginal", "CreateDate", "MediaCreateDate", "FileModifyDate", "SubSecDateTimeOriginal", "When"]), `${Y}:${p2(M)}:${p2(D)} ${p2(h)}:${p2(m)}:${p2(s)}${z}`, (v, video) => v instanceof lib.ExifDateTime && (video || (isDate(v) && isTime(v))));
  }
  if (rng.bool(0.2)) into(rng.pick(["DateCreated", "ReleaseDate", "DigitalCreationDate", "When", "HistoryWhen"]), `${Y}:${p2(M)}:${p2(D)}`, (v) => v instanceof lib.ExifDate && isDate(v));
  if (rng.bool(0.2)) into(rng.pick(["TimeCreated", "DigitalCreationTime"]), `${p2(h)}:${p2(m)}:${p2(s)}`, (v) => v instanceof lib.ExifTime && isTime(v));
  const big = rng.pick([1, 1, 1000, 98765]) * (h * 1000 + m); // up to 10 digits
  if (rng.bool(0.2)) into(rng.pick(["ThumbnailImage", "PreviewImage", "ICC_Profile", "DateBlob"]), `(Binary data ${big} bytes, use -b option to extract)`, (v) => v instanceof lib.BinaryField && v.bytes === big);
  if (rng.bool(0.2)) into(rng.pick(["JpgFromRawValid", "DataValid"]), m % 2 ? "Yes" : "No", (v) => v === (m % 2 === 1));
  if (rng.bool(0.15)) report[group() + "MIMEType"] = rng.pick(["video/mp4", "video/quicktime", "image/jpeg", 7, ["video/x"]]);
  const gps = rng.weighted([[5, "none"], [3, "valid"], [3, "invalid"], [1, "odd"]]);
  if (gps !== "none" && !(grouped && !grouped.includes("-G"))) {
    const g = grouped ? "EXIF:" : "";
    const [lat, lon] = gps === "valid" ? [rng.float(1, 89), rng.float(1, 179)] : gps === "invalid" ? rng.pick([[95, 10], [10, 200], [-100.5, 500], [1000, 1000]]) : [value(rng, "GPSLatitude"), value(rng, "GPSLongitude")];
    report[g + "GPSLatitude"] = lat;
    report[g + "GPSLongitude"] = lon;
    for (const k of Object.keys(report)) if (k !== g + "GPSLatitude" && k !== g + "GPSLongitude" && POSITION.has(bare(k))) delete report[k];
    // the same position in other groups
    if (gps === "valid" && rng.bool()) {
      report[g + "GPSLatitudeRef"] = rng.pick(["N", "North"]);
      report[g + "GPSLongitudeRef"] = rng.pick(["E", "East"]);
      if (grouped) {
        for (const h of rng.sample(["Composite:", "XMP:", "QuickTime:"], rng.int(1, 2))) {
          report[h + "GPSLatitude"] = lat;
          report[h + "GPSLongitude"] = lon;
          if (rng.bool()) report[h + "GPSPosition"] = `${lat} ${lon}`;
        }
      } else if (rng.bool()) report.GPSPosition = `${lat} ${lon}`;
    }
  }
  // without a judged position, tags that may affect trust in GPS aren't judged
  const ver = version(rng);
  const verKey = (grouped ? "ExifTool:" : "") + "ExifToolVersion";
  const style = rng.int(0, 3);
  const opts = grouped || rng.bool(0.3) ? { ...(grouped ? { readArgs: grouped } : {}), ...(rng.bool(0.2) ? { backfillTimezones: rng.bool() } : {}) } : undefined;
  const extra = { text: (f) => render(report, ver, f, grouped ? "ExifTool:" : "", style) };
  const text = extra.text("F");
  ctx.saw(JSON.stringify([text, opts ?? null, iopts]), { report: text.slice(0, 300), opts });
  // ---- raw
  const raw = await reader.readRaw({}, opts?.readArgs ? { readArgs: opts.readArgs } : undefined, extra);
  if (ctx.check(raw.status === "fulfilled", "no-throw", "readRaw", () => ({ text, reason: String(raw.reason?.stack ?? raw.reason) }))) {
    const want = JSON.parse(extra.text(raw.file))[0];
    for (const k of Object.keys(want)) {
      if (DERIVED.has(k) && k !== "SourceFile") continue;
      const ok = Object.hasOwn(raw.value, k) && exact(raw.value[k], want[k]);
      ctx.check(ok, "raw-kept", bare(k), () => ({ k, want: want[k], got: raw.value[k], text }));
    }
    for (const k of Object.keys(raw.value)) ctx.check(Object.hasOwn(want, k) || DERIVED.has(k), "raw-nothing-invented", k, () => ({ k, got: raw.value[k], text }));
  }
  // ---- parsed
  const r = await reader.read({}, opts, extra);
  if (!ctx.check(r.status === "fulfilled", "no-throw", "read", () => ({ text, opts, reason: String(r.reason?.stack ?? r.reason) }))) return;
  const want = JSON.parse(extra.text(r.file))[0];
  judge(ctx, { want, got: r.value, bare, gps, kind: "kept", d: { text, opts, iopts } });
  ctx.check(r.value[verKey] === ver, "version", `${ver} ${verKey} style ${style}`, () => ({ got: r.value[verKey], ver, opts, style }));
  ctx.check(r.value.SourceFile === r.file, "source-file", "", () => ({ got: r.value.SourceFile }));
  // ---- standard texts in tags named for them are typed, with those fields
  const video = /video/.test(JSON.stringify(Object.keys(report).filter((x) => bare(x) === "MIMEType").map((x) => report[x])));
  // (only where "-G" or no groups were requested are names known to the library)
  for (const [k, text, is] of std) {
    if (report[k] !== text) continue;
    ctx.check(is(r.value[k], video), "typed", bare(k), () => ({ k, text, got: r.value[k], opts, iopts }));
  }
}

function judge(ctx, { want, got, bare, gps, kind, d }) {
  const { lib } = ctx;
  for (const k of Object.keys(want)) {
    if (DERIVED.has(k) || bare(k) === "ExifToolVersion" || k === "ExifTool:ExifToolVersion") continue;
    const name = bare(k);
    if (/^(GPS|Geolocation)/.test(name)) {
      if (gps === "odd") continue;
      if (gps === "valid" && POSITION.has(name)) {
        const v = got[k];
        const ok = typeof want[k] === "number" ? typeof v === "number" && Math.abs(v - want[k]) < 1e-5 : /Ref$/.test(name) ? v === want[k] || v === want[k][0] : v === want[k];
        ctx.check(ok, "position-kept", name, () => ({ k, want: want[k], got: v, ...d }));
        continue;
      }
      if (POSITION.has(name)) continue;
      if (gps === "invalid") {
        ctx.check(!Object.hasOwn(got, k) || got[k] == null, "gps-dropped", name, () => ({ k, want: want[k], got: got[k], ...d }));
        continue;
      }
    }
    if (nullish(want[k])) {
      ctx.check(got[k] == null || !Object.hasOwn(got, k), "null-dropped", name, () => ({ k, want: want[k], got: got[k], ...d }));
      continue;
    }
    const diff = Object.hasOwn(got, k) ? differs(lib, name, want[k], got[k]) : "missing";
    ctx.check(!diff, kind, `${name}: ${diff}`, () => ({ k, diff, want: want[k], got: got[k], ...d }));
  }
  const hasGps = Object.keys(want).some((k) => /^(GPS|Geolocation)/.test(bare(k)));
  for (const k of Object.keys(got)) {
    ctx.check(Object.hasOwn(want, k) || DERIVED.has(k) || (hasGps && POSITION.has(k)), "nothing-invented", k, () => ({ k, got: got[k], ...d }));
  }
}
function exact(a, b) {
  if (Object.is(a, b)) return true;
  if (a === null || b === null || typeof a !== "object" || typeof b !== "object" || Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && kb.every((k) => Object.hasOwn(a, k) && exact(a[k], b[k]));
}

// ---------------------------------------------------------------- the real thing
const XML = (s) => s.replace(/[&<>"']/g, (c) => `&#${c.charCodeAt(0)};`);
function xmp(rng) {
  const txt = () => XML(G.text(rng, { max: 3, ok: (s) => !G.isXmlCtl(s) && !/\r/.test(s) && s.length < 300 }));
  const fields = () => rng.sample(["constructor", "__proto__", "valid", "when", "eventDate", "nested", "toString", "title", "hasOwnProperty"], rng.int(1, 5)).map((k) => `<my:${k}>${/when|Date/.test(k) ? XML(dateText(rng)) : txt()}</my:${k}>`).join("");
  return `<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description rdf:about='' xmlns:dc='http://purl.org/dc/elements/1.1/' xmlns:xmp='http://ns.adobe.com/xap/1.0/' xmlns:my='http://example.com/my/' xmlns:photoshop='http://ns.adobe.com/photoshop/1.0/'>
<dc:subject><rdf:Bag>${rng.times(rng.int(1, 4), () => `<rdf:li>${txt()}</rdf:li>`).join("")}</rdf:Bag></dc:subject>
<dc:title><rdf:Alt><rdf:li xml:lang='x-default'>${txt()}</rdf:li><rdf:li xml:lang='fr'>${txt()}</rdf:li></rdf:Alt></dc:title>
<xmp:CreateDate>${XML(dateText(rng))}</xmp:CreateDate><xmp:Rating>${rng.int(0, 5)}</xmp:Rating><xmp:MetadataDate>${XML(dateText(rng))}</xmp:MetadataDate>
<photoshop:DateCreated>${XML(dateText(rng))}</photoshop:DateCreated>
<my:Things rdf:parseType='Resource'>${fields()}</my:Things>
<my:Many><rdf:Seq>${rng.times(2, () => `<rdf:li rdf:parseType='Resource'>${fields()}</rdf:li>`).join("")}</rdf:Seq></my:Many>
<my:constructor>${txt()}</my:constructor><my:FrameValid>${rng.pick(["true", "False", "maybe", "1"])}</my:FrameValid><my:__proto__>${txt()}</my:__proto__><my:Empty></my:Empty><my:Undef>${rng.pick(["undef", "null", "undefined", "undefinedx"])}</my:Undef><my:Long>${rng.pick(["12345678901234567890", "0.1000", "007", "1e5", "+5", "1_000", "0x10", "-0", "1.50"])}</my:Long>
</rdf:Description></rdf:RDF></x:xmpmeta>`;
}
async function real(ctx) {
  const { rng, lib } = ctx;
  const dir = ctx.tmpdir("c19");
  const raw = new RawExif();
  const et = new lib.ExifTool({ maxProcs: 2, taskTimeoutMillis: 60000 });
  try {
    for (let i = 0; i < ctx.n(18, 150); i++) {
      const f = path.join(dir, `f${i}.jpg`);
      const exif = { 0x9003: J.ascii(dateText(rng)), 0x9004: J.ascii(dateText(rng)), 0x9291: J.ascii(rng.pick(["12", "000", "5", "abc"])), 0x9011: J.ascii(rng.pick(["+05:00", "-07:00", "nonsense", "Z"])) };
      const ifd0 = { 0x10f: J.ascii(G.text(rng, { max: 2, ok: (s) => /^[\x20-\x7e]+$/.test(s) })), 0x132: J.ascii(dateText(rng)) };
      fs.writeFileSync(f, J.jpeg({ seed: i, segments: [J.exifSegment(J.tiff({ ifd0, exif })), J.xmpSegment(xmp(rng))] }));
      const struct = rng.pick([0, 1, 2]);
      const readArgs = rng.pick([["-fast"], ["-fast", "-G"], [], ["-G"], ["-fast2", "-a", "-G1"]]);
      const opts = { struct, readArgs, useMWG: true };
      const ref = (await raw.run(["-json", ...readArgs, "-api", "struct=" + struct, "-use", "MWG", ...(lib.DefaultExifToolOptions.keepUTCTime ? ["-api", "keepUTCTime"] : []), ...lib.DefaultExifToolOptions.numericTags.map((t) => `-${t}#`), "-all", f])).out;
      const want = JSON.parse(ref)[0];
      const bare = (k) => (readArgs.includes("-G") ? (k.split(":")[1] ?? k) : k);
      for (const k of Object.keys(want)) if (/File(Access|Modify|InodeChange|Create)Date/.test(k)) delete want[k];
      ctx.saw(JSON.stringify([struct, readArgs, ref.length, i]), { struct, readArgs, tags: Object.keys(want).length });
      const r = await settle(et.read(f, opts));
      if (!ctx.check(r.status === "fulfilled", "no-throw", "real read", () => ({ ref, reason: String(r.reason?.stack ?? r.reason) }))) continue;
      for (const k of Object.keys(r.value)) if (/File(Access|Modify|InodeChange|Create)Date/.test(k)) delete r.value[k];
      judge(ctx, { want, got: r.value, bare, gps: "none", kind: "real-kept", d: { opts } });
      const rr = await settle(et.readRaw(f, { readArgs: [...readArgs, "-struct"] }));
      if (!ctx.check(rr.status === "fulfilled", "no-throw", "real readRaw", () => ({ reason: String(rr.reason) }))) continue;
      const ref2 = JSON.parse((await raw.run(["-json", ...readArgs, "-struct", "-use", "MWG", f])).out)[0];
      for (const k of Object.keys(ref2)) if (!/File(Access|Modify|InodeChange|Create)Date/.test(k)) ctx.check(Object.hasOwn(rr.value, k) && exact(rr.value[k], ref2[k]), "raw-kept", "real " + k, () => ({ k, want: ref2[k], got: rr.value[k] }));
      for (const k of Object.keys(rr.value)) ctx.check(Object.hasOwn(ref2, k) || DERIVED.has(k), "raw-nothing-invented", k, () => ({ k, got: rr.value[k] }));
    }
  } finally {
    raw.end();
    await settle(et.end(), 30000);
  }
}
