"use strict";
// C05: write → read through the library, against real ExifTool and real files,
// with an independent ExifTool session observing all other tags.
const fs = require("node:fs");
const path = require("node:path");
const { settle } = require("../lib/ctx.js");
const { RawExif } = require("../lib/rawexif.js");
const { jpeg, tiff } = require("../lib/jpeg.js");
const { DateTime } = require((process.env.VERIF_REPO || "/repo") + "/node_modules/luxon");
const gen = require("../lib/gen.js");
const { unescapeHtml } = require("../lib/argv.js");

const BINPH = /^\(Binary data \d+ bytes/;
const okText = (s) => !gen.isXmlCtl(unescapeHtml(s)) && !/\u001f/.test(unescapeHtml(s)) && !BINPH.test(s) && !/^\s*(undef|null|undefined)\s*$/.test(unescapeHtml(s)) && !/[\ud800-\udfff]/.test(unescapeHtml(s).replace(/[\ud800-\udbff][\udc00-\udfff]/g, ""));
const utext = (rng, o = {}) => gen.text(rng, { max: 4, ok: okText, ...o });

/** ExifTool's JSON shows number-like and boolean-like text without quotes */
function sameText(want, got) {
  if (typeof got === "string") return got === want;
  if (typeof got === "number") return want.trim() !== "" && Number(want) === got;
  if (typeof got === "boolean") return want.toLowerCase().replace(/\n$/, "") === String(got);
  return false;
}
/** XMP keeps numbers as text: every digit survives */
const real = (rng) => rng.pick([0, 1, -1, 0.5, 0.1, 0.25, 1e-5, 123456.789, 0.12345678, 1.25e-7, -3.5e-12, 1e21, 2 ** 53, Math.PI, 0.1 + 0.2, rng.int(-50, 5000), Math.round(rng.float(-1000, 1000) * 1e5) / 1e5, rng.float(-1, 1), rng.float(-1e6, 1e6)]);

function sameNumber(want, got) {
  // (ExifTool's JSON shows numbers of many digits as text)
  return got === want || (typeof got === "string" && got === String(want));
}
// ---- value kinds: {value, same(got) }
const T = (rng, o) => {
  const v = utext(rng, o);
  return { value: v, same: (g) => sameText(unescapeHtml(v), g), class: "text" };
};
const kinds = {
  text: T,
  exifText(rng) {
    const v = utext(rng, { ok: (s) => okText(s) && unescapeHtml(s).trim() !== "" && !/^[\ufeff\ufffe]|[\s\u0000]$/.test(unescapeHtml(s)) });
    return { value: v, same: (g) => sameText(unescapeHtml(v), g), class: "text" };
  },
  int: (rng, lo = -5000, hi = 5000) => {
    const v = rng.int(lo, hi);
    return { value: v, same: (g) => g === v, class: "number" };
  },
  real(rng) {
    const v = real(rng);
    return { value: v, same: (g) => sameNumber(v, g), class: "number" };
  },
  bool(rng) {
    const v = rng.bool();
    return { value: v, same: (g) => g === v, class: "boolean" };
  },
  list(rng) {
    const n = rng.weighted([[1, 1], [3, 2], [3, 3], [1, 6]]);
    const items = rng.times(n, () => (rng.bool(0.15) ? rng.int(0, 99) : rng.bool(0.06) ? rng.bool() : utext(rng)));
    // a list of one item is reported like a single value by ExifTool without -struct lists
    const want = items.map((x) => (typeof x === "number" ? String(x) : typeof x === "boolean" ? (x ? "True" : "False") : unescapeHtml(x)));
    return { value: items, same: (g) => { const a = Array.isArray(g) ? g : [g]; return a.length === n && want.every((w, i) => sameText(w, a[i])); }, class: "list" };
  },
  numberList(rng) {
    const items = rng.times(rng.int(1, 4), () => rng.int(0, 1000));
    return { value: items, same: (g) => { const a = Array.isArray(g) ? g : [g]; return a.length === items.length && items.every((w, i) => a[i] === w); }, class: "list" };
  },
};
// nested values: build value and expectation together
const S = {
  t: (rng) => { const v = utext(rng); return [v, (g) => sameText(unescapeHtml(v), g)]; },
  n: (rng) => { const v = real(rng); return [v, (g) => sameNumber(v, g)]; },
  tl: (rng) => { const v = rng.times(rng.int(1, 3), () => utext(rng)); return [v, (g) => { const a = Array.isArray(g) ? g : [g]; return a.length === v.length && v.every((x, i) => sameText(unescapeHtml(x), a[i])); }]; },
  unit: (rng) => { const v = rng.pick(["pixel", "inch", "normalized"]); return [v, (g) => g === v]; },
  regionType: (rng) => { const v = rng.pick(["Face", "Pet", "Focus", "BarCode"]); return [v, (g) => g === v]; },
};
function struct(fields, { atLeast = 1 } = {}) {
  return (rng) => {
    const names = Object.keys(fields);
    const chosen = rng.sample(names, rng.int(Math.min(atLeast, names.length), names.length));
    const value = {};
    const tests = {};
    for (const k of chosen) {
      const [v, t] = fields[k](rng);
      value[k] = v;
      tests[k] = t;
    }
    return [value, (g) => g != null && typeof g === "object" && Object.keys(g).length === chosen.length && chosen.every((k) => tests[k](g[k]))];
  };
}
const listOf = (f, max = 3) => (rng) => {
  const xs = rng.times(rng.int(1, max), () => f(rng));
  return [xs.map((x) => x[0]), (g) => { const a = Array.isArray(g) ? g : [g]; return a.length === xs.length && xs.every((x, i) => x[1](a[i])); }];
};
const asKind = (f, cls) => (rng) => { const [value, same] = f(rng); return { value, same, class: cls }; };
const coll = struct({ CollectionName: S.t, CollectionURI: S.t });
const area = struct({ X: S.n, Y: S.n, W: S.n, H: S.n, D: S.n, Unit: S.unit });
const region = struct({ Name: S.t, Description: S.t, Type: S.regionType, Area: area });
const location = struct({ City: S.t, CountryCode: S.t, CountryName: S.t, ProvinceState: S.t, Sublocation: S.t, LocationId: S.tl, WorldRegion: S.t });
const art = struct({ AOTitle: S.t, AOCreator: S.tl, AOSource: S.t, AOCopyrightNotice: S.t, AOSourceInvNo: S.t });
const historyOf = (lib) => struct({ When: (r) => { const d = dateTime(lib, r, { zoneless: false }); return [d.value, d.same]; }, Action: S.t, Parameters: S.t, SoftwareAgent: S.t, InstanceID: S.t, Changed: S.t });
const regionInfo = (rng) => {
  const a = struct({ W: S.n, H: S.n, Unit: S.unit })(rng);
  const l = listOf(region)(rng);
  const v = { ...(rng.bool(0.7) ? { AppliedToDimensions: a[0] } : {}), RegionList: l[0] };
  return [v, (g) => g != null && (!v.AppliedToDimensions || a[1](g.AppliedToDimensions)) && l[1](g.RegionList)];
};
const contact = struct({ CiAdrCity: S.t, CiAdrExtadr: S.t, CiEmailWork: S.t, CiUrlWork: S.t });

function dateTime(lib, rng, { zoneless = true } = {}) {
  const zone = rng.pick([...(zoneless ? [undefined] : []), "UTC", "UTC+1", "UTC-8", "UTC+5:30", "UTC-3:30", "America/New_York", "Asia/Kathmandu", "UTC+13"]);
  const ms = rng.pick([undefined, 0, 5, 120, 999, rng.int(0, 999)]);
  const d = new lib.ExifDateTime(rng.int(1987, 2099), rng.int(1, 12), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59), ms, undefined, undefined, zone);
  const off = zone == null ? undefined : DateTime.fromObject({ year: d.year, month: d.month, day: d.day, hour: d.hour, minute: d.minute, second: d.second }, { zone }).offset;
  return {
    value: d,
    class: "date",
    same: (g) => g instanceof lib.ExifDateTime && g.year === d.year && g.month === d.month && g.day === d.day && g.hour === d.hour && g.minute === d.minute && g.second === d.second && (g.millisecond ?? 0) === (ms ?? 0) && (zone == null ? g.zone == null || g.inferredZone === true : g.tzoffsetMinutes === off && !g.inferredZone),
  };
}
/** library date objects are written to the second */
function luxon(lib, rng) {
  const zone = rng.pick(["UTC", "UTC+1", "UTC-3:30", "Asia/Kathmandu", "Europe/Berlin"]);
  const d = DateTime.fromObject({ year: rng.int(1987, 2099), month: rng.int(1, 12), day: rng.int(1, 28), hour: rng.int(4, 23), minute: rng.int(0, 59), second: rng.int(0, 59) }, { zone });
  return { value: d, class: "date", same: (g) => g instanceof lib.ExifDateTime && g.year === d.year && g.month === d.month && g.day === d.day && g.hour === d.hour && g.minute === d.minute && g.second === d.second && g.tzoffsetMinutes === d.offset && !g.inferredZone };
}
/** partial dates, which XMP can hold */
function partial(lib, rng) {
  const y = rng.int(1850, 2100), m = rng.bool(0.7) ? rng.int(1, 12) : undefined;
  const v = m ? lib.ExifDate.fromYearMonth(`${y}:${String(m).padStart(2, "0")}`) : lib.ExifDate.fromYear(y);
  return { value: v, class: "date", same: (g) => (m ? g instanceof lib.ExifDate && g.year === y && g.month === m && g.day == null : g === y || (g instanceof lib.ExifDate && g.year === y && g.month == null)) };
}
function date(lib, rng) {
  const y = rng.int(1850, 2100), m = rng.int(1, 12), dd = rng.int(1, 28);
  const v = rng.pick([lib.ExifDate.from(`${y}:${String(m).padStart(2, "0")}:${String(dd).padStart(2, "0")}`), lib.ExifDate.from(`${y}-${String(m).padStart(2, "0")}-${String(dd).padStart(2, "0")}`)]);
  return { value: v, class: "date", same: (g) => g != null && g.year === y && g.month === m && g.day === dd };
}
function time(lib, rng) {
  const h = rng.int(0, 23), m = rng.int(0, 59), s = rng.int(0, 59);
  const z = rng.pick(["+00:00", "+05:00", "-03:30", "+01:00"]);
  const p = (x) => String(x).padStart(2, "0");
  const v = lib.ExifTime.fromEXIF(`${p(h)}:${p(m)}:${p(s)}${z}`);
  return { value: v, class: "date", same: (g) => g instanceof lib.ExifTime && g.hour === h && g.minute === m && g.second === s && g.zone === v.zone };
}
// tag, readback key, generator, applicable file kinds
const ANY = ["jpg", "xmp", "tif", "png"];
const EXIF = ["jpg", "tif"];
const DEF = (lib) => [
  ["XMP-dc:Title", "Title", kinds.text, ANY],
  ["XMP-dc:Description", "Description", kinds.text, ["xmp", "png"]],
  ["XMP-dc:Source", "Source", kinds.text, ANY],
  ["XMP-photoshop:Headline", "Headline", kinds.text, ANY],
  ["XMP-photoshop:Instructions", "Instructions", kinds.text, ANY],
  ["XMP-xmp:Label", "Label", kinds.text, ANY],
  ["XMP-dc:Subject", "Subject", kinds.list, ANY],
  ["XMP-lr:HierarchicalSubject", "HierarchicalSubject", kinds.list, ANY],
  ["XMP-iptcExt:PersonInImage", "PersonInImage", kinds.list, ANY],
  ["XMP-digiKam:TagsList", "TagsList", kinds.list, ANY],
  ["XMP-dc:Language", "Language", kinds.numberList, ANY],
  ["XMP-xmp:Rating", "Rating", (r) => kinds.int(r, -1, 5), ANY],
  ["XMP-crs:Exposure2012", "Exposure2012", kinds.real, ANY],
  ["XMP-crs:CropTop", "CropTop", kinds.real, ANY],
  ["XMP-crs:Contrast", "Contrast", (r) => kinds.int(r, -100, 100), ANY],
  ["XMP-xmpRights:Marked", "Marked", kinds.bool, ANY],
  ["XMP-crs:HasSettings", "HasSettings", kinds.bool, ANY],
  ["XMP-mwg-coll:Collections", "Collections", asKind(listOf(coll), "struct"), ANY],
  ["XMP-mwg-rs:RegionInfo", "RegionInfo", asKind(regionInfo, "struct"), ANY],
  ["XMP-iptcExt:LocationShown", "LocationShown", asKind(listOf(location), "struct"), ANY],
  ["XMP-iptcExt:ArtworkOrObject", "ArtworkOrObject", asKind(listOf(art), "struct"), ANY],
  ["XMP-xmpMM:History", "History", asKind(listOf(historyOf(lib)), "struct"), ANY],
  ["XMP-iptcCore:CreatorContactInfo", "CreatorContactInfo", asKind(contact, "struct"), ANY],
  ["XMP-dc:Date", "Date", (r) => { const ds = r.times(r.int(1, 3), () => dateTime(lib, r, { zoneless: false })); return { value: ds.map((d) => d.value), class: "date", same: (g) => { const a = Array.isArray(g) ? g : [g]; return a.length === ds.length && ds.every((d, i) => d.same(a[i])); } }; }, ANY],
  ["XMP-xmp:MetadataDate", "MetadataDate", (r) => r.pick([dateTime, luxon, partial])(lib, r), ANY],
  ["XMP-xmp:CreateDate", "CreateDate", (r) => dateTime(lib, r), ["xmp", "png"]],
  ["XMP-exif:DateTimeOriginal", "DateTimeOriginal", (r) => dateTime(lib, r), ["xmp"]],
  ["IPTC:DateCreated", "DateCreated", (r) => date(lib, r), ["jpg"]],
  ["IPTC:DigitalCreationTime", "DigitalCreationTime", (r) => time(lib, r), ["jpg"]],
  ["EXIF:ImageDescription", "ImageDescription", kinds.exifText, EXIF, "IFD0"],
  ["EXIF:Artist", "Artist", kinds.exifText, EXIF, "IFD0"],
  ["EXIF:UserComment", "UserComment", kinds.exifText, EXIF, "ExifIFD"],
  ["EXIF:Software", "Software", kinds.exifText, EXIF, "IFD0"],
  ["EXIF:ISO", "ISO", (r) => kinds.int(r, 1, 65000), EXIF, "ExifIFD"],
  ["Orientation#", "Orientation", (r) => kinds.int(r, 1, 8), EXIF, "IFD0"],
];
// derived from others by ExifTool itself
const DERIVED = /^(XMP-x:XMPToolkit|Photoshop:IPTCDigest|XMP-xmpNote:HasExtendedXMP|IPTC:ApplicationRecordVersion|IFD0:(X|Y)Resolution|IFD0:ResolutionUnit|IFD0:YCbCrPositioning|ExifIFD:(ExifVersion|ComponentsConfiguration|FlashpixVersion|ColorSpace)|PNG.*|IPTC:(EnvelopeRecordVersion|CodedCharacterSet)|IFD0:(StripOffsets|StripByteCounts|PageNumber|ExifOffset))$/;

const PNG = Buffer.from("iVBORw0KGgoAAAANSUhEUgAAAAEAAAABCAYAAAAfFcSJAAAADUlEQVR42mNk+M9QDwADhgGAWjR9awAAAABJRU5ErkJggg==", "base64");

module.exports = {
  technique: "write/read round-trip monitor on real ExifTool and real files, with an independent ExifTool session watching all other tags",
  level: "exploration",
  rule: "one written tag read back and compared; distinct by file kind, tag and value",
  assumptions: [
    "Text read back is compared after the documented HTML-entity decoding; ExifTool's JSON shows number-like and boolean-like text as numbers and booleans.",
    "Excluded: control characters XML cannot hold, the unit separator, null-like words (\"null\", \"undef\", \"undefined\"), lone surrogates, empty lists and strings (they clear the tag), trailing white space in EXIF ASCII.",
    "Tags ExifTool derives or adds by itself (XMPToolkit, mandatory EXIF tags, digests) may change.",
  ],
  shards: (tier) => [...Array(tier === "quick" ? 8 : 32)].map((_, k) => ({ name: "round-trip", k, useMWG: k % 2 === 0 })),
  minimums: () => ({ "oracle:read-back": 3000, "class:struct": 400, "class:list": 300, "class:date": 200, "class:text": 500, "class:number": 200, "class:boolean": 50, "class:append": 20, "oracle:null-removes": 100, "oracle:other-tags-kept": 500, distinct: 2000 }),
  async run(ctx) {
    const lib = ctx.lib;
    const rng = ctx.rng;
    const defs = DEF(lib);
    const raw = new RawExif();
    const et = new lib.ExifTool({ maxProcs: 1, useMWG: ctx.shard.useMWG });
    const dir = ctx.tmpdir("c05");
    const deadline = Date.now() + ctx.n(38, 150) * 1000;
    let n = 0;
    while (Date.now() < deadline && n < ctx.n(700, 4000)) {
      const kind = rng.weighted([[3, "jpg"], [3, "xmp"], [1, "tif"], [1, "png"]]);
      const file = path.join(dir, `f${n}.${kind}`);
      if (kind === "jpg") fs.writeFileSync(file, jpeg({ seed: n }));
      if (kind === "tif") fs.writeFileSync(file, tiffFile(n));
      if (kind === "png") fs.writeFileSync(file, PNG);
      // a history of writes to one file; the model is the expected content
      const model = new Map();
      const steps = rng.int(1, 4);
      for (let step = 0; step < steps; step++) {
        n++;
        const usable = defs.filter((d) => d[3].includes(kind));
        const more = usable.filter((d) => d[1] === "History" && model.has(d[0]) && rng.bool());
        const chosen = [...more, ...rng.sample(usable, rng.int(1, 4))].filter((d, i, a) => a.findIndex((e) => e[1] === d[1]) === i);
        const tags = {};
        const expect = [];
        for (const [tag, key, g, , g1] of chosen) {
          const clear = model.has(tag) && rng.bool(0.35);
          if (clear) {
            tags[tag] = null;
            expect.push({ tag, key, g1, clear: true });
          } else if (key === "History" && model.has(tag) && rng.bool(0.6)) {
            // the "+" suffix appends to what is there
            const old = model.get(tag), v = g(rng), k = old.value.length;
            tags[rng.pick([tag, key]) + "+"] = v.value.length === 1 && rng.bool() ? v.value[0] : v.value;
            expect.push({ tag, key, g1, value: [...old.value, ...v.value], class: "append", same: (x) => Array.isArray(x) && old.same(x.slice(0, k)) && v.same(x.slice(k)) });
          } else {
            const v = g(rng);
            tags[tag] = v.value;
            expect.push({ tag, key, g1, ...v });
          }
        }
        const before = fs.existsSync(file) ? await raw.dump(file) : {};
        const opts = {};
        if (rng.bool(0.5)) opts.writeArgs = ["-overwrite_original"];
        if (rng.bool(0.2)) opts.struct = rng.pick([0, 1, 2, "undef"]);
        const onlyClears = !fs.existsSync(file) && expect.every((e) => e.clear);
        if (onlyClears) continue;
        const w = await settle(et.write(file, tags, opts), 60000);
        const det = (extra) => ({ kind, tags, opts, step, ...extra });
        if (!ctx.check(w.status === "fulfilled" && w.value.created + w.value.updated + w.value.unchanged === 1, "write-succeeds", `${kind} ${Object.keys(tags)}`, () => det({ status: w.status, value: w.value, reason: String(w.reason).slice(0, 300) }))) break;
        const r = await settle(et.read(file, { useMWG: false, struct: 1, numericTags: ["Orientation"] }), 60000);
        if (!ctx.check(r.status === "fulfilled", "read-succeeds", kind, () => det({ reason: String(r.reason) }))) break;
        for (const e of expect) {
          const got = r.value[e.key];
          if (e.clear) {
            ctx.check(got === undefined, "null-removes", `${kind} ${e.tag}`, () => det({ tag: e.tag, got }));
            ctx.saw(undefined);
            model.delete(e.tag);
          } else {
            ctx.check(e.same(got), "read-back", `${kind} ${e.tag}`, () => det({ tag: e.tag, written: e.value, got, dumped: undefined }));
            ctx.count("class:" + e.class);
            ctx.saw(`${kind}/${e.tag}/${JSON.stringify(e.value)}`, { kind, tag: e.tag, written: e.value, read: got });
            model.set(e.tag, e);
          }
        }
        // everything written earlier is still there
        for (const [tag, e] of model) {
          if (expect.some((x) => x.tag === tag)) continue;
          ctx.check(e.same(r.value[e.key]), "earlier-values-kept", `${kind} ${tag}`, () => det({ tag, want: e.value, got: r.value[e.key] }));
        }
        const after = await raw.dump(file);
        const touched = new Set(expect.map((e) => (e.g1 ?? e.tag.split(":")[0]) + ":" + e.key));
        const changed = [];
        for (const k of new Set([...Object.keys(before), ...Object.keys(after)])) {
          if (touched.has(k) || DERIVED.test(k)) continue;
          if (JSON.stringify(before[k]) !== JSON.stringify(after[k])) changed.push({ k, before: before[k], after: after[k] });
        }
        ctx.check(changed.length === 0, "other-tags-kept", `${kind} ${changed.map((c) => c.k)}`, () => det({ changed }));
      }
      for (const f of fs.readdirSync(dir)) fs.rmSync(path.join(dir, f));
    }
    raw.end();
    await settle(et.end(), 20000);
  },
};

/** a one-pixel TIFF */
function tiffFile() {
  const n = 9;
  const b = Buffer.alloc(8 + 2 + n * 12 + 4 + 1);
  b.write("II", 0, "latin1");
  b.writeUInt16LE(42, 2);
  b.writeUInt32LE(8, 4);
  b.writeUInt16LE(n, 8);
  const e = (i, tag, type, count, val) => {
    const o = 10 + i * 12;
    b.writeUInt16LE(tag, o);
    b.writeUInt16LE(type, o + 2);
    b.writeUInt32LE(count, o + 4);
    if (type === 3) b.writeUInt16LE(val, o + 8);
    else b.writeUInt32LE(val, o + 8);
  };
  e(0, 0x100, 3, 1, 1);
  e(1, 0x101, 3, 1, 1);
  e(2, 0x102, 3, 1, 8);
  e(3, 0x103, 3, 1, 1);
  e(4, 0x106, 3, 1, 1);
  e(5, 0x111, 4, 1, b.length - 1);
  e(6, 0x115, 3, 1, 1);
  e(7, 0x116, 3, 1, 1);
  e(8, 0x117, 4, 1, 1);
  b[b.length - 1] = 0x55;
  return b;
}
