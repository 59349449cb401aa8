"use strict";
// C14: JSON.stringify(read()) revived with parseJSON() equals what was read.
const path = require("node:path");
const fs = require("node:fs");
const W = require("../lib/when.js");
const G = require("../lib/gen.js");
const J = require("../lib/jpeg.js");
const { FakeReader } = require("../lib/reader.js");
const { settle } = require("../lib/ctx.js");
const { p2 } = W;
const CLASSES = ["ExifDateTime", "ExifDate", "ExifTime", "BinaryField"];
const AS = { ExifDateTime: ["year", "month", "day", "hour", "minute", "second", "millisecond", "tzoffsetMinutes", "rawValue", "zoneName", "zone", "inferredZone", "hasZone"], ExifDate: ["year", "month", "day", "rawValue"], ExifTime: ["hour", "minute", "second", "millisecond", "rawValue", "zone", "inferredZone", "hasZone"], BinaryField: ["bytes", "rawValue"] };
const PROTO = ["toString", "constructor", "hasOwnProperty", "__proto__", "__defineGetter__", "__lookupSetter__", "valueOf", "isPrototypeOf", "propertyIsEnumerable"];

/** first difference between what was read and what was revived, or null */
function diff(lib, a, b, at = "$") {
  if (a == null || b == null) return (a ?? null) === (b ?? null) ? null : `${at}: ${a} / ${b}`;
  for (const c of CLASSES) {
    if (!(a instanceof lib[c]) && !(b instanceof lib[c])) continue;
    if (!(a instanceof lib[c]) || !(b instanceof lib[c])) return `${at}: class ${a.constructor?.name} / ${b.constructor?.name}`;
    for (const k of AS[c]) if ((a[k] ?? null) !== (b[k] ?? null)) return `${at}.${k}: ${a[k]} / ${b[k]}`;
    if (c !== "BinaryField" && (a.toISOString() !== b.toISOString() || a.toExifString() !== b.toExifString())) return `${at}: text`;
    if (c === "ExifDateTime" && (a.toMillis() !== b.toMillis() || a.isValid !== b.isValid)) return `${at}: instant`;
    return null;
  }
  if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && Buffer.compare(a, b) === 0 ? null : `${at}: bytes`;
  if (typeof a !== "object" || typeof b !== "object") return a === b || (a === 0 && b === 0) ? null : `${at}: ${a} / ${b}`;
  if (Array.isArray(a) !== Array.isArray(b) || (Array.isArray(a) && a.length !== b.length)) return `${at}: array`;
  const ka = Object.keys(a).filter((k) => a[k] != null), kb = Object.keys(b).filter((k) => b[k] != null);
  if (!Array.isArray(a) && ka.join("\0") !== kb.join("\0") && [...ka].sort().join("\0") !== [...kb].sort().join("\0")) return `${at}: keys ${ka} / ${kb}`;
  for (const k of ka) {
    const d = diff(lib, a[k], b[k], `${at}.${k}`);
    if (d) return d;
  }
  return null;
}

module.exports = {
  technique: "online monitor of JSON.stringify/parseJSON over tags returned by read() (stand-in and real ExifTool) and over arbitrary JSON",
  level: "exploration",
  rule: "one tags object or JSON text serialised and revived; distinct by JSON text",
  assumptions: ["Absent, undefined and null are equal: JSON cannot tell them apart."],
  shards: (tier) => [...["UTC", "America/New_York", "Pacific/Apia"].map((tz) => ({ name: "fake", env: { TZ: tz } })), { name: "real" }, { name: "real" }, { name: "json" }],
  minimums: () => ({ "oracle:revived": 3000, "oracle:stable": 3000, "oracle:classes": 3000, "oracle:plain": 15000, "case:class:ExifDateTime": 3000, "case:class:ExifDate": 500, "case:class:ExifTime": 500, "case:class:BinaryField": 500, "case:malformed-utf8": 60, "oracle:no-throw": 15000 }),
  async run(ctx) {
    return this[ctx.shard.name](ctx, ctx.rng);
  },
  tally(ctx, x, depth = 0) {
    if (x == null || typeof x !== "object") return;
    for (const c of CLASSES) if (x instanceof ctx.lib[c]) return void ctx.count("case:class:" + c);
    if (x instanceof Uint8Array) return void ctx.count("case:malformed-utf8");
    for (const v of Object.values(x)) this.tally(ctx, v, depth + 1);
  },
  trip(ctx, tags, from) {
    const s = JSON.stringify(tags);
    const det = (x) => ({ from, json: s.slice(0, 1500), ...x });
    let back, err;
    try {
      back = ctx.lib.parseJSON(s);
    } catch (e) {
      err = e;
    }
    ctx.saw(s, { from, json: s.slice(0, 400) });
    if (!ctx.check(err == null, "no-throw", "parseJSON", () => det({ err: String(err) }))) return;
    this.tally(ctx, tags);
    const d = diff(ctx.lib, tags, back);
    ctx.check(d === null, "revived", from, () => det({ diff: d }));
    ctx.check(JSON.stringify(back) === s, "stable", from, () => det({ again: JSON.stringify(back).slice(0, 1500) }));
    // indentation and nesting make no difference
    const deep = ctx.lib.parseJSON(JSON.stringify({ a: [{ b: tags }] }, null, 2)).a[0].b;
    ctx.check(diff(ctx.lib, tags, deep) === null, "classes", "nested", () => det({ diff: diff(ctx.lib, tags, deep) }));
    // nor does the order of an object's members, which databases and proxies don't keep
    const flip = (x) => (Array.isArray(x) ? x.map(flip) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).reverse().map(([k, v]) => [k, flip(v)])) : x);
    const other = ctx.lib.parseJSON(JSON.stringify(flip(JSON.parse(s))));
    ctx.check(diff(ctx.lib, tags, other) === null, "classes", "reordered", () => det({ diff: diff(ctx.lib, tags, other) }));
  },
  value(rng, depth = 0) {
    const off = rng.pick(W.OFFSETS);
    const dt = `${rng.int(1970, 2060)}:${p2(rng.int(1, 12))}:${p2(rng.int(1, 28))} ${p2(rng.int(0, 23))}:${p2(rng.int(0, 59))}:${p2(rng.int(0, 59))}`;
    const frac = rng.bool(0.4) ? "." + String(rng.int(0, 999)).padStart(3, "0") : "";
    const zone = rng.bool(0.5) ? W.offsetText(off) : "";
    return rng.weighted([
      [6, () => dt + frac + zone],
      [2, () => dt.slice(0, 10)],
      [1, () => dt.slice(0, 7)],
      [1, () => dt.slice(0, 4)],
      [2, () => dt.slice(11) + frac + zone],
      [1, () => `(Binary data ${rng.int(0, rng.pick([1e6, 9e9]))} bytes, use -b option to extract)`],
      [2, () => G.text(rng)],
      [1, () => rng.float(-1e6, 1e6)],
      [1, () => rng.int(-1e9, 1e9)],
      [0.5, () => rng.bool()],
      [depth < 3 ? 1 : 0, () => rng.times(rng.int(0, 4), () => this.value(rng, depth + 1))],
      [depth < 3 ? 1 : 0, () => Object.fromEntries(rng.times(rng.int(0, 4), () => [this.name(rng), this.value(rng, depth + 1)]))],
    ])();
  },
  name: (rng) => rng.pick(["CreateDate", "DateTimeOriginal", "ModifyDate", "TimeCreated", "DateCreated", "GPSDateTime", "GPSTimeStamp", "SubSecTimeX", "When", "CreationTime", "Title", "ThumbnailImage", "Subject", "X" + rng.int(0, 50), "DateX" + rng.int(0, 20), "TimeX" + rng.int(0, 20)]),
  async fake(ctx, rng) {
    const reader = new FakeReader(ctx.lib, { taskRetries: 0 }, 1);
    const end = Date.now() + ctx.n(40, 300) * 1000;
    const N = ctx.n(1500, 20000);
    for (let i = 0; i < N && Date.now() < end; i++) {
      const tags = {};
      if (rng.bool(0.3)) tags.TimeZone = rng.pick(["+05:00", "America/St_Johns", "Pacific/Apia"]);
      if (rng.bool(0.3)) Object.assign(tags, { GPSLatitude: rng.float(-80, 80), GPSLongitude: rng.float(-170, 170) });
      if (rng.bool(0.2)) tags.MIMEType = "video/mp4";
      if (rng.bool(0.2)) tags.Warning = "some warning";
      for (let k = rng.int(1, 12); k > 0; k--) tags[this.name(rng)] = this.value(rng);
      const opts = rng.pick([undefined, { backfillTimezones: false }, { readArgs: ["-G"] }]);
      const r = await reader.read(opts?.readArgs ? Object.fromEntries(Object.entries(tags).map(([k, v]) => ["EXIF:" + k, v])) : tags, opts);
      if (!ctx.check(r.status === "fulfilled", "fulfilled", "read", () => ({ tags, err: String(r.reason) }))) continue;
      this.trip(ctx, r.value, "read");
      // values that went through the classes' own operations
      const dts = Object.values(r.value).filter((x) => x instanceof ctx.lib.ExifDateTime);
      if (dts.length) {
        const d = rng.pick(dts);
        const derived = [d.setZone(rng.pick([...W.ZONES, "UTC+5:30"])), d.plus({ hours: rng.int(-9, 9) }), ctx.lib.ExifDateTime.fromMillis(d.toMillis(), { zone: rng.pick(W.ZONES) }), ctx.lib.ExifDateTime.fromDateTime(d.toDateTime())].filter((x) => x != null);
        this.trip(ctx, { d, derived }, "derived");
      }
    }
    await reader.end();
  },
  /** files with malformed text, dates and binaries, through the real ExifTool */
  async real(ctx, rng) {
    const dir = ctx.tmpdir();
    const et = new ctx.lib.ExifTool({ maxProcs: 2 });
    const N = ctx.n(40, 400);
    try {
      for (let i = 0; i < N; i++) {
        const bytes = () => Buffer.from(rng.times(rng.bool(0.1) ? rng.int(100, 400) : rng.int(1, 12), () => rng.pick([0x61, 0xc3, 0xa9, 0xff, 0x80, 0xe2, 0x82, 0x20, 0x41])));
        const dt = `20${p2(rng.int(0, 30))}:${p2(rng.int(1, 12))}:${p2(rng.int(1, 28))} ${p2(rng.int(0, 23))}:10:20`;
        const t = J.tiff({
          ifd0: { ...(rng.bool(0.4) ? Object.fromEntries([0x010d, 0x0110, 0x011d, 0x0131, 0x013c, 0x0151, 0x8298].map((id) => [id, J.ascii(bytes())])) : {}), 0x010e: J.ascii(bytes()), 0x013b: J.ascii(bytes()), 0x010f: J.ascii("Cam"), 0x0132: J.ascii(dt) },
          exif: { 0x9003: J.ascii(dt), 0x9291: J.ascii("123"), ...(rng.bool(0.4) ? Object.fromEntries([0xa430, 0xa431, 0xa433, 0xa434, 0xa435].map((id) => [id, J.ascii(bytes())])) : {}), 0x9011: J.ascii(rng.pick(["+05:30", "-08:00"])) },
          ifd1: rng.bool() ? { 0x0103: { type: 3, values: [6] } } : {},
          ...(rng.bool() ? { thumb: Buffer.from([0xff, 0xd8, 1, 2, 3, 0xff, 0xd9]) } : {}),
        });
        const xmp = `<?xpacket begin='' id='W5M0MpCehiHzreSzNTczkc9d'?><x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description rdf:about='' xmlns:dc='http://purl.org/dc/elements/1.1/' xmlns:xmp='http://ns.adobe.com/xap/1.0/' xmlns:photoshop='http://ns.adobe.com/photoshop/1.0/' xmlns:xmpMM='http://ns.adobe.com/xap/1.0/mm/' xmlns:stEvt='http://ns.adobe.com/xap/1.0/sType/ResourceEvent#'><photoshop:DateCreated>${rng.pick(["2020", "2020-05", "2020-05-06", "2020-05-06T07:08:09Z"])}</photoshop:DateCreated><xmpMM:History><rdf:Seq><rdf:li rdf:parseType='Resource'><stEvt:action>saved</stEvt:action><stEvt:when>2021-02-03T04:05:06-03:00</stEvt:when></rdf:li></rdf:Seq></xmpMM:History></rdf:Description></rdf:RDF></x:xmpmeta><?xpacket end='w'?>`;
        const file = path.join(dir, `${i}.jpg`);
        fs.writeFileSync(file, J.jpeg({ seed: "j" + i, segments: [J.exifSegment(t), J.xmpSegment(xmp)] }));
        const r = await settle(et.read(file, rng.pick([undefined, { readArgs: ["-fast", "-G"] }])));
        if (!ctx.check(r.status === "fulfilled", "fulfilled", "real", () => ({ err: String(r.reason) }))) continue;
        this.trip(ctx, r.value, "real");
        fs.unlinkSync(file);
      }
    } finally {
      await settle(et.end());
    }
  },
  /** JSON that is not a serialised value stays plain */
  json(ctx, rng) {
    const N = ctx.n(20000, 200000);
    const gen = (d) =>
      rng.weighted([
        [2, () => G.text(rng, { nonEmpty: false })],
        [1, () => rng.int(-1e6, 1e6)],
        [1, () => rng.float(-10, 10)],
        [1, () => rng.pick([true, false, null])],
        [d < 3 ? 2 : 0, () => rng.times(rng.int(0, 4), () => gen(d + 1))],
        [d < 3 ? 3 : 0, () => obj(rng.times(rng.int(0, 4), () => [rng.pick(["a", "b", "_ctor", "year", "month", "zone", "rawValue", "toString", "__proto__", "constructor", "0", "1", G.word(rng)]), gen(d + 1)]))],
        // shapes of serialised values, without or with another class marker
        [1, () => ({ ...shape(), ...(rng.bool(0.7) ? { _ctor: rng.pick([...PROTO, "exifdatetime", "ExifDateTime ", "Date", "DateTime", "Buffer", "Uint8Array", "", "null", "ReadTask", "ExifTool"]) } : {}) })],
        [0.5, () => ({ ...shape(), _ctor: rng.pick([1, null, true, ["ExifDate"], { a: 1 }]) })],
      ])();
    const obj = (entries) => {
      const o = {};
      for (const [k, v] of entries) Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true });
      return o;
    };
    const shape = () => rng.pick([{ year: 2020, month: 1, day: 2, hour: 3, minute: 4, second: 5, rawValue: "2020:01:02 03:04:05" }, { year: 2020, month: 2 }, { hour: 1, minute: 2, second: 3, zone: "UTC" }, { bytes: 5, rawValue: "(Binary data 5 bytes)" }, { 0: 255, 1: 216 }, {}]);
    const bytes = () => { const n = rng.int(1, 4); return Object.fromEntries(rng.times(n, (i) => [i, rng.int(0, 255)])); };
    const notBytes = () => rng.pick([{ 1: 5 }, { 0: 1, 2: 3 }, { 0: 256 }, { 0: -1 }, { 0: 1.5 }, { 0: "1" }, { 0: null }, { 1: 1, 2: 2 }, { "00": 1 }, {}, { 0: 1, x: 2 }]);
    for (let i = 0; i < N; i++) {
      const v = gen(0);
      const s = JSON.stringify(v);
      if (CLASSES.some((c) => s.includes(`"_ctor":"${c}"`))) continue;
      let back, err;
      try {
        back = ctx.lib.parseJSON(s);
      } catch (e) {
        err = e;
      }
      ctx.saw(s, { json: s.slice(0, 300) });
      ctx.check(err == null, "no-throw", "plain", () => ({ json: s.slice(0, 800), err: String(err) }));
      ctx.check(err != null || JSON.stringify(back) === s, "plain", "unchanged", () => ({ json: s.slice(0, 800), got: JSON.stringify(back)?.slice(0, 800) }));
      if (i % 20 === 0) {
        const good = { a: bytes(), b: { 3: bytes() } }, bad = { x: notBytes(), y: { 1: notBytes(), z: { 0: notBytes() } } };
        const t = ctx.lib.parseJSON(JSON.stringify({ Title: "t", invalidUtf8Bytes: { ...good, ...bad } })).invalidUtf8Bytes;
        const arr = (o) => Object.values(o).join();
        ctx.check(t.a instanceof Uint8Array && t.b[3] instanceof Uint8Array && t.a.join() === arr(good.a) && t.b[3].join() === arr(good.b[3]), "bytes-revived", "bytes", () => ({ good, a: t.a }));
        ctx.check(JSON.stringify([t.x, t.y]) === JSON.stringify([bad.x, bad.y]) && !(t.x instanceof Uint8Array) && !(t.y[1] instanceof Uint8Array), "plain", "not bytes", () => ({ bad, x: t.x, y: t.y }));
      }
      // known markers with unexpected contents must not throw either
      if (i % 10 === 0) {
        const odd = JSON.stringify({ x: { _ctor: rng.pick(CLASSES), ...(typeof v === "object" && v && !Array.isArray(v) ? v : { year: v, zone: v, zoneName: v, tzoffsetMinutes: v, rawValue: v }) } });
        let e2;
        try {
          JSON.stringify(ctx.lib.parseJSON(odd));
        } catch (e) {
          e2 = e;
        }
        ctx.check(e2 == null, "no-throw", "odd", () => ({ json: odd.slice(0, 800), err: String(e2) }));
      }
    }
  },
};
