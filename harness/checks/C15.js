"use strict";
// C15: malformed UTF-8 in files read with the real ExifTool. The oracle knows the
// bytes that were put into the file.
const fs = require("node:fs");
const path = require("node:path");
const J = require("../lib/jpeg.js");
const { settle } = require("../lib/ctx.js");
const VALID = ["a", "word", "Zoë", "漢字", "🎉", "\ufffd", "x y", "é", "ñ", "{", "}", '"', "\\", "b64:aGk=", "s:", '{"__etvInvalidUtf8V1":{"replacement":"s:x","rawBase64":"b64:eA=="}}', "__etvInvalidUtf8V1", "?", "ÿ", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ue000", "\u{10ffff}", "=", "+", "(Binary data)"];
const BAD = [[0x80], [0xbf], [0xff], [0xfe], [0xc0, 0xaf], [0xc1, 0x81], [0xc3], [0xe2, 0x82], [0xe2], [0xf0, 0x9f, 0x98], [0xf0, 0x9f], [0xed, 0xa0, 0x80], [0xed, 0xbf, 0xbf], [0xe0, 0x80, 0xaf], [0xf0, 0x80, 0x80, 0xaf], [0xf4, 0x90, 0x80, 0x80], [0xf8, 0x88, 0x80, 0x80, 0x80], [0xeb], [0xe9], [0xfc, 0x6c]];
const strict = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
const loose = new TextDecoder("utf-8", { ignoreBOM: true });
const isValid = (b) => {
  try {
    strict.decode(b);
    return true;
  } catch {
    return false;
  }
};
const collapse = (s) => s.replace(/\ufffd+/g, "\ufffd");
const iptc = (rec, ds, data) => Buffer.concat([Buffer.from([0x1c, rec, ds, data.length >> 8, data.length & 255]), data]);
function app13(records) {
  const d = Buffer.concat(records);
  const len = Buffer.alloc(4);
  len.writeUInt32BE(d.length);
  return J.seg(0xed, Buffer.concat([Buffer.from("Photoshop 3.0\0", "latin1"), Buffer.from("8BIM", "latin1"), Buffer.from([4, 4, 0, 0]), len, d, Buffer.alloc(d.length % 2)]));
}

module.exports = {
  technique: "online monitor of read() and readRaw() with the real ExifTool on files with known malformed bytes (per-value byte oracle)",
  level: "exploration",
  rule: "one file with generated EXIF, IPTC and XMP texts, read back; distinct by file content and options",
  assumptions: ["Runs of U+FFFD are compared as one: how many replacement characters a malformed run gets is not specified.", "Texts have no leading or trailing white space and no NUL (ExifTool trims or drops those, but for JPEG comments), no U+FFFE or U+FFFF."],
  shards: () => Array.from({ length: 8 }, () => ({ name: "utf8" })),
  minimums: () => ({ "oracle:text": 15000, "oracle:bytes": 6000, "oracle:no-invention": 2000, "oracle:fulfilled": 2000, "case:dropped-tag": 100, "case:empty-filter": 50, "oracle:custom-filter": 40, "case:bad-list-item": 150, "case:bad-struct-field": 60, "case:bad-date": 20, "case:nul": 100, "oracle:json": 200 }),
  bytes(rng, { xml = false, max = 6, bad = rng.bool(0.5) } = {}) {
    for (;;) {
      const parts = rng.times(rng.int(1, max), () => {
        if (bad && rng.bool(0.35)) return Buffer.from(rng.pick(BAD));
        if (bad && rng.bool(0.1)) return Buffer.from(rng.times(rng.int(1, 4), () => rng.int(0x80, 0xff)));
        return Buffer.from(rng.pick(VALID));
      });
      const b = Buffer.concat([Buffer.from("T"), ...parts, Buffer.from(rng.bool(0.7) ? "z" : rng.pick(["é", "🎉", "\ufffd"]))]);
      const s = loose.decode(b);
      if (/[\ufffe\uffff\u0000-\u001f]/.test(s) || b.includes("\xef\xbf\xbe", "latin1") || b.includes("\xef\xbf\xbf", "latin1")) continue;
      if (xml && /[<>&]/.test(s)) continue;
      if (/^\s|\s$/.test(s)) continue;
      if (isValid(b) === !bad) return b;
    }
  },
  async run(ctx) {
    const { rng } = ctx;
    const dir = ctx.tmpdir();
    const et = new ctx.lib.ExifTool({ maxProcs: 2, taskRetries: 0 });
    const end = Date.now() + ctx.n(55, 400) * 1000;
    const N = ctx.n(600, 8000);
    try {
      for (let i = 0; i < N && Date.now() < end; i++) await this.one(ctx, rng, et, dir, i);
    } finally {
      await settle(et.end());
    }
  },
  async one(ctx, rng, et, dir, i) {
    const want = {}; // tag → Buffer | [Buffer] | {field: Buffer}
    const segments = [];
    let dropped = false;
    if (rng.bool(0.8)) {
      const ids = { ImageDescription: 0x010e, Model: 0x0110, Software: 0x0131, Artist: 0x013b, HostComputer: 0x013c, DocumentName: 0x010d, PageName: 0x011d, TargetPrinter: 0x0151, Make: 0x010f, Copyright: 0x8298 };
      const ifd0 = {};
      for (const k of rng.sample(Object.keys(ids), rng.bool(0.1) ? 10 : rng.int(1, 5))) {
        want[k] = this.bytes(rng, rng.bool(0.05) ? { max: 200 } : {});
        ifd0[ids[k]] = J.ascii(want[k]);
      }
      const exif = {};
      if (rng.bool(0.2)) {
        want.OwnerName = this.bytes(rng);
        exif[0xa430] = J.ascii(want.OwnerName);
      }
      if (rng.bool(0.2)) {
        // a date tag with malformed text stays text
        want.CreateDate = Buffer.concat([Buffer.from("2020:01:02 03:04"), Buffer.from(rng.pick(BAD)), Buffer.from("05")]);
        if (loose.decode(want.CreateDate).includes("\0")) delete want.CreateDate;
        else {
          exif[0x9004] = J.ascii(want.CreateDate);
          ctx.count("case:bad-date");
        }
      }
      const gps = {};
      if (rng.bool(0.15)) {
        // an untrusted position: its tags are dropped, and so are their bytes
        for (const id of [2, 4]) gps[id] = { type: 5, values: [[0, 1], [0, 1], [0, 1]] };
        gps[1] = J.ascii("N");
        gps[3] = J.ascii("E");
        gps[8] = J.ascii(this.bytes(rng));
        dropped = true;
        ctx.count("case:dropped-tag");
      }
      segments.push(J.exifSegment(J.tiff({ ifd0, exif, gps })));
    }
    if (rng.bool(0.6)) {
      const recs = [iptc(1, 90, Buffer.from("\x1b%G", "latin1"))];
      const add = (k, ds) => {
        want[k] = this.bytes(rng, { max: 4 });
        recs.push(iptc(2, ds, want[k]));
      };
      if (rng.bool(0.5)) add("Headline", 105);
      if (rng.bool(0.5)) add("Source", 115);
      if (rng.bool(0.7)) {
        want.Keywords = rng.times(rng.bool(0.1) ? rng.int(11, 25) : rng.int(2, 4), () => this.bytes(rng, { max: 3 }));
        for (const k of want.Keywords) recs.push(iptc(2, 25, k));
      }
      segments.push(app13(recs));
    }
    if (rng.bool(0.7)) {
      const x = [];
      const B = (s) => Buffer.from(s);
      x.push(B("<?xpacket begin='' id='W5M0MpCehiHzreSzNTczkc9d'?><x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description rdf:about='' xmlns:dc='http://purl.org/dc/elements/1.1/' xmlns:photoshop='http://ns.adobe.com/photoshop/1.0/' xmlns:Iptc4xmpCore='http://iptc.org/std/Iptc4xmpCore/1.0/xmlns/' xmlns:xmp='http://ns.adobe.com/xap/1.0/'>"));
      if (rng.bool(0.6)) {
        want.Subject = rng.times(rng.bool(0.1) ? rng.int(11, 25) : rng.int(2, 4), () => this.bytes(rng, { xml: true, max: 3 }));
        x.push(B("<dc:subject><rdf:Bag>"));
        for (const s of want.Subject) x.push(B("<rdf:li>"), s, B("</rdf:li>"));
        x.push(B("</rdf:Bag></dc:subject>"));
      }
      if (rng.bool(0.5)) {
        want.Title = this.bytes(rng, { xml: true });
        x.push(B("<dc:title><rdf:Alt><rdf:li xml:lang='x-default'>"), want.Title, B("</rdf:li></rdf:Alt></dc:title>"));
      }
      if (rng.bool(0.6)) {
        want.CreatorContactInfo = { CiAdrCity: this.bytes(rng, { xml: true }), CiAdrCtry: this.bytes(rng, { xml: true }) };
        x.push(B("<Iptc4xmpCore:CreatorContactInfo rdf:parseType='Resource'>"));
        for (const [k, v] of Object.entries(want.CreatorContactInfo)) x.push(B(`<Iptc4xmpCore:${k}>`), v, B(`</Iptc4xmpCore:${k}>`));
        x.push(B("</Iptc4xmpCore:CreatorContactInfo>"));
      }
      if (rng.bool(0.4)) {
        want.Label = this.bytes(rng, { xml: true });
        x.push(B("<xmp:Label>"), want.Label, B("</xmp:Label>"));
      }
      x.push(B("</rdf:Description></rdf:RDF></x:xmpmeta><?xpacket end='w'?>"));
      segments.push(J.xmpSegment(Buffer.concat(x)));
    }
    if (rng.bool(0.3)) {
      // the one place where texts may have NULs inside, which JSON texts don't show
      const b = this.bytes(rng);
      const parts = rng.times(rng.int(1, 3), () => rng.int(1, b.length - 1)).sort((x, y) => x - y);
      want.Comment = rng.bool() ? b : Buffer.concat([0, ...parts].flatMap((at, n) => [b.subarray(at, [...parts, b.length][n]), ...(n < parts.length ? [Buffer.from([0])] : [])]));
      if (want.Comment.includes(0)) ctx.count("case:nul");
      segments.push(J.seg(0xfe, want.Comment));
    }
    const thumb = rng.bool(0.3);
    if (thumb && !segments.length) return;
    const file = path.join(dir, `u${i}.jpg`);
    const data = J.jpeg({ seed: "u" + i, segments });
    fs.writeFileSync(file, data);
    const method = rng.pick(["read", "read", "readRaw"]);
    const grouped = rng.bool(0.25);
    const custom = rng.bool(0.08);
    const none = !custom && rng.bool(0.1); // an empty filter is none
    if (none) ctx.count("case:empty-filter");
    const readArgs = [...(grouped ? ["-G"] : []), ...(method === "readRaw" && want.CreatorContactInfo ? ["-struct"] : []), ...(none ? rng.pick([["-api", "Filter="], ["-api", "Filter=tr/a/b/", "-api", "Filter="], ["-api", "Filter^=tr/a/b/", "-api", "Filter="]]) : []), ...(custom ? ["-api", rng.pick(["Filter=tr/a-z/A-Z/", "filter=$_", "Filter^=tr/a-z/A-Z/", "FILTER^=$_", "Filter"])] : [])];
    const r = await settle(et[method](file, { useMWG: false, ...(readArgs.length ? { readArgs } : {}) }));
    const t = r.value;
    const det = (x) => ({ method, readArgs, want: Object.fromEntries(Object.entries(want).map(([k, v]) => [k, Buffer.isBuffer(v) ? v.toString("latin1") : Object.values(v).map((b) => b.toString("latin1"))])), err: r.reason && String(r.reason), ...x });
    ctx.saw(data.toString("latin1") + method + readArgs, det());
    fs.unlinkSync(file);
    if (!ctx.check(r.status === "fulfilled", "fulfilled", method, det)) return;
    const keyOf = (k) => (grouped ? Object.keys(t).find((x) => x.endsWith(":" + k)) : k);
    if (custom) {
      ctx.check(t.invalidUtf8Bytes === undefined, "custom-filter", "no bytes", () => det({ got: t.invalidUtf8Bytes }));
      ctx.check(!JSON.stringify(t).includes('"rawBase64"') || Object.values(want).flat().some((b) => String(b).includes("rawBase64")), "custom-filter", "no wrapper", det);
      return;
    }
    const expected = {}; // invalidUtf8Bytes, as paths
    const leaf = (p, got, b) => {
      const bad = !isValid(b);
      const seen = Buffer.from(b.filter((x) => x !== 0));
      ctx.check(typeof got === "string" && (bad ? collapse(got) === collapse(loose.decode(seen)) && (isValid(seen) || got.includes("\ufffd")) : got === seen.toString("utf8")), "text", bad ? "malformed" : "valid", () => det({ path: p, got, bytes: b.toString("hex") }));
      if (bad) expected[p.join("\0")] = b;
    };
    for (const [k, v] of Object.entries(want)) {
      const key = keyOf(k);
      const got = t[key];
      if (Buffer.isBuffer(v)) leaf([key], got, v);
      else if (Array.isArray(v)) {
        if (!ctx.check(Array.isArray(got) && got.length === v.length, "list", k, () => det({ key: k, got }))) return;
        v.forEach((b, n) => leaf([key, String(n)], got[n], b));
        if (v.some((b) => !isValid(b))) ctx.count("case:bad-list-item");
      } else {
        for (const f in v) leaf([key, f], got?.[f], v[f]);
        if (Object.values(v).some((b) => !isValid(b))) ctx.count("case:bad-struct-field");
      }
    }
    // bytes at exactly these positions
    const found = {};
    const walk = (o, p) => {
      for (const [k, v] of Object.entries(o ?? {})) {
        if (v instanceof Uint8Array) found[[...p, k].join("\0")] = v;
        else walk(v, [...p, k]);
      }
    };
    walk(t.invalidUtf8Bytes, []);
    for (const p in expected) ctx.check(found[p] && Buffer.compare(Buffer.from(found[p]), expected[p]) === 0, "bytes", method, () => det({ path: p.split("\0"), got: found[p] && Buffer.from(found[p]).toString("hex"), bytes: expected[p].toString("hex") }));
    // other groups may carry the same texts under other names (MWG composites): those must be malformed there too
    for (const p in found) {
      if (p in expected) continue;
      if (dropped && method === "readRaw" && p.endsWith("GPSSatellites")) continue; // the raw read drops nothing
      const shown = p.split("\0").reduce((o, k) => o?.[k], t);
      const same = Object.values(expected).some((b) => Buffer.compare(b, Buffer.from(found[p])) === 0);
      ctx.check(same && typeof shown === "string" && collapse(shown) === collapse(loose.decode(found[p].filter((x) => x !== 0))), "no-invention", "extra", () => det({ path: p.split("\0"), got: Buffer.from(found[p]).toString("hex"), shown }));
    }
    ctx.check(Object.keys(expected).length > 0 || (dropped && method === "readRaw") || t.invalidUtf8Bytes === undefined, "no-invention", "absent", () => det({ got: t.invalidUtf8Bytes }));
    // every other returned text with U+FFFD comes from a valid one
    if (t.invalidUtf8Bytes) {
      const back = ctx.lib.parseJSON(JSON.stringify(t)).invalidUtf8Bytes;
      const again = {};
      const w2 = (o, p) => {
        for (const [k, v] of Object.entries(o ?? {})) v instanceof Uint8Array ? (again[[...p, k].join("\0")] = v) : w2(v, [...p, k]);
      };
      w2(back, []);
      ctx.check(Object.keys(again).length === Object.keys(found).length && Object.keys(found).every((p) => again[p] && Buffer.compare(Buffer.from(again[p]), Buffer.from(found[p])) === 0), "json", "revived", () => det({ paths: Object.keys(again) }));
    }
  },
};
