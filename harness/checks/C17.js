"use strict";
// C17: sequences of modifying calls on real files. The scratch directory is snapshotted (names and
// content hashes) around every batch of calls; metadata is observed by an independent ExifTool.
const fs = require("node:fs");
const path = require("node:path");
const { settle } = require("../lib/ctx.js");
const J = require("../lib/jpeg.js");
const P = require("../lib/png.js");
const G = require("../lib/gen.js");
const { snapshot, diff, sha } = require("../lib/snap.js");
const { RawExif } = require("../lib/rawexif.js");

const strip = (seed) => P.imageData(P.png({ seed })).subarray(0, 192);
function tiffFile(seed) {
  const px = Buffer.alloc(192);
  strip(seed).copy(px);
  const ifd = (off) => J.tiff({ ifd0: { 0x100: { type: 3, values: [16] }, 0x101: { type: 3, values: [12] }, 0x102: { type: 3, values: [8] }, 0x103: { type: 3, values: [1] }, 0x106: { type: 3, values: [1] }, 0x111: { type: 4, values: [off] }, 0x115: { type: 3, values: [1] }, 0x116: { type: 3, values: [12] }, 0x117: { type: 4, values: [192] } } });
  return Buffer.concat([ifd(ifd(0).length), px]);
}
const BLANK = { jpg: (s) => J.jpeg({ seed: s }), png: (s) => P.png({ seed: s }), tif: tiffFile, mie: null, xmp: null };
// group-qualified tags with values that survive a textual copy
const TAGS = {
  "XMP-dc:Title": "a title & more",
  "XMP-dc:Subject": ["s1", "s, 2", "s;3"],
  "XMP-photoshop:Headline": "head",
  "XMP-dc:Rights": "\u00a9 me",
  "XMP-xmp:Rating": 3,
  "XMP-xmp:CreateDate": "2020:01",
  "XMP-iptcExt:PersonInImage": ["p1", "p2"],
  "XMP-iptcCore:CreatorContactInfo": { CiAdrCity: "Here", CiEmailWork: "a@b" },
};
const EXIF = { "IFD0:Make": "Maker", "IFD0:Model": "Mo, del", "IFD0:Software": "sw 1.0", "IFD0:Copyright": "(c) x", "ExifIFD:DateTimeOriginal": "2020:01:02 03:04:05", "ExifIFD:LensModel": "50mm", "ExifIFD:UserComment": "c&mt", "ExifIFD:ExposureTime": "1/250", "ExifIFD:ISO": 200, "GPS:GPSLatitudeRef": "South", "GPS:GPSLatitude": "12 deg 30' 0.00\"", "IFD0:Orientation": "Rotate 90 CW" };
const IPTC = { "IPTC:Keywords": ["k1", "k,2"], "IPTC:City": "City", "IPTC:Caption-Abstract": "cap" };
/** a minimal ICC profile */
function icc(seed) {
  const txt = Buffer.from("text\0\0\0\0icc " + seed + "\0", "latin1");
  const n = 128 + 4 + 12;
  const b = Buffer.alloc(n + txt.length);
  b.writeUInt32BE(b.length, 0);
  b.write("ADBE", 4);
  b.writeUInt32BE(0x02100000, 8);
  b.write("mntrRGB XYZ ", 12);
  b.write("acspAPPL", 36);
  b.writeUInt32BE(1, 128);
  b.write("cprt", 132);
  b.writeUInt32BE(n, 136);
  b.writeUInt32BE(txt.length, 140);
  txt.copy(b, n);
  return b;
}
const POOL = { jpg: { ...TAGS, ...EXIF, ...IPTC }, png: { ...TAGS, ...EXIF }, tif: { ...TAGS, ...EXIF, ...IPTC }, mie: { ...TAGS, ...EXIF }, xmp: TAGS };
// ExifTool's own bookkeeping, groups' mandatory tags, and what describes the image itself
const INTRINSIC = /^(XMP-x:XMPToolkit|Photoshop:IPTCDigest|IPTC:(ApplicationRecordVersion|EnvelopeRecordVersion|CodedCharacterSet)|JFIF:.*|IFD[01]:YCbCrPositioning|IFD[01]:[XY]Resolution|IFD[01]:ResolutionUnit|IFD1:Compression|ExifIFD:(ExifVersion|ComponentsConfiguration|ColorSpace|FlashpixVersion)|GPS:GPSVersionID|PNG:.*|APP14:.*)$/;
const TIFFISH = /^IFD0:/; // ExifTool can't delete IFD0 of a TIFF
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const image = (kind, f, hash) => (kind === "jpg" ? sha(J.imageData(fs.readFileSync(f))) : kind === "png" ? sha(P.imageData(fs.readFileSync(f))) : hash);

module.exports = {
  technique: "directory-snapshot monitor around modifying calls on real ExifTool, with image bytes and an independent ExifTool session as observers",
  level: "exploration",
  rule: "a modifying call, distinct by operation, file kind, file name, tags or retain list, backup state, options and outcome",
  assumptions: [
    "Retained tags are named with their group, so that it is clear which value has to stay; unqualified names are judged only by value.",
    "Tags ExifTool cannot delete (a TIFF's IFD0, a PNG's header) or adds by itself are not judged.",
    "deleteAllTags() documents that it keeps a backup, whatever the instance's write arguments.",
    "Killed children are C03's subject: no child dies here.",
  ],
  shards: (tier) => Array.from({ length: tier === "quick" ? 6 : 8 }, (_, k) => ({ name: k % 3 === 2 ? "concurrent" : "serial", k })),
  minimums: () => ({ evaluations: 600, "oracle:backup-has-previous-contents": 120, "oracle:existing-backup-kept": 20, "oracle:rejected-changes-nothing": 80, "oracle:image-data-kept": 150, "oracle:others-untouched": 300, "oracle:deleted": 60, "oracle:retained": 60, "oracle:rewrite-keeps-metadata": 40, "oracle:rewrite-refuses-existing": 12, "op:write": 80, "op:editTags": 40, "op:deleteAllTags": 80, "op:rewriteAllTags": 60, "case:profile-or-unsafe": 40 }),
  async run(ctx) {
    const { rng } = ctx;
    const raw = new RawExif();
    const width = ctx.shard.name === "serial" ? 1 : 4;
    const over = rng.bool(0.3);
    const et = new ctx.lib.ExifTool({ maxProcs: width === 1 ? 1 : 3, taskTimeoutMillis: 60000, ...(over ? { writeArgs: ["-overwrite_original"] } : {}) });
    try {
      const deadline = Date.now() + ctx.n(40, 240) * 1000;
      for (let n = 0; n < ctx.n(44, 400) && Date.now() < deadline; n++) await session(ctx, et, raw, width, over);
    } finally {
      raw.end();
      await settle(et.end(), 30000);
    }
  },
};

async function mkFile(ctx, raw, dir, i) {
  const { rng } = ctx;
  const kind = rng.weighted([[5, "jpg"], [2, "png"], [2, "tif"], [2, "xmp"], [2, "mie"]]);
  const stem = rng.bool(0.4) ? "f" : rng.pick(["sp ace", "100%", "a%f", "%d", "x%c", "%-.2f%E", "-dash", "é漢", "'q", "a&amp;b", "$x", ".hidden", "a_original", "[b]", "UPPER", G.filename(rng)]);
  const file = path.join(dir, stem.slice(0, 60).replace(/\p{Cs}/gu, "") + i + "." + kind);
  if (BLANK[kind]) fs.writeFileSync(file, BLANK[kind](file));
  const tags = {};
  for (const t of rng.sample(Object.keys(POOL[kind]), rng.int(2, 12))) tags[t] = POOL[kind][t];
  if (tags["GPS:GPSLatitude"] || tags["GPS:GPSLatitudeRef"]) for (const k of ["GPS:GPSLatitude", "GPS:GPSLatitudeRef"]) tags[k] = EXIF[k];
  const j = path.join(dir, "seed.json");
  fs.writeFileSync(j, JSON.stringify([{ SourceFile: "*", ...tags }]));
  // what a plain copy of all tags leaves out: the colour profile, the thumbnail and tags that go with the image's encoding
  const more = [];
  const blob = path.join(dir, "seed.blob"), small = path.join(dir, "seed.small");
  if (kind === "jpg" && rng.bool(0.35)) {
    fs.writeFileSync(blob, icc(rng.next()));
    fs.writeFileSync(small, J.jpeg({ seed: "thumb" + rng.next() }));
    more.push(...rng.sample(["-ICC_Profile<=" + blob, "-IFD0:YCbCrCoefficients=0.299 0.587 0.114", "-IFD1:ThumbnailImage<=" + small, "-IFD0:ReferenceBlackWhite=0 255 128 255 128 255"], rng.int(1, 4)));
    ctx.count("case:profile-or-unsafe");
  }
  const r = await raw.run(["-json=" + j, "-struct", ...more, "-overwrite_original", file]);
  fs.rmSync(j);
  fs.rmSync(blob, { force: true });
  fs.rmSync(small, { force: true });
  if (!/created|updated/.test(r.out + r.err)) throw Object.assign(new Error("seed failed: " + JSON.stringify([file, r])), { harness: true });
  if (rng.bool(0.2)) fs.writeFileSync(file + "_original", "an older backup " + rng.next());
  return { file, kind };
}

async function session(ctx, et, raw, width, over) {
  const { rng } = ctx;
  const dir = ctx.tmpdir("c17");
  const files = [];
  for (let i = 0; i < Math.max(2, width); i++) files.push(await mkFile(ctx, raw, dir, i));
  fs.writeFileSync(path.join(dir, "bystander.txt"), "leave me alone");
  fs.mkdirSync(path.join(dir, "sub"));
  fs.writeFileSync(path.join(dir, "sub", path.basename(files[0].file)), "namesake");
  for (let step = 0; step < 4; step++) {
    const ops = [];
    for (const f of width === 1 ? [rng.pick(files)] : files) ops.push(await plan(ctx, raw, dir, f));
    const before = snapshot(dir);
    const results = await Promise.all(ops.map((o) => settle(o.call(et))));
    const after = snapshot(dir);
    const changes = diff(before, after);
    const owned = new Set();
    for (let i = 0; i < ops.length; i++) {
      const o = ops[i], r = results[i];
      const mine = [o.target, o.target + "_original"].map((p) => path.relative(dir, p));
      mine.forEach((m) => owned.add(m));
      if (o.shape === "nested") for (let p = path.dirname(mine[0]); p !== "."; p = path.dirname(p)) owned.add(p + "/");
      await judge(ctx, raw, dir, o, r, before, after, changes.filter(([k]) => mine.includes(k)), over);
    }
    const foreign = changes.filter(([k]) => !owned.has(k));
    ctx.check(foreign.length === 0, "others-untouched", ops.map((o) => o.op).join("+"), () => ({ ops: ops.map((o) => o.show), foreign, results: results.map((r) => [r.status, String(r.reason ?? "")]) }));
  }
  fs.rmSync(dir, { recursive: true, force: true });
}

const HASH = ["-api", "requesttags=imagedatahash", "-s3", "-ImageDataHash"];
async function plan(ctx, raw, dir, { file, kind }) {
  const { rng } = ctx;
  const op = rng.weighted([[4, "write"], [2, "editTags"], [4, "deleteAllTags"], [3, "rewriteAllTags"]]);
  const o = { op, file, kind, target: file, valid: true };
  o.exists = fs.existsSync(file);
  // hostile states of the file
  const hostile = rng.bool(0.2) ? rng.pick(["missing", "text", "empty", "tmp-exists", "directory", "no-dir"]) : undefined;
  if (hostile) {
    o.valid = false;
    o.hostile = hostile;
    const stem = path.join(dir, "h" + rng.int(0, 1e6));
    o.file = o.target = stem + "." + (hostile === "missing" ? rng.pick(["jpg", "png", "tif"]) : rng.pick(["jpg", "png", "tif", "mie", "xmp"]));
    if (hostile === "text") fs.writeFileSync(o.file, "this is no image\n");
    if (hostile === "empty") fs.writeFileSync(o.file, "");
    if (hostile === "directory") fs.mkdirSync(o.file);
    if (hostile === "no-dir") o.file = o.target = path.join(dir, "nosuchdir", "x.jpg");
    if (hostile === "tmp-exists") {
      o.kind = path.extname(file).slice(1);
      o.file = o.target = stem + "." + o.kind;
      fs.copyFileSync(file, o.file);
      fs.writeFileSync(o.file + "_exiftool_tmp", "stale");
    }
  } else if (o.exists) {
    o.dump = await raw.dump(file);
    o.image = image(kind, file, (await raw.run([...HASH, file])).out.trim());
  }
  const args = rng.weighted([[5, undefined], [2, ["-overwrite_original"]], [1, ["-overwrite_original_in_place"]], [1, []], [1, ["-P"]]]);
  o.args = args;
  const noise = rng.pick([undefined, {}, { ignoreMinorErrors: true }]);
  if (op === "write") {
    const empty = rng.bool(0.12);
    const names = empty ? [] : rng.sample(Object.keys(POOL[o.kind ?? "jpg"] ?? TAGS), rng.int(1, 3));
    o.tags = {};
    for (const t of names) o.tags[t] = rng.bool(0.2) ? null : typeof TAGS[t] === "string" || ["IFD0:Make", "IFD0:Model", "ExifIFD:LensModel", "IPTC:City"].includes(t) ? G.word(rng) : (TAGS[t] ?? EXIF[t] ?? IPTC[t]);
    if (o.tags["XMP-xmp:CreateDate"]) o.tags["XMP-xmp:CreateDate"] = "2021:02";
    if (rng.bool(0.15)) {
      const [k, v] = rng.pick([["NoSuchTagAtAll", "x"], ["IFD0:Orientation", "sideways"], ["ExifIFD:DateTimeOriginal", "not a date"], ["XMP-xmp:Rating", "many"], ["bad tag\n-o", "x"]]);
      o.tags[k] = v;
      o.odd = true;
    }
    if (Object.keys(o.tags).length === 0) o.noop = true;
    const form = args && rng.bool(0.3) ? "deprecated" : "options";
    o.call = (et) => (form === "deprecated" ? et.write(o.file, o.tags, args, noise) : et.write(o.file, o.tags, args ? { ...noise, writeArgs: args } : noise));
  } else if (op === "editTags") {
    o.edits = rng.times(rng.int(1, 3), () => ({ tag: rng.pick(["XMP-dc:Subject", "XMP-iptcExt:PersonInImage"]), operation: rng.pick(["add", "remove"]), value: rng.pick(["s1", "s, 2", "p1", "new", G.word(rng)]) }));
    if (rng.bool(0.1)) (o.edits.push({ tag: "XMP-dc:Nope", operation: "add", value: "x" }), (o.odd = true));
    if (new Set(o.edits.map((e) => e.tag + e.value)).size < o.edits.length) o.odd = true; // may conflict
    o.call = (et) => et.editTags(o.file, o.edits, args ? { ...noise, writeArgs: args } : noise);
  } else if (op === "deleteAllTags") {
    const all = Object.keys(POOL[o.kind] ?? TAGS);
    o.args = undefined;
    o.retain = rng.bool(0.25) ? undefined : rng.sample(all, rng.int(0, 4));
    if (o.retain && rng.bool(0.15)) o.retain = rng.sample(["Title", "Make", "LensModel", "Headline", "Rating", "Orientation", "ISO"], rng.int(1, 3));
    if (o.retain?.some((t) => /GPSLat/.test(t))) o.retain = [...new Set([...o.retain, "GPS:GPSLatitude", "GPS:GPSLatitudeRef"])];
    if (rng.bool(0.1)) (o.retain = [...(o.retain ?? []), rng.pick(["NoSuchTagAtAll", "bad tag", "x=y", "a\nb", ""])]), (o.odd = true);
    // a MIE without any tag can't be written
    if (kind === "mie") o.odd = true;
    o.call = (et) => (o.retain ? et.deleteAllTags(o.file, { ...noise, retain: o.retain }) : rng.bool() ? et.deleteAllTags(o.file) : et.deleteAllTags(o.file, {}));
  } else {
    o.source = o.file;
    const shape = rng.weighted([[5, "new"], [2, "exists"], [1, "is-source"], [1, "nested"], [1, "no-dir-slash"]]);
    o.shape = shape;
    const ext = path.extname(o.file);
    let dest = path.join(dir, rng.pick(["out", "o u t", "100%", "a%f", "-o", "ö", "%%d"]) + rng.int(0, 1e6) + ext);
    if (shape === "exists") fs.writeFileSync(dest, "precious " + rng.next());
    if (shape === "is-source" && fs.existsSync(o.file)) dest = o.file;
    if (shape === "nested") dest = path.join(dir, "n" + rng.int(0, 1e6), "deep", path.basename(dest));
    o.target = dest;
    o.blocked = fs.existsSync(dest);
    const repair = rng.pick([undefined, {}, { allowMakerNoteRepair: true }, { allowMakerNoteRepair: false }]);
    o.call = (et) => et.rewriteAllTags(o.file, dest, repair);
  }
  o.show = { op, file: path.basename(o.file), kind: o.kind, hostile: o.hostile, args: o.args, tags: o.tags, edits: o.edits, retain: o.retain, dest: o.op === "rewriteAllTags" ? path.relative(dir, o.target) : undefined, shape: o.shape };
  ctx.count("op:" + op);
  return o;
}

async function judge(ctx, raw, dir, o, r, before, after, changes, over) {
  const rel = path.relative(dir, o.target);
  const orig = rel + "_original";
  const d = (more) => () => ({ ...o.show, status: r.status, value: r.value, reason: String(r.reason ?? ""), changes, ...more });
  ctx.saw(JSON.stringify([o.show, r.status, orig in before, over]), { ...o.show, status: r.status, value: r.value });
  ctx.count("status:" + r.status);
  if (r.status !== "fulfilled") {
    ctx.check(r.status === "rejected" && r.reason instanceof Error, "settles-with-an-error", o.op, d());
    // a rewrite may leave the directory it was to write to
    ctx.check(changes.length === 0, "rejected-changes-nothing", `${o.op} ${o.hostile ?? (o.odd ? "odd" : "valid")}`, d());
    if (o.op === "rewriteAllTags" && o.blocked) ctx.check(true, "rewrite-refuses-existing", o.kind);
    else ctx.check(!o.valid || o.odd || (o.noop && !o.exists), "valid-call-succeeds", `${o.op} ${o.kind}`, d());
    return;
  }
  if (o.op === "rewriteAllTags") {
    ctx.check(!o.blocked, "rewrite-refuses-existing", `${o.kind} ${o.shape}`, d());
    ctx.check(changes.length === 1 && changes[0][0] === rel && changes[0][1] === "absent", "rewrite-creates-only-output", o.shape, d());
    if (o.dump) {
      const got = fs.existsSync(o.target) ? await raw.dump(o.target) : {};
      const keys = new Set([...Object.keys(o.dump), ...Object.keys(got)]);
      const bad = [...keys].filter((k) => !INTRINSIC.test(k) && !/Offsets?$/.test(k) && !same(o.dump[k], got[k])).map((k) => [k, o.dump[k], got[k]]);
      ctx.check(bad.length === 0, "rewrite-keeps-metadata", `${o.kind} ${bad[0]?.[0]}`, d({ bad }));
      ctx.check(image(o.kind, o.target, (await raw.run([...HASH, o.target])).out.trim()) === o.image, "image-data-kept", `rewrite ${o.kind}`, d());
    }
    return;
  }
  const v = r.value;
  const files = v.created + v.updated + v.unchanged;
  ctx.check(files === 1 || (files === 0 && (!o.valid || o.odd)), "one-file-counted", o.op, d());
  if (v.created + v.updated === 0) {
    ctx.check(changes.length === 0, "unchanged-changes-nothing", o.op, d());
    return;
  }
  if (v.created === 1) {
    ctx.check(!(rel in before) && changes.length === 1 && rel in after, "created-was-absent", o.op, d());
    return;
  }
  ctx.check(rel in before && rel in after, "updated-stays-in-place", o.op, d());
  const told = (o.args ?? (over && o.op !== "deleteAllTags" ? ["-overwrite_original"] : [])).some((a) => a.startsWith("-overwrite_original"));
  if (!(over && o.op === "deleteAllTags")) {
    if (orig in before) ctx.check(after[orig] === before[orig], "existing-backup-kept", o.op, d());
    else if (told) ctx.check(!(orig in after), "no-backup-if-told", `${o.op} ${o.args}`, d());
    else ctx.check(after[orig] === before[rel], "backup-has-previous-contents", `${o.op} ${o.kind}`, d({ orig: after[orig], prev: before[rel] }));
  }
  if (!o.dump) return;
  const now = await raw.dump(o.target);
  ctx.check(image(o.kind, o.target, (await raw.run([...HASH, o.target])).out.trim()) === o.image, "image-data-kept", `${o.op} ${o.kind}`, d());
  if (o.op === "deleteAllTags") {
    const retain = o.retain ?? [];
    const qualified = retain.every((t) => t.includes(":"));
    if (qualified && !o.odd) {
      const left = Object.keys(now).filter((k) => !retain.includes(k) && !INTRINSIC.test(k) && !(o.kind === "tif" && TIFFISH.test(k)));
      ctx.check(left.length === 0, "deleted", `${o.kind} ${left[0]}`, d({ left }));
    }
    for (const t of retain) {
      if (t.includes(":")) ctx.check(same(now[t], o.dump[t]), "retained", `${o.kind} ${t}`, d({ tag: t, was: o.dump[t], is: now[t] }));
      else if (!o.odd) {
        const pick = (x) => Object.entries(x).filter(([k]) => k.split(":")[1] === t).map(([, val]) => val);
        const was = pick(o.dump), is = pick(now);
        if (was.length === 1) ctx.check(is.some((x) => same(x, was[0])), "retained", `${o.kind} unqualified ${t}`, d({ tag: t, was, is }));
      }
    }
  } else {
    // nothing but what was asked for changes
    const asked = new Set(o.op === "write" ? Object.keys(o.tags) : o.edits.map((e) => e.tag));
    const bad = [...new Set([...Object.keys(o.dump), ...Object.keys(now)])].filter((k) => !asked.has(k) && !INTRINSIC.test(k) && !/Offsets?$/.test(k) && !same(o.dump[k], now[k]));
    ctx.check(bad.length === 0, "unrelated-tags-kept", `${o.op} ${o.kind} ${bad[0]}`, d({ bad: bad.map((k) => [k, o.dump[k], now[k]]) }));
  }
}
