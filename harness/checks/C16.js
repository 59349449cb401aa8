"use strict";
// C16: extraction of embedded binaries by real ExifTool from files built here, so the embedded
// bytes are known. The whole scratch directory is snapshotted (names and bytes) around every call.
const fs = require("node:fs");
const path = require("node:path");
const crypto = require("node:crypto");
const { settle, pool } = require("../lib/ctx.js");
const J = require("../lib/jpeg.js");
const G = require("../lib/gen.js");
const { RawExif } = require("../lib/rawexif.js");

function bytes(seed, n) {
  const out = [];
  for (let i = 0, have = 0; have < n; i++) {
    const h = crypto.createHash("sha512").update(seed + "/" + i).digest();
    out.push(h);
    have += h.length;
  }
  return Buffer.concat(out).subarray(0, n);
}
/** image-like bytes with every byte value, line breaks, NULs, markers, truncated UTF-8 */
function image(rng, n) {
  const seed = String(rng.next());
  const body = rng.pick([
    () => bytes(seed, n),
    () => Buffer.concat([bytes(seed, n >> 1), Buffer.from("\n{ready}\n\r\n\0\0"), bytes(seed + "b", n >> 1)]),
    () => Buffer.from("plain text body ".repeat(Math.ceil(n / 16))).subarray(0, n),
    () => Buffer.alloc(n, rng.pick([0, 10, 13, 32, 255, 0xc3])),
  ])();
  return Buffer.concat([Buffer.from([0xff, 0xd8, 0xff, rng.pick([0xdb, 0xe0, 0xe1])]), body, Buffer.from(rng.pick([[0xff, 0xd9], [0xff, 0xd9, 0x0a], [0x20], [0x0d, 0x0a]]))]);
}
function snapshot(dir) {
  const out = {};
  const walk = (d) => {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      const p = path.join(d, e.name);
      if (e.isDirectory()) {
        out[path.relative(dir, p) + "/"] = "directory";
        walk(p);
      }
      else out[path.relative(dir, p)] = e.isSymbolicLink() ? "-> " + fs.readlinkSync(p) : crypto.createHash("sha1").update(fs.readFileSync(p)).digest("hex");
    }
  };
  walk(dir);
  return out;
}
const diff = (a, b) => {
  const out = [];
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) if (a[k] !== b[k]) out.push([k, a[k] ?? "absent", b[k] ?? "absent"]);
  return out;
};

module.exports = {
  technique: "directory-snapshot monitor around extraction calls on real ExifTool, against embedded bytes known by construction",
  level: "exploration",
  rule: "an extraction call, distinct by method and tag spelling, container, payload kind and size class, destination state, options and outcome",
  assumptions: ["Payloads that do not start like a JPEG are a minor error to ExifTool: they are expected unless minor errors are not to be ignored.", "Two extractions to the same new file at once are not judged (ExifTool's own existence check decides).", "Output paths with ExifTool copy-number codes may be refused."],
  shards: (tier) => Array.from({ length: tier === "quick" ? 5 : 8 }, (_, k) => ({ name: k % 2 ? "concurrent" : "serial", k })),
  minimums: () => ({ evaluations: 800, "oracle:extracted-bytes": 150, "oracle:buffer-bytes": 100, "oracle:existing-untouched": 80, "oracle:nothing-left-behind": 100, "dest:exists": 60, "dest:force": 30, "src:none": 60, "src:odd": 100, "src:missing": 30 }),
  async run(ctx) {
    const rng = ctx.rng;
    const raw = new RawExif();
    const et = new ctx.lib.ExifTool({ maxProcs: ctx.shard.name === "serial" ? 1 : 3, taskRetries: rng.pick([0, 1]), taskTimeoutMillis: 60000 });
    try {
      const srcs = await sources(ctx, raw);
      const jobs = rng.times(ctx.n(320, 2000), (i) => i);
      await pool(jobs, ctx.shard.name === "serial" ? 1 : 6, () => one(ctx, et, srcs));
    } finally {
      raw.end();
      await settle(et.end(), 30000);
    }
  },
};

async function sources(ctx, raw) {
  const rng = ctx.rng;
  const dir = ctx.tmpdir("c16src");
  const out = [];
  const add = (name, buf, has, container) => {
    const f = path.join(dir, name);
    if (buf) fs.writeFileSync(f, buf);
    out.push({ f, has, container });
  };
  for (let i = 0; i < 6; i++) {
    const t = image(rng, rng.pick([4, 60, 300, 5000, 40000]));
    add(`thumb${i}${rng.pick(["", " sp", "é漢", "%d", "'q"])}.jpg`, J.jpeg({ seed: "s" + i, segments: [J.exifSegment(J.tiff({ ifd0: { 0x10f: J.ascii("Maker") }, thumb: t }))] }), { ThumbnailImage: t }, "jpeg");
  }
  for (let i = 0; i < 5; i++) {
    const has = {};
    const args = [];
    const mie = path.join(dir, `m${i}.mie`);
    for (const tag of rng.sample(["ThumbnailImage", "PreviewImage", "FullSizeImage"], rng.int(1, 3))) {
      has[tag] = image(rng, rng.pick([10, 2000, 70000, 400000, ctx.n(1500000, 8000000)]));
      const p = path.join(dir, `p${i}${tag}.bin`);
      fs.writeFileSync(p, has[tag]);
      args.push(`-MIE:${tag}<=${p}`);
    }
    const r = await raw.run(["-o", mie, ...args]);
    if (!fs.existsSync(mie)) throw new Error("could not build " + mie + ": " + r.err + r.out);
    out.push({ f: mie, has, container: "mie" });
  }
  add("plain.jpg", J.jpeg({ seed: "p" }), {}, "none");
  // payloads that aren't images are a minor error to ExifTool
  ["not an image at all", "base64:aGVsbG8=", "12345", "-0.5", "true", "caf\u00e9 \u6f22", "a\0b", "null", " x ", "[1]", "{}", "\n\r\n", '"', "\\"].forEach((t, i) => {
    const thumb = Buffer.from(t);
    add(`odd${i}.jpg`, J.jpeg({ seed: "b", segments: [J.exifSegment(J.tiff({ ifd0: { 0x10f: J.ascii("Maker") }, thumb }))] }), { ThumbnailImage: thumb }, "odd");
  });
  add("text.jpg", Buffer.from("this is not an image"), {}, "broken");
  add("empty.jpg", Buffer.alloc(0), {}, "broken");
  add("gone.jpg", null, {}, "missing");
  return out;
}

async function one(ctx, et, srcs) {
  const rng = ctx.rng;
  const dir = ctx.tmpdir("c16");
  const from = rng.weighted([[6, null], [2, "odd"], [1, "none"], [1, "missing"], [1, "broken"]]);
  const s0 = rng.pick(srcs.filter((x) => (from ? x.container === from : /^(jpeg|mie)$/.test(x.container))));
  // a source of its own, so that any change to it is this call's doing
  const src = path.join(dir, "src" + rng.pick(["", " a", "é", "%f", "&", "'"]) + path.extname(s0.f));
  if (s0.container !== "missing") fs.copyFileSync(s0.f, src);
  const tag = (from == null || from === "odd") && rng.bool(0.85) ? rng.pick(Object.keys(s0.has)) : rng.pick(["ThumbnailImage", "PreviewImage", "JpgFromRaw", "FullSizeImage", "OtherImage"]);
  const opts = rng.pick([undefined, {}, { ignoreMinorErrors: true }, { ignoreMinorErrors: false }]);
  const want = s0.container === "odd" && opts?.ignoreMinorErrors === false ? undefined : s0.has[tag];
  const shape = rng.pick(["new", "new", "new", "new", "exists", "exists", "exists", "force", "force-new", "nested", "directory", "is-source", "symlink", "same-bytes"]);
  // names with copy-number codes may be refused, but never become other names
  const coded = rng.bool(0.06);
  let dest = path.join(dir, coded ? rng.pick(["out%c.jpg", "out%-c.jpg", "%3c.jpg", "a%-.3nc.jpg", "a%+c", "x%2uc.jpg", "x%lc.jpg", "%C.jpg", "a%:2c.jpg", "out%-.4c.jpg", "a%+3nc.jpg"]) : rng.pick(["out.jpg", "out", "o u t.jpg", "-out.jpg", "%f.jpg", "100%.jpg", "%%.d", "a%-.3f.jpg", "ö漢🎉.jpg", "'q\".jpg", ".hidden", "$PATH;x.jpg", "a&#38;b.jpg", "OUT.JPG", G.filename(rng).replace(/[%/\r\n\0]/g, "_") || "x"]));
  const force = shape.startsWith("force");
  const existing = bytes("old" + rng.next(), rng.bool(0.25) ? 0 : rng.int(1, 3000));
  if (dest === src) dest += "x";
  if (shape === "exists" || shape === "force") fs.writeFileSync(dest, existing);
  if (shape === "same-bytes") fs.writeFileSync(dest, want ?? existing);
  if (shape === "nested") dest = path.join(dir, rng.pick(["n1", "50% off", "%f", "é"]), "n 2", path.basename(dest));
  if (shape === "directory") fs.mkdirSync(dest);
  if (shape === "is-source") dest = src;
  if (shape === "symlink") {
    fs.writeFileSync(path.join(dir, "target.bin"), existing);
    fs.symlinkSync("target.bin", dest);
  }
  fs.writeFileSync(path.join(dir, "bystander.jpg"), bytes("by" + rng.next(), 200));
  const before = snapshot(dir);
  const blocked = fs.existsSync(dest) && shape !== "force";
  ctx.count("dest:" + (shape === "force" ? "force" : blocked ? "exists" : "new"));
  ctx.count("src:" + s0.container);
  const rel = rng.bool(0.15);
  const P = (p) => (rel ? path.relative(process.cwd(), p) : p);
  const fopts = force ? { ...opts, forceWrite: true } : rng.bool(0.2) ? { ...opts, forceWrite: false } : opts;
  const helper = { ThumbnailImage: "extractThumbnail", PreviewImage: "extractPreview", JpgFromRaw: "extractJpgFromRaw" }[tag];
  const method = rng.bool(0.25) ? "buffer" : helper && rng.bool(0.5) ? helper : "extractBinaryTag";
  const spelled = method === helper ? tag : rng.weighted([[6, tag], [1, tag.toLowerCase()], [1, tag.toUpperCase()]]);
  const det = (r, more) => () => ({ method, tag: spelled, container: s0.container, src, dest, shape, fopts, want: want?.length, status: r.status, reason: String(r.reason), ...more });
  if (method === "buffer") {
    const r = await settle(et.extractBinaryTagToBuffer(spelled, P(src), opts));
    ctx.saw(`buffer/${spelled}/${s0.f}/${tag}/${JSON.stringify(opts)}/${rel}/${r.status}`, { method, tag: spelled, container: s0.container, bytes: want?.length, status: r.status });
    ctx.check(diff(before, snapshot(dir)).length === 0, "buffer-writes-nothing", spelled, det(r));
    if (want) ctx.check(r.status === "fulfilled" && Buffer.isBuffer(r.value) && r.value.equals(want), "buffer-bytes", `${s0.container} ${tag}`, det(r, { got: r.value?.length }));
    else ctx.check(r.status === "rejected" && r.reason instanceof Error, "missing-rejects", `buffer ${s0.container}`, det(r));
    return;
  }
  const p = method === "extractBinaryTag" ? et.extractBinaryTag(spelled, P(src), P(dest), fopts) : et[method](P(src), P(dest), fopts);
  const r = await settle(p);
  const after = snapshot(dir);
  const relDest = path.relative(dir, dest);
  const changes = diff(before, after).filter(([k]) => !(k.endsWith("/") && relDest.startsWith(k)));
  ctx.saw(`${method}/${spelled}/${s0.f}/${shape}/${path.basename(dest)}/${JSON.stringify(fopts)}/${rel}/${r.status}`, { method, tag: spelled, container: s0.container, shape, bytes: want?.length, status: r.status });
  const d = det(r, { changes });
  if (coded && r.status === "rejected") {
    ctx.check(changes.length === 0, "nothing-left-behind", `${method} refused name`, d);
    ctx.count("case:refused-name");
    fs.rmSync(dir, { recursive: true, force: true });
    return;
  }
  if (want && !blocked) {
    const ok = r.status === "fulfilled" && fs.existsSync(dest) && fs.readFileSync(dest).equals(want);
    ctx.check(ok, "extracted-bytes", `${method} ${s0.container} ${shape}`, d);
    ctx.check(changes.every(([k]) => k === relDest), "only-destination-changes", `${method} ${shape}`, d);
  } else {
    ctx.check(r.status === "rejected" && r.reason instanceof Error, blocked ? "existing-rejects" : "missing-rejects", `${method} ${s0.container} ${shape}`, d);
    if (blocked) ctx.check(changes.length === 0, "existing-untouched", `${method} ${shape}`, d);
    else if (shape === "force") ctx.check(changes.every(([k]) => k === relDest), "only-destination-changes", `${method} ${shape}`, d);
    else ctx.check(changes.length === 0, "nothing-left-behind", `${method} ${s0.container} ${shape}`, d);
  }
  ctx.check(before[path.relative(dir, src)] === after[path.relative(dir, src)], "source-unmodified", method, d);
  fs.rmSync(dir, { recursive: true, force: true });
}
