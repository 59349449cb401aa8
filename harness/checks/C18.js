"use strict";
// C18: every operation against a stand-in child that emits known errors, warnings, status lines
// and reports (or dies); the outcome has to be the one those streams state.
const path = require("node:path");
const { settle, pool } = require("../lib/ctx.js");
const { FakeFleet, fastOptions, READY } = require("../lib/fake.js");
const G = require("../lib/gen.js");
const J = require("../lib/jpeg.js");
const fs = require("node:fs");

const clean = (s) => s.replace(/[\s\0]+/g, " ").trim();
/** texts that look like something else: paths and values quoted in messages */
const ODD = ["/photos/warning: x.jpg", "a nothing to do b", "Nothing to write", "Error: nested", "minor", "[minor] Bad", "error", "1 image files updated", "weren't updated", "{ready}", "&#39;", "Can't convert", "0", "undefined", "null", "é漢🎉", "not found - /x/Warning: y", "/x/Can't locate Foo.pm in @INC.jpg", "Can't locate Image/Foo.pm in @INC (x)"];
// what ExifTool says in practice
const REAL = ["[minor] Possibly incorrect maker notes offsets (fix by -340?)", "[minor] Suspicious MakerNotes offset for tag 0x0001", "[minor] Adjusted MakerNotes base by 12", "[minor] Unrecognized MakerNotes", "[minor] Error reading PreviewImage from file", "[Minor] Ignored empty rdf:Bag list for Iptc4xmpExt:LocationCreated", "[minor] Bad format (0) for ExifIFD entry 3", "[Minor] Duplicate GPS tag", "[minor] File contains multi-segment EXIF", "[minor] Fixed incorrect URI for xmlns:MicrosoftPhoto", "Invalid EXIF text encoding for UserComment", "Non-standard header for APP1 XMP segment", "IPTCDigest is not current. XMP may be out of sync", "Duplicate XMP-dc:Title", "Some character(s) could not be encoded in Latin", "FileName encoding not specified", "JPEG EOI marker not found", "Truncated PreviewIFD directory. May be corrupted", "No writable tags set from x.jpg", "Not a valid JPG (looks more like a PNG)", "Format error in file", "File format error", "File is empty", "Writing of this type of file is not supported", "Sorry, x.cr9 writing is not supported", "Error reading OtherImageStart data in IFD0", "MakerNotes data could not be deleted", "Can't delete IFD0 from TIFF", "Processing JPEG-like data after unknown 5-byte header", "Entire file is binary zeros", "First 64 kB of file is binary zeros", "Unknown file type", "x.jpg: deep recursion LIMIT REACHED", "The ExtractEmbedded option may find more tags in the media data", "[minor] The ExtractEmbedded option may find more tags in the media data", "Install Digest::SHA to calculate image data SHA256", "Bad PrintIM data", "Undefined value", "Can't open file", "Permission denied"];
const msg = (rng, tag) => clean((rng.bool(0.4) ? rng.pick(REAL) + " " + tag : rng.pick(["File not found", "Bad IFD0 directory", "Tag 'x' is not defined", "Unknown file type", "Temporary file already exists", "Can't write", "", "[minor] Truncated", "Sorry"]) + " " + tag) + " - " + (rng.bool(0.5) ? rng.pick(ODD) : G.text(rng, { max: 2 }))) || tag;

function chunks(rng, kind, text) {
  const b = Buffer.from(text);
  const out = [];
  let i = 0;
  while (i < b.length) {
    let n = rng.bool(0.6) ? b.length : rng.int(1, 12);
    // batch-cluster ignores error-stream chunks that are blank; ExifTool writes whole lines
    const letter = (k) => /[a-z]/i.test(String.fromCharCode(b[k] ?? 0x61));
    const inside = (k) => (b[k] & 0xc0) === 0x80; // (of a character)
    while (kind === "err" && i + n < b.length && !inside(i + n) && !(letter(i + n - 1) && letter(i + n))) n++;
    out.push({ [kind]: b.subarray(i, i + n).toString("base64"), b64: true });
    i += n;
    if (out.length > 20) {
      if (i < b.length) out.push({ [kind]: b.subarray(i).toString("base64"), b64: true });
      break;
    }
    if (rng.bool(0.1)) out.push({ sleep: rng.int(1, 8) });
  }
  return out;
}

module.exports = {
  technique: "stream-to-outcome monitor: every public operation against a stand-in ExifTool whose errors, warnings, status lines and deaths are known; plus real ExifTool failures",
  level: "exploration",
  rule: "one operation with one combination of standard-output and error-stream texts, chunkings and orders; distinct by those",
  assumptions: [
    'Error-stream lines follow ExifTool\'s convention ("Error: …", "Warning: …", "Nothing to do."); "Error: Nothing to write" counts as a warning, as documented by the existing tests.',
    "The library's own notes about unexpected status lines may be listed among a write's warnings.",
    "All of a command's error stream precedes its {ready}, as with ExifTool.",
  ],
  shards: (tier) => [...Array.from({ length: tier === "quick" ? 5 : 7 }, (_, k) => ({ name: "fake", k })), ...Array.from({ length: tier === "quick" ? 2 : 6 }, (_, k) => ({ name: "busy", k })), { name: "perl" }, { name: "real" }],
  minimums: () => ({ evaluations: 3000, "oracle:error-rejects": 500, "oracle:rejects-with-message": 500, "oracle:read-lists-errors": 150, "oracle:read-lists-warnings": 150, "oracle:write-counts": 300, "oracle:write-lists-warnings": 300, "oracle:warnings-only-fulfil": 400, "oracle:dead-child-rejects": 100, "oracle:bad-output-rejects": 300, "oracle:real": 40, "oracle:busy-host": 800, "oracle:missing-module-rejects": 60, "oracle:missing-module-then-fine": 60 }),
  async run(ctx) {
    await { real, fake, busy, perl }[ctx.shard.name](ctx);
  },
};

const OPS = ["read", "readRaw", "write", "editTags", "deleteAllTags", "extractBinaryTag", "buffer", "rewriteAllTags"];
function invoke(et, op, file, dir, opts) {
  switch (op) {
    case "read":
      return et.read(file, opts);
    case "readRaw":
      return et.readRaw(file, opts);
    case "write":
      return et.write(file, { "XMP:Title": "x" }, opts);
    case "editTags":
      return et.editTags(file, [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }], opts);
    case "deleteAllTags":
      return et.deleteAllTags(file, opts);
    case "extractBinaryTag":
      return et.extractBinaryTag("ThumbnailImage", file, path.join(dir, "out"), opts);
    case "buffer":
      return et.extractBinaryTagToBuffer("ThumbnailImage", file, opts);
    case "rewriteAllTags":
      return et.rewriteAllTags(file, path.join(dir, "out.jpg"), opts);
  }
}

async function fake(ctx) {
  const { rng } = ctx;
  const dir = ctx.tmpdir("c18");
  const scripts = new Map();
  const fleet = new FakeFleet(
    (c) => {
      const file = c.args.findLast((a) => a.startsWith("/nowhere/"));
      const s = scripts.get(file);
      return s ? s() : [{ out: "13.59\n" + READY }];
    },
    { keepLog: false },
  );
  const et = new ctx.lib.ExifTool(fastOptions(fleet, { maxProcs: 3, taskRetries: rng.pick([0, 1]), taskTimeoutMillis: 60000, exitTimeoutMillis: 2000, maxReasonableProcessFailuresPerMinute: 0 }));
  try {
    let n = 0;
    const jobs = rng.times(ctx.n(900, 6000), () => rng.pick(OPS));
    await pool(jobs, 6, (op) => one(ctx, et, op, `/nowhere/${++n}.jpg`, dir, scripts));
  } finally {
    await settle(et.end(), 20000);
    fleet.killAll();
  }
  if (fleet.failure) throw fleet.failure;
}

async function one(ctx, et, op, file, dir, scripts) {
  const { rng } = ctx;
  // ---- what the child says
  const lines = [];
  const nE = rng.weighted([[5, 0], [3, 1], [1, 2]]);
  const errors = rng.times(nE, (i) => "Error: " + msg(rng, "e" + i));
  const nW = rng.weighted([[3, 0], [3, 1], [2, 3]]);
  const warnings = rng.times(nW, (i) => (rng.bool(0.2) ? rng.pick(["Nothing to do.", "Error: Nothing to write - /x/" + i + ".xmp"]) : rng.bool(0.1) ? "perl: warning: Setting locale failed." : "Warning: " + msg(rng, "w" + i)));
  if (warnings.length && rng.bool(0.3)) warnings.push(warnings[0]); // reported twice
  lines.push(...rng.shuffle([...errors.map((e) => e), ...warnings]));
  const firstError = lines.find((l) => errors.includes(l));
  const dead = rng.bool(0.06);
  const bad = !dead && rng.bool(0.22);
  let out;
  const json = { FileName: "x.jpg", Make: "m" };
  if (file) json.SourceFile = file;
  if (op === "read" || op === "readRaw") {
    if (rng.bool(0.3)) json.Error = clean(msg(rng, "je"));
    if (rng.bool(0.3)) json.Warning = rng.bool(0.15) && warnings.length ? warnings[0] : clean(msg(rng, "jw"));
    // with -G or -G0:4, possibly several
    const G = rng.bool(0.15) ? rng.times(rng.int(1, 3), (k) => [rng.pick(["Error", "Warning"]), k]) : [];
    for (const [k, n] of G) json[`ExifTool:${n ? `Copy${n}:` : ""}${k}`] = clean(msg(rng, "g" + n));
    out = JSON.stringify([json]) + "\n";
    if (bad) out = rng.pick(["", "\n", "[", "[{", out.slice(0, rng.int(1, Math.max(1, out.length - 4))), "not json\n", "{ \"a\": }", "[]", "null", "    1 image files updated\n"]);
  } else if (op === "buffer") {
    json.ThumbnailImage = "base64:" + Buffer.from("payload" + file).toString("base64");
    out = JSON.stringify([json]) + "\n";
    if (bad) out = rng.pick(["", "[", out.slice(0, -6), "[]", "null", "[{}]", "not json", JSON.stringify([{ FileName: "x" }])]);
  } else if (op === "extractBinaryTag") {
    out = "    1 output files created\n";
    if (bad) out = rng.pick(["", "    0 output files created\n", "    1 image files read\n", "\n", "    0 image files read\n", "2 files"]);
  } else if (op === "rewriteAllTags") {
    out = rng.pick(["    1 image files created\n", "    1 directories created\n    1 image files created\n", "    1 image files copied\n"]);
    if (bad) out = rng.pick(["", "\n", "    0 image files updated\n", "    1 files weren't created due to errors\n", "    0 image files created\n    1 files weren't created due to errors\n"]);
  }
  let counts;
  if (out === undefined) {
    counts = { created: 0, updated: 0, unchanged: 0 };
    const st = [];
    const num = () => rng.weighted([[5, 1], [2, 0], [1, 12], [1, 99999], [1, 123456]]);
    if (rng.bool(0.15)) st.push(`${String(rng.int(1, 3)).padStart(5)} ${rng.pick(["directories created", "hard links created", "directories scanned", "files failed condition"])}`);
    for (const k of rng.pick([["updated"], ["unchanged"], ["created"], ["updated", "unchanged"], ["created", "updated"], [], ["created", "updated", "unchanged"]])) {
      counts[k] = num();
      st.push(`${String(counts[k]).padStart(5)} ${k === "unchanged" && rng.bool(0.15) ? "files weren't updated" : `image files ${k}`}`);
    }
    out = st.map((l) => l + "\n").join("");
  }
  const errText = lines.map((l) => l + (rng.bool(0.1) ? "\r\n" : "\n")).join("");
  const dieAt = dead ? rng.pick(["at-once", "after-err", "mid-out", "before-ready"]) : undefined;
  const order = rng.bool(0.7) ? "err-first" : "interleaved";
  const steps = () => {
    const e = errText ? chunks(rng, "err", errText) : [];
    const o = chunks(rng, "out", out + (dead ? "" : READY));
    const death = rng.bool() ? { kill: "SIGKILL" } : { exit: rng.pick([0, 1, 255]) };
    if (dieAt === "at-once") return [death];
    if (dieAt === "after-err") return [...e, death];
    if (dieAt === "mid-out") return [...e, ...o.slice(0, o.length >> 1), death];
    if (dieAt === "before-ready") return [...e, ...o, { sleep: 5 }, death];
    if (order === "err-first" || o.length < 2) return [...e, ...o];
    // output first, but never {ready} before the error stream
    const split = out.length >> 1;
    return [...chunks(rng, "out", out.slice(0, split)), ...e, ...chunks(rng, "out", out.slice(split) + READY)];
  };
  const opts = rng.pick([undefined, {}, { ignoreMinorErrors: true }, { ignoreMinorErrors: false }]);
  scripts.set(file, steps);
  const r = await settle(invoke(et, op, file, dir, opts), 60000);
  scripts.delete(file);
  const d = (more) => () => ({ op, opts, errText, out: out.slice(0, 400), dieAt, status: r.status, value: Buffer.isBuffer(r.value) ? "buffer " + r.value.length : r.value, reason: String(r.reason?.message ?? r.reason), ...more });
  ctx.saw(JSON.stringify([op, lines, out.replace(file, "F"), dieAt, order]), { op, errText: errText.slice(0, 200), out: out.slice(0, 200), dieAt, status: r.status });
  if (r.status === "rejected") ctx.check(r.reason instanceof Error && r.reason.message.trim().length > 0, "rejects-with-an-error", op, d());
  if (dead) {
    ctx.check(r.status === "rejected", "dead-child-rejects", `${op} ${dieAt}`, d());
    return;
  }
  const strip = (e) => e.replace(/^Error: /, "");
  const inReport = (k) => Object.entries(json).flatMap(([n, v]) => (n === k || n.endsWith(":" + k) ? [v] : []));
  const reading = op === "read" || op === "readRaw";
  const E = new Set(errors), W = new Set(warnings);
  if (reading) {
    if (bad) {
      ctx.check(r.status === "rejected", "bad-output-rejects", op, d());
      if (firstError && r.status === "rejected" && !/^(\[\]|null)$/.test(out)) ctx.check(r.reason.message.includes(strip(firstError)), "rejects-with-message", op, d({ firstError }));
      return;
    }
    if (r.status === "rejected") {
      ctx.check(nE > 0, "warnings-only-fulfil", op, d());
      if (nE) ctx.check(r.reason.message.includes(strip(firstError)), "rejects-with-message", op, d());
      return;
    }
    ctx.check(r.status === "fulfilled", "settles", op, d());
    if (!nE && nW) ctx.check(true, "warnings-only-fulfil", op);
    listed(ctx, r.value.errors, [...E, ...inReport("Error")], "read-lists-errors", op, d);
    listed(ctx, r.value.warnings, [...W, ...inReport("Warning")], "read-lists-warnings", op, d);
    return;
  }
  if (nE) {
    ctx.check(r.status === "rejected", "error-rejects", `${op} ${strip(firstError).slice(0, 60)}`, d());
    if (r.status === "rejected") ctx.check(errors.some((e) => r.reason.message.includes(strip(e))), "rejects-with-message", op, d({ firstError }));
    return;
  }
  if (bad && op !== "write") {
    // (counts are undefined exactly for the operations with a required output)
    if (!counts) {
      ctx.check(r.status === "rejected", "bad-output-rejects", op, d());
      return;
    }
  }
  ctx.check(r.status === "fulfilled", "warnings-only-fulfil", op, d());
  if (r.status !== "fulfilled") return;
  if (op === "buffer") ctx.check(Buffer.isBuffer(r.value) && r.value.toString() === "payload" + file, "buffer-value", op, d());
  if (counts) {
    const { created, updated, unchanged } = r.value;
    ctx.check(created === counts.created && updated === counts.updated && unchanged === counts.unchanged, "write-counts", op, d({ counts }));
    const own = (r.value.warnings ?? []).filter((w) => !/^Unexpected output from ExifTool/.test(w) || W.has(w));
    listed(ctx, own, [...W], "write-lists-warnings", op, d);
  }
}
/** a host that blocks its event loop: what the child wrote to its error stream before {ready} still counts, and counts for its own call */
async function busy(ctx) {
  const { rng } = ctx;
  const dir = ctx.tmpdir("c18b");
  const plan = new Map();
  const spin = (ms) => {
    const t = performance.now();
    while (performance.now() - t < ms);
  };
  const fleet = new FakeFleet(
    (c) => {
      const p = plan.get(c.args.findLast((a) => a.startsWith("/nowhere/")));
      if (!p) return [{ out: "13.59\n" + READY }];
      return [{ out: p.out.slice(0, p.cut) }, { sleep: p.wait }, ...(p.err ? [{ err: p.err }] : []), { out: p.out.slice(p.cut) + READY }];
    },
    { keepLog: false },
  );
  const et = new ctx.lib.ExifTool(fastOptions(fleet, { maxProcs: rng.int(3, 6), taskRetries: 0, taskTimeoutMillis: 60000 }));
  const blocks = new rng.constructor(rng.int(1, 1e9));
  et.on("taskData", () => blocks.bool(0.9) && spin(blocks.int(2, 12)));
  try {
    await pool(rng.times(ctx.n(700, 4000), (i) => i), 8, async (i) => {
      const file = `/nowhere/b${i}.jpg`;
      const op = rng.pick(["extractBinaryTag", "write", "deleteAllTags", "read"]);
      const kind = rng.weighted([[3, "Error"], [2, "Warning"], [1, undefined]]);
      const out = op === "read" ? JSON.stringify([{ SourceFile: file, FileName: "x" }]) + "\n" : op === "extractBinaryTag" ? "    1 output files created\n" : "    1 image files updated\n";
      const text = `${kind}: thing ${i} - x`;
      plan.set(file, { out, cut: rng.int(1, out.length - 1), wait: rng.int(1, 8), err: kind && text + "\n" });
      const r = await settle(invoke(et, op, file, dir, undefined), 60000);
      const det = () => ({ op, kind, text, status: r.status, reason: String(r.reason), value: r.value });
      ctx.saw(`busy|${op}|${kind}|${i}`, { op, kind });
      if (kind === "Error" && (op !== "read" || r.status === "rejected")) ctx.check(r.status === "rejected" && String(r.reason?.message).includes(`thing ${i} `), "busy-host", `${op} error`, det);
      else if (op === "read") ctx.check(r.status === "fulfilled" && JSON.stringify([r.value.errors ?? [], r.value.warnings ?? []]) === JSON.stringify([kind === "Error" ? [text] : [], kind === "Warning" ? [text] : []]), "busy-host", "read", det);
      else ctx.check(r.status === "fulfilled" && (op === "extractBinaryTag" || JSON.stringify(r.value.warnings ?? []) === JSON.stringify(kind ? [text] : [])), "busy-host", `${op} ${kind}`, det);
    });
  } finally {
    await settle(et.end(), 20000);
    fleet.killAll();
  }
  if (fleet.failure) throw fleet.failure;
}

/** perl itself complains about a missing module, and goes on or dies */
async function perl(ctx) {
  const { rng } = ctx;
  const dir = ctx.tmpdir("c18p");
  const plan = new Map();
  const fleet = new FakeFleet(
    (c) => {
      const p = plan.get(c.args.findLast((a) => a.startsWith("/nowhere/")));
      return p ?? [{ out: "13.59\n" + READY }];
    },
    { keepLog: false },
  );
  const et = new ctx.lib.ExifTool(fastOptions(fleet, { maxProcs: 2, taskRetries: rng.int(0, 1), taskTimeoutMillis: 60000, maxReasonableProcessFailuresPerMinute: 0 }));
  try {
    for (let i = 0; i < ctx.n(80, 500); i++) {
      const file = `/nowhere/p${i}.jpg`;
      const op = rng.pick(OPS);
      const mod = rng.pick(["Image/ExifTool/PDF.pm", "Compress/Zlib.pm", "File/Glob.pm"]);
      const text = `Can't locate ${mod} in @INC (you may need to install the x module) (@INC entries checked: /etc/perl) at /x/exiftool line ${i}.\n`;
      const out = op === "read" || op === "readRaw" || op === "buffer" ? JSON.stringify([{ SourceFile: file, ThumbnailImage: "base64:AAAA" }]) + "\n" : op === "extractBinaryTag" ? "    1 output files created\n" : "    1 image files updated\n";
      const ends = rng.pick(["ready", "exit", "kill", "ready, no output"]);
      plan.set(file, [{ err: text }, ...(ends === "ready" ? [{ out: out + READY }] : ends === "ready, no output" ? [{ out: READY }] : [{ sleep: rng.int(0, 10) }, ends === "exit" ? { exit: 2 } : { kill: "SIGKILL" }])]);
      const r = await settle(invoke(et, op, file, dir, undefined), 60000);
      const det = (x) => () => ({ op, ends, text, status: r.status, reason: String(r.reason), value: r.value, ...x });
      ctx.saw(`perl|${op}|${mod}|${ends}`, det({})());
      // (a read may list it instead)
      const listedToo = r.status === "fulfilled" && (op === "read" || op === "readRaw") && (r.value.errors ?? []).some((e) => e.includes("Can't locate"));
      ctx.check(r.status === "rejected" ? r.reason instanceof Error && (ends !== "ready" || r.reason.message.includes(mod)) : listedToo, "missing-module-rejects", `${op} ${ends}`, det({}));
      const next = await settle(et.version(), 60000);
      ctx.check(next.status === "fulfilled" && next.value === "13.59", "missing-module-then-fine", op, det({ next: String(next.reason ?? next.value) }));
    }
  } finally {
    await settle(et.end(), 20000);
    fleet.killAll();
  }
  if (fleet.failure) throw fleet.failure;
}

/** list holds each expected text once, and nothing else */
function listed(ctx, list, expected, kind, op, d) {
  const want = new Set(expected.map((x) => x.trim()));
  const got = list ?? [];
  const ok = Array.isArray(got) && got.length === want.size && got.every((x) => want.has(String(x).trim()));
  ctx.check(ok, kind, op, d({ got, want: [...want] }));
}

async function real(ctx) {
  const { rng } = ctx;
  const et = new ctx.lib.ExifTool({ maxProcs: 2, taskRetries: rng.pick([0, 1]), taskTimeoutMillis: 60000 });
  try {
    for (let i = 0; i < ctx.n(10, 60); i++) {
      const dir = ctx.tmpdir("c18r");
      const sub = path.join(dir, rng.pick(["plain", "warning: x", "nothing to do", "Nothing to write", "Error: y", "a & b", "minor"]));
      fs.mkdirSync(sub);
      const p = (n) => path.join(sub, n);
      fs.writeFileSync(p("good.jpg"), J.jpeg({ seed: i }));
      fs.writeFileSync(p("text.jpg"), "no image");
      fs.writeFileSync(p("cut.jpg"), J.jpeg({ seed: i, segments: [J.exifSegment(J.tiff({ ifd0: { 0x10f: J.ascii("Maker") } }).subarray(0, 30))] }));
      const must = async (what, promise, status, text) => {
        const r = await settle(promise);
        ctx.saw(`real/${what}/${path.basename(sub)}/${i % 3}`, { what, sub: path.basename(sub), status: r.status });
        ctx.check(r.status === status && (status === "fulfilled" || (r.reason instanceof Error && text.test(r.reason.message))), "real", what, () => ({ what, sub, status: r.status, reason: String(r.reason), value: r.value }));
        return r;
      };
      for (const [k, f] of [["missing", "gone.jpg"], ["text", "text.jpg"]]) {
        const re = k === "missing" ? /not found/i : /./;
        await must(`write ${k}`, et.write(p(f), { "XMP:Title": "x" }), "rejected", re);
        await must(`edit ${k}`, et.editTags(p(f), [{ tag: "XMP-dc:Subject", operation: "add", value: "x" }]), "rejected", re);
        await must(`delete ${k}`, et.deleteAllTags(p(f)), "rejected", re);
        await must(`rewrite ${k}`, et.rewriteAllTags(p(f), p("o" + f)), "rejected", /./);
        await must(`extract ${k}`, et.extractThumbnail(p(f), p("t" + f)), "rejected", re);
        await must(`buffer ${k}`, et.extractBinaryTagToBuffer("ThumbnailImage", p(f)), "rejected", re);
      }
      for (const m of ["read", "readRaw"]) {
        const r = await settle(et[m](p("gone.jpg")));
        ctx.check(r.status === "rejected" ? /not found/i.test(r.reason.message) : r.value.errors.length > 0, "real", `${m} missing`, () => ({ m, sub, status: r.status, value: r.value, reason: String(r.reason) }));
      }
      await must("write good", et.write(p("good.jpg"), { "XMP:Title": "x" }), "fulfilled");
      const r1 = await must("write unknown tag", et.write(p("good.jpg"), { "XMP:Title": "y", NoSuchTagAtAll: "z" }), "fulfilled");
      ctx.check((r1.value?.warnings ?? []).some((w) => /NoSuchTagAtAll/.test(w)), "real", "unknown tag is warned about", () => ({ value: r1.value }));
      for (const readArgs of [undefined, ["-G"], ["-fast", "-G1"]]) {
        const r2 = await must("read cut", readArgs ? et.read(p("cut.jpg"), { readArgs }) : et.read(p("cut.jpg")), "fulfilled");
        ctx.check(r2.value?.warnings?.length > 0 || r2.value?.errors?.length > 0, "real", `damaged file is warned about ${readArgs}`, () => ({ sub, value: r2.value }));
        const r3 = await must("read good", readArgs ? et.read(p("good.jpg"), { readArgs }) : et.read(p("good.jpg")), "fulfilled");
        ctx.check(r3.value?.warnings?.length === 0 && r3.value?.errors?.length === 0, "real", "good file isn't warned about", () => ({ sub, value: r3.value }));
      }
      fs.rmSync(dir, { recursive: true, force: true });
    }
  } finally {
    await settle(et.end(), 30000);
  }
}
