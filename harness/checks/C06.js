"use strict";
// C06: tag edits on real files; the model is a plain list, the observer an
// independent ExifTool session.
const fs = require("node:fs");
const path = require("node:path");
const { settle } = require("../lib/ctx.js");
const { RawExif } = require("../lib/rawexif.js");
const { jpeg, imageData } = require("../lib/jpeg.js");
const gen = require("../lib/gen.js");

const COLL = "XMP-mwg-coll:Collections";
const XMP_LISTS = ["XMP-acdsee:Keywords", "XMP-dc:Subject", "XMP-digiKam:TagsList", "XMP-expressionmedia:CatalogSets", "XMP-expressionmedia:People", "XMP-iptcExt:PersonInImage", "XMP-lr:HierarchicalSubject", "XMP-mediapro:CatalogSets", "XMP-mediapro:People", "XMP-microsoft:LastKeywordXMP"];
const IPTC_LISTS = ["IPTC:Keywords", "IPTC:CatalogSets"];
const SCALARS = ["XMP-xmpDM:Album"];
const BYSTANDERS = { "XMP-dc:Title": "by, st", "XMP-dc:Description": "a & b", "XMP-xmp:Rating": 3, "XMP-photoshop:Headline": "h" };
// ExifTool's own bookkeeping, and the groups' mandatory tags
const DERIVED = /^(XMP-x:XMPToolkit|Photoshop:IPTCDigest|IPTC:ApplicationRecordVersion|JFIF:.*|IPTC:(EnvelopeRecordVersion|CodedCharacterSet)|SourceFile|MIE-Main:.*|XMP-xmpNote:HasExtendedXMP)$/;
const bad = (s) => /[\u0000-\u0008\u000b-\u001f\ufdd0-\ufdef\ufffe\uffff]/.test(s);
const okText = (s) => !bad(s) && s.length > 0;

/** is c an order-preserving merge of a and b? (ExifTool picks where additions go) */
function interleaving(a, b, c) {
  if (a.length + b.length !== c.length) return false;
  let row = [true];
  for (let j = 1; j <= b.length; j++) row[j] = row[j - 1] && b[j - 1] === c[j - 1];
  for (let i = 1; i <= a.length; i++) {
    const next = [row[0] && a[i - 1] === c[i - 1]];
    for (let j = 1; j <= b.length; j++) next[j] = (row[j] && a[i - 1] === c[i + j - 1]) || (next[j - 1] && b[j - 1] === c[i + j - 1]);
    row = next;
  }
  return row[b.length];
}

module.exports = {
  technique: "model-based monitor of tag edits on real files (list model; independent ExifTool session and file bytes as observers)",
  level: "exploration",
  rule: "one edit list applied to a file; distinct by file kind, initial lists and edits; rejected lists count by reason and file state",
  assumptions: [
    "Lists start as seeded by ExifTool's own JSON import, not by the library.",
    "IPTC values are kept to short ASCII, as the format demands; values number-like to ExifTool's JSON are compared as text.",
  ],
  shards: (tier) => {
    const s = [];
    for (let k = 0; k < (tier === "quick" ? 1 : 5); k++) for (const kind of ["jpg", "jpg", "xmp", "xmp", "mie", "jpg"]) s.push({ name: "edits", kind, k, n: s.length });
    s.push({ name: "invalid", kind: "jpg" }, { name: "invalid", kind: "xmp" });
    return s;
  },
  minimums: () => ({ "oracle:lists-as-modelled": 600, "oracle:others-unchanged": 600, "oracle:invalid-rejected": 600, "oracle:file-untouched": 600, "edit:remove-hit": 400, "edit:collection-remove": 100, "edit:add": 500 }),
  async run(ctx) {
    const raw = new RawExif();
    const et = new ctx.lib.ExifTool({ maxProcs: 1 });
    ctx.dir = ctx.tmpdir("c06");
    try {
      await this[ctx.shard.name](ctx, et, raw);
    } finally {
      raw.end();
      await settle(et.end(), 20000);
    }
  },
  async seed(ctx, raw, file, kind, tags) {
    if (kind === "jpg") fs.writeFileSync(file, jpeg({ seed: file }));
    const j = path.join(ctx.dir, "seed.json");
    fs.writeFileSync(j, JSON.stringify([{ SourceFile: "*", ...tags }]));
    const r = await raw.run(["-json=" + j, "-struct", "-overwrite_original", file]);
    fs.rmSync(j);
    if (!/created|updated/.test(r.out + r.err)) throw Object.assign(new Error("seed failed: " + JSON.stringify(r) + JSON.stringify(tags)), { harness: true });
  },
  /** text forms of a list in a dump */
  list(v) {
    return v == null ? [] : (Array.isArray(v) ? v : [v]).map((x) => (typeof x === "object" ? x : String(x)));
  },
  async edits(ctx, et, raw) {
    const { rng } = ctx;
    const kind = ctx.shard.kind;
    const deadline = Date.now() + ctx.n(35, 150) * 1000;
    for (let n = 0; Date.now() < deadline && n < ctx.n(700, 4000); n++) {
      const file = path.join(ctx.dir, `e${n}.${kind}`);
      const lists = kind === "mie" ? [...XMP_LISTS, "MIE-Doc:Keywords"] : kind === "jpg" ? [...XMP_LISTS, ...IPTC_LISTS] : XMP_LISTS;
      const tags = rng.sample(lists, rng.int(1, 3));
      if (kind === "mie" && !tags.includes("MIE-Doc:Keywords")) tags.push("MIE-Doc:Keywords");
      // a small alphabet, so that edits collide with items and near-misses
      const val = (tag) => {
        if (tag.startsWith("IPTC")) return rng.pick(["a", "b", "A", " a", "a, b", "a;b", "&amp;", "&", "x|y", "beach", "Beach"]);
        for (;;) {
          const s = rng.bool(0.5) ? rng.pick(["a", "b", "A", "a ", " a", "a, b", "&amp;", "&", "&#97;", "é", "e\u0301", "x|y", "{a=b}", "[a,b]", "beach", "a\nb"]) : gen.text(rng, { max: 3, ok: okText });
          // ExifTool's JSON re-renders number- and boolean-like text
          if (okText(s) && !/^\s*[-+]?\.?\d/.test(s) && !/^(true|false)\s*$/i.test(s)) return s;
        }
      };
      const seedTags = { ...BYSTANDERS };
      for (const t of [...tags, ...rng.sample(lists, 1)]) {
        const l = rng.times(rng.int(0, 6), () => val(t));
        if (l.length) seedTags[t] = l;
      }
      const useColl = kind !== "mie" && rng.bool(0.5);
      const cname = () => rng.pick(["Vacation", "vacation", "A, B", "a|b", "&amp;", "{x}", "[y]", " lead", val("XMP-dc:Subject")]);
      const curi = () => rng.pick(["urn:1", "urn:2", "u,3", "", "=x"]);
      if (useColl) {
        const l = rng.times(rng.int(0, 4), () => ({ CollectionName: cname(), CollectionURI: curi() }));
        if (l.length) seedTags[COLL] = l;
      }
      const album = rng.bool(0.3) ? val("XMP-xmpDM:Album") : undefined;
      if (album) seedTags["XMP-xmpDM:Album"] = album;
      await this.seed(ctx, raw, file, kind, seedTags);
      const before = await raw.dump(file);
      const img = kind === "jpg" ? imageData(fs.readFileSync(file)) : undefined;
      // ---- edits and model
      const edits = [];
      const model = {};
      for (const t of tags) model[t] = this.list(before[t]);
      if (useColl) model[COLL] = this.list(before[COLL]);
      const adds = {}, removes = {};
      for (let k = rng.int(1, 5); k > 0; k--) {
        const t = rng.pick(Object.keys(model));
        if (t === COLL) {
          if (rng.bool(0.45)) {
            const v = { CollectionName: cname(), CollectionURI: curi() };
            edits.push({ tag: t, operation: "add", value: v });
          } else {
            const some = model[t].length && rng.bool(0.8) ? rng.pick(model[t]) : { CollectionName: cname(), CollectionURI: curi() };
            const f = rng.pick([["CollectionName"], ["CollectionURI"], ["CollectionName", "CollectionURI"]]);
            const p = {};
            for (const x of f) p[x] = some[x] == null ? "zz" : String(some[x]);
            edits.push({ tag: t, operation: "remove", predicate: p });
          }
        } else if (rng.bool(0.5)) edits.push({ tag: t, operation: "add", value: val(t) });
        else edits.push({ tag: t, operation: "remove", value: model[t].length && rng.bool(0.75) ? rng.pick(model[t]) : val(t) });
      }
      if (album && rng.bool(0.6)) edits.push({ tag: "XMP-xmpDM:Album", operation: "remove", value: rng.bool(0.6) ? album : album + "x" });
      // values seeded by ExifTool may hold text an edit has to refuse
      if (edits.some((e) => typeof e.value === "string" && !okText(e.value))) continue;
      const hits = (item, e) => (e.predicate ? Object.keys(e.predicate).every((k) => String(item[k] ?? "") === e.predicate[k] && item[k] != null) : item === e.value);
      // ambiguous order: an addition followed by a removal that would match it
      const conflict = edits.some((a, i) => a.operation === "add" && edits.slice(i + 1).some((b) => b.operation === "remove" && b.tag === a.tag && hits(a.value, b)));
      for (const e of edits) {
        (e.operation === "add" ? adds : removes)[e.tag] ??= [];
        (e.operation === "add" ? adds : removes)[e.tag].push(e);
      }
      const passed = structuredClone(edits);
      const bytes = fs.readFileSync(file);
      const p = et.editTags(file, passed, rng.bool(0.5) ? { writeArgs: ["-overwrite_original"] } : undefined);
      const asGiven = JSON.stringify(passed) === JSON.stringify(edits);
      if (rng.bool(0.5)) {
        for (const e of passed) {
          if (typeof e.value === "string") e.value = "MUTATED";
          else if (e.value) e.value.CollectionName = "MUTATED";
          else e.predicate.CollectionName = "MUTATED";
        }
        passed.push({ tag: "XMP-dc:Subject", operation: "add", value: "MUTATED" });
      }
      const r = await settle(p, 60000);
      const det = (x) => ({ kind, seed: seedTags, edits, status: r.status, reason: r.reason && String(r.reason).slice(0, 300), ...x });
      ctx.check(asGiven, "edits-not-modified", kind, det);
      if (conflict) {
        ctx.check(r.status === "rejected", "invalid-rejected", "add-then-remove conflict", det);
        ctx.check(fs.readFileSync(file).equals(bytes), "file-untouched", "add-then-remove conflict", det);
        ctx.saw(`conflict/${JSON.stringify(edits)}`);
        continue;
      }
      if (!ctx.check(r.status === "fulfilled", "edit-succeeds", kind, det)) continue;
      const after = await raw.dump(file);
      for (const t of Object.keys(model)) {
        let want = model[t].filter((item) => !(removes[t] ?? []).some((e) => hits(item, e)));
        ctx.count("edit:remove-hit", model[t].length - want.length);
        if (t === COLL) ctx.count("edit:collection-remove", (removes[t] ?? []).length);
        ctx.count("edit:add", (adds[t] ?? []).length);
        const added = (adds[t] ?? []).map((e) => e.value);
        const got = this.list(after[t]);
        const norm = (l) => l.map((x) => JSON.stringify(typeof x === "object" ? Object.fromEntries(["CollectionName", "CollectionURI"].filter((k) => x[k] != null).map((k) => [k, String(x[k])])) : x));
        ctx.check(interleaving(norm(want), norm(added), norm(got)), "lists-as-modelled", `${kind} ${t}`, () => det({ tag: t, initial: model[t], kept: want, added, got }));
        ctx.saw(`${kind}/${t}/${JSON.stringify(model[t])}/${JSON.stringify([adds[t], removes[t]])}`, { kind, tag: t, initial: model[t], edits: edits.filter((e) => e.tag === t), result: got });
      }
      if (album) {
        const rem = removes["XMP-xmpDM:Album"]?.some((e) => e.value === String(before["XMP-xmpDM:Album"]));
        ctx.check((after["XMP-xmpDM:Album"] == null) === !!rem, "scalar-removal", kind, () => det({ album, after: after["XMP-xmpDM:Album"] }));
      }
      const changed = [];
      for (const k of new Set([...Object.keys(before), ...Object.keys(after)])) {
        if (k in model || k === "XMP-xmpDM:Album" || DERIVED.test(k)) continue;
        if (JSON.stringify(before[k]) !== JSON.stringify(after[k])) changed.push({ k, before: before[k], after: after[k] });
      }
      ctx.check(changed.length === 0, "others-unchanged", `${kind} ${changed.map((c) => c.k)}`, () => det({ changed }));
      if (img) ctx.check(imageData(fs.readFileSync(file)).equals(img), "image-data-unchanged", kind, det);
      if (n % 40 === 0) for (const f of fs.readdirSync(ctx.dir)) fs.rmSync(path.join(ctx.dir, f));
    }
    // flattened region names: exactly the matching names go, siblings stay
    if (kind !== "mie") {
      for (let n = 0; n < ctx.n(15, 80); n++) {
        const file = path.join(ctx.dir, `r${n}.${kind}`);
        const names = rng.sample(["Jane", "jane", "Jane ", "J, D", "{x}", "&amp;", "a|b", "Zoë"], rng.int(1, 4));
        const RegionList = names.map((Name, i) => ({ Area: { X: 0.1 * (i + 1), Y: 0.2, W: 0.1, H: 0.1, Unit: "normalized" }, Name, Type: "Face", Description: "d" + i }));
        await this.seed(ctx, raw, file, kind, { ...BYSTANDERS, "XMP-mwg-rs:RegionInfo": { AppliedToDimensions: { W: 10, H: 10, Unit: "pixel" }, RegionList } });
        const before = await raw.dump(file);
        const gone = rng.bool(0.8) ? rng.pick(names) : "Nobody";
        const r = await settle(et.editTags(file, [{ tag: "XMP-mwg-rs:RegionName", operation: "remove", value: gone }]), 60000);
        const after = await raw.dump(file);
        const det = () => ({ kind, names, gone, status: r.status, reason: String(r.reason), after: after["XMP-mwg-rs:RegionInfo"] });
        if (!ctx.check(r.status === "fulfilled", "edit-succeeds", kind + " RegionName", det)) continue;
        const want = JSON.parse(JSON.stringify(before["XMP-mwg-rs:RegionInfo"]));
        for (const x of want.RegionList) if (x.Name === gone) delete x.Name;
        ctx.check(JSON.stringify(want) === JSON.stringify(after["XMP-mwg-rs:RegionInfo"]), "region-names", kind, det);
        ctx.saw(`${kind}/region/${names}/${gone}`);
      }
    }
  },

  async invalid(ctx, et, raw) {
    const { rng } = ctx;
    const kind = ctx.shard.kind;
    const S = "XMP-dc:Subject";
    const add = (o) => ({ tag: S, operation: "add", value: "v", ...o });
    const rem = (o) => ({ tag: S, operation: "remove", value: "a", ...o });
    const notPlain = Object.assign(Object.create({ tag: S }), { operation: "add", value: "x" });
    class E { constructor() { this.tag = S; this.operation = "add"; this.value = "x"; } }
    const BAD = {
      "not an array": () => rng.pick([null, undefined, "x", {}, 5, add()]),
      "empty list": () => [],
      "not an object": () => [rng.pick([null, 5, "x", [], new E(), notPlain, new Map()])],
      "unknown tag": () => [add({ tag: rng.pick(["Subject", "XMP:Subject", "XMP-dc:Title", "Keywords", "XMP-dc:Creator", "XMP-iptcExt:PersonInImageName", "EXIF:ImageDescription", "AllDates", "XMP-xmp:CreateDate", "XMP-mwg-rs:RegionInfo", "XMP-dc:Subject#", "XMP-dc:*", "-XMP-dc:Subject", "XMP-dc:Subject+", "XMP-dc:Subject\n-all=", "", " XMP-dc:Subject", "XMP-dc:", ":Subject"]) })],
      "wrong case": () => [add({ tag: rng.pick(["xmp-dc:subject", "XMP-DC:Subject", "iptc:keywords"]) })],
      "tag not a string": () => [add({ tag: rng.pick([null, 5, undefined, [S], { toString: () => S }]) })],
      "bad operation": () => [add({ operation: rng.pick(["set", "Add", "", null, undefined, "delete", 1]) })],
      "bad value": () => [add({ value: rng.pick(["", null, undefined, 5, ["a"], {}, true]) })],
      "bad removal value": () => [rem({ value: rng.pick(["", null, undefined, 5, ["a"], {}, true]) })],
      "control character": () => [rng.pick([add, rem])({ value: "a" + (rng.bool(0.15) ? rng.pick(["\r\n", "\n\r", "\r\r\n"]) : String.fromCharCode(rng.pick([0, 1, 8, 11, 12, 13, 14, 27, 31]))) + "b" })],
      "bad unicode": () => [rng.pick([add, rem])({ value: "a" + rng.pick(["\ud800", "\udc00", "\ufffe", "\uffff", "\ufdd0", "\u{1fffe}", "\u{10ffff}"]) })],
      "add to remove-only": () => [add({ tag: rng.pick(["XMP-xmpDM:Album", "XMP-mwg-rs:RegionName", "XMP-MP:RegionPersonDisplayName", "XMP-acdsee-rs:ACDSeeRegionName"]) })],
      "predicate on a plain tag": () => [{ tag: S, operation: "remove", predicate: { CollectionName: "x" } }],
      "value and predicate": () => [{ tag: COLL, operation: "remove", value: { CollectionName: "x", CollectionURI: "y" }, predicate: { CollectionName: "x" } }],
      "bad collection": () => [{ tag: COLL, operation: "add", value: rng.pick(["x", null, {}, { CollectionName: "x" }, { CollectionURI: "x" }, { CollectionName: "x", CollectionURI: "y", Extra: "z" }, { CollectionName: 5, CollectionURI: "y" }, [{ CollectionName: "x", CollectionURI: "y" }], { get CollectionName() { return "x"; }, CollectionURI: "y" }]) }],
      "bad predicate": () => [{ tag: COLL, operation: "remove", predicate: rng.pick([{}, null, "x", { Name: "x" }, { CollectionName: null }, { CollectionName: ["a"] }, { CollectionName: "a\u0001" }]) }],
      "add then remove": () => [add({ value: "q" }), ...(rng.bool() ? [add({ value: "other" })] : []), rem({ value: "q" })],
      "collection add then remove": () => [{ tag: COLL, operation: "add", value: { CollectionName: "n", CollectionURI: "u" } }, { tag: COLL, operation: "remove", predicate: rng.pick([{ CollectionName: "n" }, { CollectionURI: "u" }, { CollectionName: "n", CollectionURI: "u" }]) }],
    };
    const BADARGS = [["-sep", ";"], ["-separator", ";"], ["-SEP", ";"], ["-api", "struct=0"], ["-API", "x=1"], ["-api", "Filter=s/a/b/"], ["-m", "-sep", ","]];
    const n = ctx.n(500, 3000);
    const deadline = Date.now() + ctx.n(35, 150) * 1000;
    const reasons = [...Object.keys(BAD), "args"];
    const file = path.join(ctx.dir, "v." + kind);
    await this.seed(ctx, raw, file, kind, { ...BYSTANDERS, [S]: ["a", "b", "q"] });
    const bytes = fs.readFileSync(file);
    const names = fs.readdirSync(ctx.dir).join();
    for (let i = 0; i < n && Date.now() < deadline; i++) {
      const reason = reasons[i % reasons.length];
      let edits, opts;
      if (reason === "args") {
        edits = [rng.bool() ? add() : rem()];
        opts = { writeArgs: rng.pick(BADARGS) };
      } else {
        edits = BAD[reason]();
        // hidden among valid edits
        if (Array.isArray(edits) && edits.length && rng.bool(0.6)) {
          const at = rng.int(0, edits.length);
          edits = reason.includes("then remove") ? [add({ value: "zz" }), ...edits, rem({ value: "b" })] : [...edits.slice(0, at), add({ value: "fine" }), ...edits.slice(at)];
        }
      }
      const r = await settle(Promise.resolve().then(() => et.editTags(file, edits, opts)), 60000);
      const det = () => ({ kind, reason, edits, opts, status: r.status, value: r.value });
      ctx.check(r.status === "rejected", "invalid-rejected", reason, det);
      ctx.check(fs.readFileSync(file).equals(bytes) && fs.readdirSync(ctx.dir).join() === names, "file-untouched", reason, det);
      let key;
      try { key = JSON.stringify(edits); } catch { key = i; }
      ctx.saw(`${kind}/${reason}/${key}/${JSON.stringify(opts)}`, { reason, edits, status: r.status });
      if (!fs.readFileSync(file).equals(bytes)) fs.writeFileSync(file, bytes);
    }
  },
};
