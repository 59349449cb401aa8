"use strict";
// C07: histories of GPS writes on real files; the model is the signed value
// last written, the observers are read() and an independent ExifTool session.
const fs = require("node:fs");
const path = require("node:path");
const { settle } = require("../lib/ctx.js");
const { RawExif } = require("../lib/rawexif.js");
const { jpeg } = require("../lib/jpeg.js");

const NAME = { lat: "GPSLatitude", lon: "GPSLongitude", alt: "GPSAltitude" };
const MAX = { lat: 90, lon: 180 };
const NEG = { lat: /^S/i, lon: /^W/i, alt: /^(1$|Below|Negative)/i };
const POS = { lat: /^N/i, lon: /^E/i, alt: /^(0$|Above|Positive)/i };
const tol = (k, v) => (k === "alt" ? Math.max(1e-6, Math.abs(v) * 1e-5) : 1.001e-6);

module.exports = {
  technique: "model-based monitor of GPS write histories on real files (signed-value model; read() and an independent ExifTool session as observers)",
  level: "exploration",
  rule: "one GPS write in a history of writes to one file; distinct by file kind, prior state, and values written",
  assumptions: [
    "Values within 5e-7 degrees of zero are compared by magnitude only (they round to zero).",
    "Latitude and longitude references contradicting the sign of the number are not part of the property.",
  ],
  shards: (tier) => {
    const s = [];
    for (let k = 0; k < (tier === "quick" ? 1 : 4); k++) for (const kind of ["jpg", "jpg", "jpg", "xmp", "xmp", "mie", "jpg", "xmp"]) s.push({ name: "history", kind, k, n: s.length });
    return s;
  },
  minimums: () => ({ "oracle:read-back": 3000, "oracle:raw-agrees": 3000, "oracle:references-agree": 3000, "oracle:cleared": 200, "step:reused-object": 200, "step:sign-change": 500 }),
  value(rng, k) {
    if (k === "alt") return rng.pick([0, 1, -1, 0.5, -0.5, 8848.86, -431.25, 1e-7, -1e-7, 2e-9, 100000, -11034, 3, 2, -2, rng.int(-5000, 9000), rng.float(-100, 100), rng.int(-99999, 99999) / 100, 12.3456789, -0.001]);
    const m = MAX[k];
    return rng.pick([0, m, -m, 0.5, -0.5, 1e-7, -1e-7, -0.000001, 0.000001, 0.999999, -0.999999, 59.999999 / 60, -(m - 1e-6), 1, -1, 12.5, -33.8688, rng.float(-m, m), rng.float(-m, m), rng.int(-m, m), Math.round(rng.float(-m, m) * 1e6) / 1e6, rng.float(-0.02, 0.02)]);
  },
  async run(ctx) {
    const { rng } = ctx;
    const kind = ctx.shard.kind;
    const raw = new RawExif();
    const et = new ctx.lib.ExifTool({ maxProcs: 1, ignoreZeroZeroLatLon: false });
    const dir = ctx.tmpdir("c07");
    const files = ctx.n(60, 500);
    const deadline = Date.now() + ctx.n(45, 200) * 1000;
    try {
      for (let n = 0; n < files && Date.now() < deadline; n++) {
        const file = path.join(dir, `h${n}.${kind}`);
        if (kind === "jpg") fs.writeFileSync(file, jpeg({ seed: file }));
        const st = {}; // model
        const hist = [];
        // a position that was in the file before, put there by ExifTool
        if (rng.bool(0.5)) {
          const lat = Math.round(rng.float(-89, 89) * 1e4) / 1e4, lon = Math.round(rng.float(-179, 179) * 1e4) / 1e4, alt = rng.int(-300, 300);
          const groups = kind === "xmp" ? ["XMP"] : rng.pick([["XMP"], ["EXIF"], ["XMP", "EXIF"]]);
          const a = ["-n"];
          for (const g of groups)
            a.push(`-${g}:GPSLatitude=${lat}`, `-${g}:GPSLongitude=${lon}`, `-${g}:GPSAltitude=${Math.abs(alt)}`, `-${g}:GPSAltitudeRef=${alt < 0 ? 1 : 0}`, ...(g === "EXIF" ? [`-EXIF:GPSLatitudeRef=${lat < 0 ? "S" : "N"}`, `-EXIF:GPSLongitudeRef=${lon < 0 ? "W" : "E"}`] : []));
          await raw.run([...a, "-XMP-dc:Title=t", "-overwrite_original", file]);
          Object.assign(st, { lat, lon, alt });
          hist.push({ seeded: groups, lat, lon, alt });
        }
        let obj = {}; // reused between steps by some callers
        for (let s = rng.int(2, 6); s > 0; s--) {
          const what = rng.pick([["lat", "lon"], ["lat", "lon"], ["lat", "lon", "alt"], ["lat"], ["lon"], ["alt"], ["alt"]]);
          const reuse = rng.bool(0.35) && Object.keys(obj).length > 0;
          const tags = reuse ? obj : {};
          if (reuse) ctx.count("step:reused-object");
          const want = {};
          for (const k of what) {
            const v = rng.bool(0.15) ? null : this.value(rng, k);
            want[k] = v;
            if (v != null && st[k] != null && v < 0 !== st[k] < 0) ctx.count("step:sign-change");
            tags[NAME[k]] = v;
            // callers may state the agreeing reference themselves
            delete tags[NAME[k] + "Ref"];
            if (v != null && Math.abs(v) > 1e-5 && rng.bool(0.15)) tags[NAME[k] + "Ref"] = k === "alt" ? rng.pick(v < 0 ? ["Below Sea Level", -1] : ["Above Sea Level", 0]) : rng.pick(k === "lat" ? (v < 0 ? ["S", "South", -1] : ["N", "North", 1]) : v < 0 ? ["W", "West", -5] : ["E", "East", 5]);
          }
          // an object reused as a whole writes all it holds again
          for (const k of Object.keys(NAME)) if (NAME[k] in tags) want[k] = tags[NAME[k]];
          if (rng.bool(0.2)) tags["XMP-dc:Title"] = "t" + s;
          const snapshot = JSON.stringify(tags);
          if (rng.bool(0.2)) Object.freeze(tags);
          const p = et.write(file, tags, { writeArgs: ["-overwrite_original"] });
          const r = await settle(p, 60000);
          const prior = { ...st };
          hist.push({ wrote: JSON.parse(snapshot), reuse });
          obj = Object.isFrozen(tags) ? {} : tags;
          Object.assign(st, want);
          const det = (x) => ({ kind, hist, model: st, status: r.status, reason: r.reason && String(r.reason).slice(0, 300), warnings: r.value?.warnings, ...x });
          ctx.check(JSON.stringify(tags) === snapshot, "tags-object-untouched", kind, () => det({ now: tags }));
          if (!ctx.check(r.status === "fulfilled", "write-succeeds", kind, det)) break;
          if (!fs.existsSync(file)) continue; // nothing to create from nulls alone
          const rr = await settle(et.read(file), 60000);
          if (!ctx.check(rr.status === "fulfilled", "read-succeeds", kind, () => det({ r: String(rr.reason) }))) break;
          const t = rr.value;
          const out = await raw.run(["-j", "-n", "-a", "-G1", "-GPS*", file]);
          const dump = /^\s*\[/.test(out.out) ? JSON.parse(out.out)[0] : {};
          for (const k of Object.keys(NAME)) {
            const v = st[k];
            const name = NAME[k];
            const key = `${kind} ${k}`;
            const d = () => det({ tag: name, expected: v, got: t[name], gotRef: t[name + "Ref"], dump });
            if (v == null) {
              if (k in want) {
                ctx.check(t[name] == null && t[name + "Ref"] == null && !Object.keys(dump).some((x) => x.endsWith(":" + name) || x.endsWith(":" + name + "Ref")), "cleared", key, d);
              }
              continue;
            }
            const lone = k === "alt" || st.lat == null || st.lon == null;
            // ExifTool's JSON quotes numbers of more than 15 digits
            const eq = (y, x = lone && typeof y === "string" ? Number(y) : y) => typeof x === "number" && Math.abs(x - v) <= tol(k, v) && (Math.abs(v) < 5e-7 || x < 0 === v < 0 || Math.abs(v) <= tol(k, v));
            ctx.check(eq(t[name]), "read-back", key, d);
            const comp = dump["Composite:" + name] ?? dump["XMP-exif:" + name] ?? dump["MIE-GPS:" + name];
            ctx.check(eq(Number.parseFloat(comp)), "raw-agrees", key, d);
            if (Math.abs(v) >= 1e-6) {
              const refs = [t[name + "Ref"], ...Object.keys(dump).filter((x) => x.endsWith(":" + name + "Ref")).map((x) => dump[x])].filter((x) => x != null);
              ctx.check((refs.length > 0 || kind === "mie") && refs.every((x) => (v < 0 ? NEG : POS)[k].test(String(x))), "references-agree", key, d);
            }
          }
          ctx.saw(`${kind}/${JSON.stringify(prior)}/${snapshot}`, { kind, prior, wrote: JSON.parse(snapshot), read: { lat: t.GPSLatitude, latRef: t.GPSLatitudeRef, lon: t.GPSLongitude, lonRef: t.GPSLongitudeRef, alt: t.GPSAltitude, altRef: t.GPSAltitudeRef } });
        }
        fs.rmSync(file, { force: true });
      }
    } finally {
      raw.end();
      await settle(et.end(), 20000);
    }
  },
};
