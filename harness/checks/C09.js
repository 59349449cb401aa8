"use strict";
// C09: coordinate text, as read() reports it. The reference is an independent
// tokenizer that says which angle a text denotes, if any.
const { FakeReader } = require("../lib/reader.js");

const DEG = ["°", " deg", " deg ", "DEG ", "° ", " ° ", " Deg"];
const MIN = ["'", "′", " '", "' "];
const SEC = ['"', "″", ' "'];

/** the angle(s) a text denotes: [{angle, dir}] or undefined */
function denote(text) {
  const s = text.trim();
  const bare = /^(-?\d+(?:\.\d+)?)$/;
  if (bare.test(s)) return [{ angle: Number(s) }];
  const two = /^(-?\d+(?:\.\d+)?)[\s,]+(-?\d+(?:\.\d+)?)$/.exec(s);
  if (two) return [{ angle: Number(two[1]) }, { angle: Number(two[2]) }];
  // tokens
  const toks = [];
  let rest = s;
  while (rest.length) {
    let m;
    if ((m = /^[\s,]+/.exec(rest))) toks.push(["sep"]);
    else if ((m = /^-?\d+(\.\d+)?/.exec(rest))) toks.push(["num", m[0]]);
    else if ((m = /^(°|deg)/i.exec(rest))) toks.push(["d"]);
    else if ((m = /^['′]/.exec(rest))) toks.push(["m"]);
    else if ((m = /^["″]/.exec(rest))) toks.push(["s"]);
    else if ((m = /^[nsew]/i.exec(rest))) toks.push(["dir", m[0].toUpperCase()]);
    else return undefined;
    rest = rest.slice(m[0].length);
  }
  const t = toks.filter((x) => x[0] !== "sep");
  const out = [];
  let i = 0;
  const part = (unit) => {
    if (t[i]?.[0] === "num" && t[i + 1]?.[0] === unit) {
      i += 2;
      return t[i - 2][1];
    }
  };
  while (i < t.length) {
    const d = part("d"), m = d == null ? undefined : part("m"), sec = m == null ? undefined : part("s");
    if (d == null) return undefined;
    if ((m != null && /\./.test(d)) || (sec != null && /\./.test(m))) return undefined;
    if ([m, sec].some((x) => x != null && (x.startsWith("-") || Number(x) >= 60))) return undefined;
    let dir;
    if (t[i]?.[0] === "dir") dir = t[i++][1];
    const mag = Math.abs(Number(d)) + Number(m ?? 0) / 60 + Number(sec ?? 0) / 3600;
    out.push({ angle: d.startsWith("-") || dir === "S" || dir === "W" ? -mag : mag, dir });
  }
  return out;
}

module.exports = {
  technique: "online monitor of read() over generated and mutated coordinate text (independent tokenizer as reference)",
  level: "exploration",
  rule: "one coordinate or position text read; distinct by text",
  assumptions: ["A hemisphere letter of the other axis (a latitude marked E) is not generated for single coordinates."],
  shards: () => [0, 1, 2, 3, 4, 5].map((k) => ({ name: "text", k })),
  minimums: () => ({ "oracle:denoted": 8000, "oracle:refused": 2500, "oracle:pair-denoted": 3000, "oracle:mutant-sound": 3000, "mutant:position": 300 }),
  /** one well-formed coordinate text and its angle */
  one(rng, ax, { dirRequired } = {}) {
    const max = ax === "lat" ? 90 : 180;
    const [P, N] = ax === "lat" ? ["N", "S"] : ["E", "W"];
    for (;;) {
      const neg = rng.bool(0.35);
      let dir = dirRequired || rng.bool(0.7) ? (rng.bool() ? P : N) : undefined;
      if (neg && dir === P) dir = N; // "-5° N" denotes nothing clear
      const form = rng.pick(dirRequired ? ["D", "DM", "DMS"] : ["D", "DM", "DMS", "B"]);
      const deg = rng.weighted([[4, () => rng.int(0, max)], [1, () => 0], [1, () => max]])();
      const frac = (n) => (rng.bool(0.2) ? "" : "." + rng.times(rng.int(1, n), () => rng.int(0, 9)).join(""));
      const pad = (x, n) => (rng.bool(0.15) ? String(x).padStart(n, "0") : String(x));
      const sixty = () => rng.weighted([[5, () => rng.int(0, 59)], [1, () => 59], [1, () => 0]])();
      const sg = neg ? "-" : "";
      let text, mag;
      if (form === "B") {
        text = sg + deg + frac(9);
        mag = Math.abs(Number(text));
        dir = undefined;
      } else if (form === "D") {
        const d = pad(deg, 3) + frac(9);
        text = sg + d + rng.pick(DEG);
        mag = Number(d);
      } else if (form === "DM") {
        const m = pad(sixty(), 2) + frac(6);
        text = sg + pad(deg, 3) + rng.pick(DEG) + rng.pick(["", " "]) + m + rng.pick(MIN);
        mag = deg + Number(m) / 60;
      } else {
        const m = pad(sixty(), 2), s = pad(sixty(), 2) + frac(5);
        text = sg + pad(deg, 3) + rng.pick(DEG) + rng.pick(["", " "]) + m + rng.pick(MIN) + rng.pick(["", " "]) + s + rng.pick(SEC);
        mag = deg + Number(m) / 60 + Number(s) / 3600;
      }
      if (dir) text = text.trimEnd() + rng.pick(["", " "]) + rng.pick([dir, dir, dir.toLowerCase()]);
      if (mag > max) continue;
      return { text, angle: neg || dir === N ? -mag : mag, dir, form };
    }
  },
  async run(ctx) {
    const { rng } = ctx;
    const reader = new FakeReader(ctx.lib, { ignoreZeroZeroLatLon: false, numericTags: [], geoTz: () => undefined }, 1);
    const total = ctx.n(6000, 40000);
    const deadline = Date.now() + ctx.n(60, 300) * 1000;
    const LON = "77.25";
    // hostile edits
    const mutate = (s) => {
      for (let k = rng.int(1, 2); k > 0; k--) {
        const i = rng.int(0, s.length);
        s = rng.pick([
          () => s.slice(0, i) + rng.pick([..."0123456789.-+°'\"′″NSEW ,;:/eE", "deg", "60", "  ", "\n", " 5° E", " garbage"]) + s.slice(i),
          () => s.slice(0, i) + s.slice(i + 1),
          () => s.replace(/\d+/, (m) => String(Number(m) + rng.pick([60, 90, 180, 100, 1000]))),
          () => s.replace(/(\d+)(\D*)$/, (m, d, e) => String(Number(d) + 60) + e),
          () => s + " " + s,
          () => s.replace(/[NSEW]/i, ""),
        ])();
      }
      return s;
    };
    const numeric = (t) => typeof t.GPSLatitude === "number" && typeof t.GPSLongitude === "number";
    const close = (a, b) => Math.abs(a - b) <= 1.0001e-6;
    try {
      for (let i = 0; i < total && Date.now() < deadline; i++) {
        const mode = rng.pick(["single", "single", "pair", "mutant", "mutant", "mutantpair", "bad"]);
        let report, expect, text;
        if (mode === "single") {
          const ax = rng.pick(["lat", "lon"]);
          const c = this.one(rng, ax);
          text = rng.pick(["", " "]) + c.text + rng.pick(["", " "]);
          expect = { [ax]: c.angle };
          report = ax === "lat" ? { GPSLatitude: text, GPSLongitude: LON } : { GPSLongitude: text, GPSLatitude: LON };
          expect[ax === "lat" ? "lon" : "lat"] = 77.25;
        } else if (mode === "pair") {
          const decimal = rng.bool(0.3);
          let a, b, sep;
          if (decimal) {
            const f = (m) => (rng.bool(0.4) ? "-" : "") + rng.int(0, m - 1) + (rng.bool(0.2) ? "" : "." + rng.times(rng.int(1, 8), () => rng.int(0, 9)).join(""));
            const x = f(90), y = f(180);
            text = x + rng.pick([" ", ", ", ",", "  "]) + y;
            expect = { lat: Number(x), lon: Number(y) };
          } else {
            a = this.one(rng, "lat", { dirRequired: true });
            b = this.one(rng, "lon", { dirRequired: true });
            const first = rng.bool(0.85) ? [a, b] : [b, a];
            sep = rng.pick(first[0].form === "DMS" ? [" ", ", ", ",", "  "] : [" "]);
            text = first[0].text + sep + first[1].text;
            expect = { lat: a.angle, lon: b.angle };
          }
          report = { GPSPosition: text };
        } else if (mode === "mutant" || mode === "bad") {
          const ax = rng.pick(["lat", "lon"]);
          if (mode === "mutant") text = mutate(this.one(rng, ax).text);
          else {
            const c = this.one(rng, ax).text;
            const L = ax === "lat" ? "N" : "E";
            text = rng.pick([
              () => `12° ${rng.int(60, 99)}' 10" ${L}`,
              () => `12° ${rng.int(0, 59)}' ${rng.int(60, 99)}.5" ${L}`,
              () => `12° ${rng.int(60, 120)}.25' ${L}`,
              () => `${(ax === "lat" ? 90 : 180) + rng.int(1, 400)}° ${L}`,
              () => `${ax === "lat" ? 90 : 180}° 0' 0.0${rng.int(1, 9)}" ${L}`,
              () => `${ax === "lat" ? 90 : 180}° 0.0${rng.int(1, 9)}' ${L}`,
              () => `${(ax === "lat" ? 90 : 180) + 0.001 * rng.int(1, 900)}`,
              () => c + " " + c,
              () => c + " trailing",
              () => "x" + c,
              () => `${rng.int(0, 80)}.5° 10' ${L}`,
              () => `${rng.int(0, 80)}° 10.5' 10" ${L}`,
              () => rng.pick(["", " ", "N", "°", "° N", "10 20 30", "10:20:30", "1/2", "NaN", "Infinity", "0x1F", "1e1", "+5", "5,5", "٣°", "5°5°5°", "deg", "10 deg ten' N"]),
            ])();
          }
          report = ax === "lat" ? { GPSLatitude: text, GPSLongitude: LON } : { GPSLongitude: text, GPSLatitude: LON };
          report._ax = ax;
        } else {
          const a = this.one(rng, "lat", { dirRequired: true }), b = this.one(rng, "lon", { dirRequired: true });
          text = mutate(a.text + " " + b.text);
          report = { GPSPosition: text };
        }
        const ax = report._ax;
        delete report._ax;
        const r = await reader.read(report);
        const t = r.value ?? {};
        const det = (x) => ({ mode, report, expect, status: r.status, reason: r.reason && String(r.reason), got: { lat: t.GPSLatitude, lon: t.GPSLongitude, latRef: t.GPSLatitudeRef, lonRef: t.GPSLongitudeRef, warnings: t.warnings }, ...x });
        ctx.saw(text, det());
        if (!ctx.check(r.status === "fulfilled", "read-succeeds", mode, det)) continue;
        if (mode === "single") ctx.check(numeric(t) && close(t.GPSLatitude, expect.lat) && close(t.GPSLongitude, expect.lon), "denoted", mode, det);
        else if (mode === "pair") ctx.check(numeric(t) && close(t.GPSLatitude, expect.lat) && close(t.GPSLongitude, expect.lon), "pair-denoted", mode, det);
        else {
          const d = denote(text);
          if (mode === "mutantpair") {
            if (!numeric(t)) continue;
            ctx.count("mutant:position");
            let lat = d?.find((x) => x.dir === "N" || x.dir === "S")?.angle, lon = d?.find((x) => x.dir === "E" || x.dir === "W")?.angle;
            if (d?.length === 2 && d[0].dir == null && d[1].dir == null) [lat, lon] = [d[0].angle, d[1].angle];
            ctx.check(d?.length === 2 && lat != null && lon != null && close(t.GPSLatitude, lat) && close(t.GPSLongitude, lon) && Math.abs(lat) <= 90 && Math.abs(lon) <= 180, "mutant-sound", mode, () => det({ denotes: d }));
          } else {
            const max = ax === "lat" ? 90 : 180;
            const angle = d?.length === 1 ? d[0].angle : undefined;
            const got = ax === "lat" ? t.GPSLatitude : t.GPSLongitude;
            // a position exists if both ends are numeric and in the file's place
            if (mode === "bad") ctx.check(!numeric(t), "refused", mode, det);
            else if (numeric(t)) {
              ctx.count("mutant:position");
              ctx.check(angle != null && Math.abs(angle) <= max && close(got, angle), "mutant-sound", mode, () => det({ denotes: d }));
            } else ctx.check(true, "mutant-sound", mode);
          }
        }
      }
    } finally {
      await reader.end();
    }
  },
};
