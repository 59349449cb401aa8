"use strict";
// C08: what read() makes of every combination of reported GPS tags.
const { pool } = require("../lib/ctx.js");
const { FakeReader } = require("../lib/reader.js");

const AX = {
  lat: { name: "GPSLatitude", max: 90, pos: ["N", "North", "n", "north", "N ", "N\0"], neg: ["S", "South", "s", "SOUTH", " S"], letters: "NS" },
  lon: { name: "GPSLongitude", max: 180, pos: ["E", "East", "e", "E "], neg: ["W", "West", "w", "WEST", " W"], letters: "EW" },
};
const r6 = (x) => Math.round(x * 1e6) / 1e6;
const near = (a, b) => Math.abs(a - b) <= 1.001e-6;

module.exports = {
  technique: "online monitor of read() over generated GPS reports (reference model of sign, range and reference rules; geoTz calls intercepted)",
  level: "exploration",
  rule: "one report read; distinct by the GPS part of the report and options",
  assumptions: ["A reported place less than a degree from the mirrored position, and more than a degree from the reported one, shows that the sign is wrong; at the edges of those distances, only range, rounding and agreement are checked."],
  shards: () => [0, 1, 2, 3, 4, 5].map((k) => ({ name: "gps", k })),
  minimums: () => ({ "oracle:value": 20000, "oracle:reference": 20000, "oracle:dropped": 2000, "oracle:geotz-args": 5000, "case:text": 3000, "case:position-only": 500, "case:zero-kept": 200, "case:grouped": 1500, "case:geolocation": 2000, "case:unusable": 300, "case:position-fallback": 300, "case:corrected": 300 }),
  /** one reported coordinate */
  coord(rng, ax) {
    const a = AX[ax];
    const mag = rng.weighted([
      [4, () => rng.float(0, a.max)],
      [2, () => r6(rng.float(0, a.max))],
      [2, () => rng.float(0, 0.02)],
      [1, () => rng.int(0, a.max)],
      [1.5, () => 0],
      [1, () => a.max],
      [0.5, () => rng.float(0, 1e-6)],
      [0.6, () => a.max + rng.pick([2e-6, 1e-4, 0.1, 1, 90, 1e9])],
    ])();
    let v = rng.bool(0.35) ? -mag : mag;
    const hasRef = rng.bool(0.7);
    const text = mag <= a.max && rng.bool(0.3);
    let value = v, negative = v < 0;
    if (text) {
      const dir = rng.pick([undefined, a.letters[0], a.letters[1]]);
      const deg = Math.floor(mag), min = Math.floor((mag - deg) * 60);
      const sec = Math.min(59.99, Math.round(((mag - deg) * 60 - min) * 60 * 100) / 100);
      v = v < 0 || Object.is(v, -0) ? -1 : 1;
      const m = deg + min / 60 + sec / 3600;
      if (m > a.max) return this.coord(rng, ax);
      value = `${v < 0 ? "-" : ""}${deg} deg ${min}' ${sec.toFixed(2)}"${dir ? " " + dir : ""}`;
      negative = v < 0 || dir === a.letters[1];
      v = negative ? -m : m;
    } else if (rng.bool(0.1) && Math.abs(v) > 1e-4) value = String(v); // numbers of many digits are quoted
    const ref = hasRef ? rng.pick(rng.bool(negative ? 0.15 : 0.7) ? a.pos : a.neg) : rng.bool(0.05) ? rng.pick(["", "?", "0", "Unknown"]) : undefined;
    if (ref != null && a.neg.includes(ref)) v = -Math.abs(v);
    return { v, value, ref, text, out: Math.abs(v) > a.max };
  },
  async run(ctx) {
    const { rng } = ctx;
    const calls = [];
    const geoTz = (lat, lon) => {
      calls.push([lat, lon]);
      return "Europe/Athens";
    };
    const readers = [true, false].map((z) => new FakeReader(ctx.lib, { ignoreZeroZeroLatLon: z, geoTz, maxTasksPerProcess: 1e6 }, 1));
    const total = ctx.n(4500, 30000);
    const deadline = Date.now() + ctx.n(60, 300) * 1000;
    try {
      for (let i = 0; i < total && Date.now() < deadline; i++) {
        const inst = rng.bool(0.5) ? 0 : 1;
        let ignore = inst === 0;
        const opts = {};
        if (rng.bool(0.2)) opts.ignoreZeroZeroLatLon = ignore = !ignore;
        const rep = { MIMEType: "image/jpeg", ImageWidth: 100, Make: "Acme", GPSAltitude: 12.5, GPSImgDirection: 33, GPSMapDatum: "WGS-84", Title: "t" };
        const c = { lat: this.coord(rng, "lat"), lon: this.coord(rng, "lon") };
        if (rng.bool(0.08)) Object.assign(c, { lat: { v: 0, value: 0, ref: rng.pick(["N", "S", undefined]) }, lon: { v: 0, value: rng.pick([0, "0 deg 0' 0.00\" E"]), ref: "E" } });
        let unusable = false;
        const positionOnly = rng.bool(0.1) && !c.lat.text && !c.lon.text;
        if (positionOnly && Math.max(Math.abs(c.lat.v), Math.abs(c.lon.v)) < 1e-6 && !(c.lat.v === 0 && c.lon.v === 0)) continue; // rounds to zero
        if (positionOnly) {
          ctx.count("case:position-only");
          const num = (x) => x.toFixed(7);
          for (const k of ["lat", "lon"]) c[k] = { v: Number(num(c[k].v)), ref: undefined, out: Math.abs(Number(num(c[k].v))) > AX[k].max };
          rep.GPSPosition = num(c.lat.v) + rng.pick([" ", ", ", ","]) + num(c.lon.v);
        } else {
          for (const k of ["lat", "lon"]) {
            rep[AX[k].name] = c[k].value;
            if (c[k].ref != null) rep[AX[k].name + "Ref"] = c[k].ref;
          }
          if (rng.bool(0.1)) {
            unusable = true;
            ctx.count("case:unusable");
            rep[rng.pick(["GPSLatitude", "GPSLongitude"])] = rng.pick(["garbage", "12 deg 70' 0\" N", "1 2 3", "12.5.1", "--5", "N", "12,5", "0x10", "5 deg N 6 deg E", [1, 2], { a: 1 }, true]);
            if (rng.bool(0.4) && Math.max(Math.abs(c.lat.v), Math.abs(c.lon.v)) > 1e-5) {
              // the combined position stands in for it
              unusable = false;
              ctx.count("case:position-fallback");
              for (const k of ["lat", "lon"]) c[k] = { ...c[k], v: Number(c[k].v.toFixed(7)) };
              rep.GPSPosition = `${c.lat.v.toFixed(7)} ${c.lon.v.toFixed(7)}`;
            }
          } else if (rng.bool(0.05)) {
            unusable = true;
            delete rep[rng.pick(["GPSLatitude", "GPSLongitude"])];
          } else if (rng.bool(0.5)) rep.GPSPosition = `${c.lat.v} ${c.lon.v}`;
        }
        if (c.lat.text || c.lon.text) ctx.count("case:text");
        let mirrored = false;
        const wrongSign = [];
        const gz = rng.bool(0.4);
        if (gz) {
          ctx.count("case:geolocation");
          const g = {};
          for (const k of ["lat", "lon"]) {
            let x = c[k].v + rng.float(-0.9, 0.9) * rng.pick([1, 0.1, 0.01]);
            if (rng.bool(0.1)) x = rng.float(-AX[k].max, AX[k].max);
            if (rng.bool(0.08)) x = -x;
            x = Math.max(-AX[k].max, Math.min(AX[k].max, Math.round(x * 1e4) / 1e4));
            g[k] = x;
            // the library takes a place at the mirrored position for a wrong sign
            const gap = Math.abs(Math.abs(x) - Math.abs(c[k].v));
            if (gap < 1.001 && Math.abs(x - c[k].v) > 0.999) {
              if (gap < 0.999 && Math.abs(x - c[k].v) > 1.001 && Math.abs(x) > 1e-3 && Math.abs(c[k].v) > 1e-3 && !c[k].out) wrongSign.push(k);
              else mirrored = true;
            }
          }
          Object.assign(rep, { GeolocationCity: "Somewhere", GeolocationPosition: `${g.lat}, ${g.lon}`, GeolocationTimeZone: "Asia/Tokyo", GeolocationDistance: "1 km" });
        }
        if (!mirrored && !unusable && !c.lat.out && !c.lon.out)
          for (const k of wrongSign) {
            ctx.count("case:corrected");
            c[k] = { ...c[k], v: -c[k].v };
          }
        const grouped = rng.bool(0.15);
        let report = rep;
        if (grouped) {
          ctx.count("case:grouped");
          report = {};
          for (const [k, v] of Object.entries(rep)) report[(/^GPS/.test(k) ? "Composite:" : /^Geol/.test(k) ? "ExifTool:" : "File:") + k] = v;
          opts.readArgs = ["-G"];
        }
        calls.length = 0;
        const r = await readers[inst].read(report, Object.keys(opts).length ? opts : undefined);
        const det = (x) => ({ report, opts, ignore, status: r.status, reason: r.reason && String(r.reason), model: { lat: c.lat.v, lon: c.lon.v }, got: r.value && Object.fromEntries(Object.entries(r.value).filter(([k]) => /GPS|Geol|zone|tz|warn/i.test(k))), geoTz: calls, ...x });
        if (!ctx.check(r.status === "fulfilled", "read-succeeds", "gps", det)) continue;
        const t = r.value;
        const get = (k) => t[(grouped ? (/^GPS/.test(k) ? "Composite:" : "ExifTool:") : "") + k];
        const gpsKeys = Object.keys(t).filter((k) => /(^|:)(GPS|Geolocation)/.test(k));
        const zero = c.lat.v === 0 && c.lon.v === 0;
        const cls = `${inst}${grouped ? "G" : ""}${gz ? "g" : ""}${positionOnly ? "p" : ""}`;
        ctx.saw(`${cls}/${ignore}/${JSON.stringify(report)}`, det());
        for (const [a, b] of calls) ctx.check(Math.abs(a) <= 90 && Math.abs(b) <= 180 && a === t.GPSLatitude && b === t.GPSLongitude, "geotz-args", cls, det);
        if (unusable) {
          ctx.check(!(typeof t.GPSLatitude === "number" && typeof t.GPSLongitude === "number" && t.GPSLatitudeRef?.length === 1 && t.GPSLongitudeRef?.length === 1), "unusable-no-position", cls, det);
          ctx.check(t.zone == null && calls.length === 0, "unusable-no-zone", cls, det);
          continue;
        }
        if (c.lat.out || c.lon.out || (zero && ignore)) {
          ctx.check(gpsKeys.length === 0, "dropped", cls + (zero ? "zero" : "range"), det);
          ctx.check(t.zone == null && t.tz == null && t.tzSource == null && calls.length === 0, "no-zone-from-dropped", cls, det);
          ctx.check(t[grouped ? "File:Title" : "Title"] === "t", "others-kept", cls, det);
          continue;
        }
        if (zero) ctx.count("case:zero-kept");
        for (const k of ["lat", "lon"]) {
          const a = AX[k];
          for (const [v, ref] of [[t[a.name], t[a.name + "Ref"]], ...(grouped && !positionOnly ? [[get(a.name), c[k].ref == null ? t[a.name + "Ref"] : get(a.name + "Ref")]] : [])]) {
            ctx.check(typeof v === "number" && Math.abs(v) <= a.max && Math.abs(v * 1e6 - Math.round(v * 1e6)) < 1e-3 && (mirrored ? near(Math.abs(v), Math.abs(c[k].v)) : near(v, c[k].v)), "value", `${cls} ${k}`, det);
            if (Math.abs(c[k].v) > 1e-6) ctx.check(ref === (v < 0 ? a.letters[1] : a.letters[0]), "reference", `${cls} ${k}`, det);
            else ctx.check(a.letters.includes(ref) && ref.length === 1, "reference", `${cls} ${k}`, det);
          }
        }
        ctx.check(t.tz === (gz ? "Asia/Tokyo" : "Europe/Athens") && (gz || calls.length > 0), "zone-from-position", cls, det);
      }
    } finally {
      for (const r of readers) await r.end();
    }
  },
};
