"use strict";
// C10: ExifDateTime against calendar arithmetic that does not use luxon.
const W = require("../lib/when.js");
const { p2 } = W;
const MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const DAY = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
const ABBR = { EST: -300, EDT: -240, PST: -480, PDT: -420, CET: 60, CEST: 120, JST: 540, MST: -420, HST: -600, GMT: 0, NZDT: 780, ACST: 570, NPT: 345, WET: 0 };
// luxon resolves wall clocks wrongly, by an hour or a day, between Apia's first summer time and its jump over the date line
const blurred = (zone, ms) => zone === "Pacific/Apia" && ms > W.utc(2010, 6, 1) && ms < W.utc(2012, 1, 3);
const instantsOf = (zone, local) => (blurred(zone, local) ? [] : W.instants(zone, local));
const HOSTS = ["UTC", "America/New_York", "Australia/Lord_Howe", "Pacific/Apia", "Europe/London", "Asia/Kathmandu", "America/Sao_Paulo"];
const show = (d) => (d == null ? d : { ...d.toJSON(), zone: d.zone, iso: d.toISOString(), millis: d.toMillis() });

module.exports = {
  technique: "online monitor of ExifDateTime over generated texts, zones and instants (calendar and zone arithmetic independent of luxon as oracle; host zones and current dates varied)",
  level: "exploration",
  rule: "one date-time text or value put through parsing, rendering and conversions; distinct by text and zone",
  assumptions: [
    "Years 100 to 9999; IANA zones from 1988 on (no local mean time, no offsets the library calls invalid).",
    "Wall-clock times that a named zone skips are not generated with that zone.",
    "Pacific/Apia from June 2010 to January 2012 is left out: luxon itself resolves wall clocks there wrongly.",
    "Fractions of a second beyond milliseconds are truncated, as documented by the fields.",
  ],
  shards: () => HOSTS.map((tz) => ({ name: "dt", env: { TZ: tz } })),
  minimums: () => ({ "oracle:fields": 20000, "oracle:zone": 20000, "oracle:instant": 15000, "oracle:raw-value": 20000, "oracle:exif-roundtrip": 20000, "oracle:iso-roundtrip": 20000, "oracle:json-roundtrip": 20000, "oracle:luxon-roundtrip": 20000, "oracle:millis-roundtrip": 10000, "oracle:refused": 8000, "oracle:setzone-instant": 10000, "oracle:setzone-local": 10000, "oracle:plus": 8000, "case:fold": 300, "case:host-gap": 200 }),
  fields(rng) {
    const y = rng.weighted([[8, () => rng.int(1970, 2060)], [2, () => rng.int(1000, 9999)], [0.3, () => rng.int(100, 999)]])();
    const m = rng.int(1, 12);
    const d = rng.bool(0.15) ? W.daysIn(y, m) : rng.int(1, W.daysIn(y, m));
    return { y, m, d, h: rng.weighted([[5, () => rng.int(0, 23)], [1, () => 0], [1, () => 2]])(), mi: rng.int(0, 59), s: rng.int(0, 59) };
  },
  async run(ctx) {
    const { rng } = ctx;
    const { ExifDateTime, parseJSON } = ctx.lib;
    const { DateTime } = require(require.resolve("luxon", { paths: [ctx.buildRoot + "/dist"] }));
    const realNow = Date.now;
    const end = realNow() + ctx.n(50, 300) * 1000;
    const host = process.env.TZ;
    const hostGaps = W.transitionsOf(host).filter((t) => t.after > t.before);
    const N = ctx.n(6000, 60000);
    for (let i = 0; i < N && realNow() < end; i++) {
      // the current date must not matter
      if (i % 50 === 0) {
        const now = rng.pick([W.utc(2024, 1, 15), W.utc(2024, 7, 15), W.utc(2024, 3, 10, 7, 30), W.utc(2024, 11, 3, 5, 30), realNow()]);
        Date.now = () => now;
      }
      this.one(ctx, rng, ExifDateTime, parseJSON, DateTime, hostGaps);
      this.refuse(ctx, rng, ExifDateTime);
    }
    Date.now = realNow;
  },
  one(ctx, rng, ExifDateTime, parseJSON, DateTime, hostGaps) {
    let f = this.fields(rng);
    if (hostGaps.length && rng.bool(0.1)) {
      // a wall clock time the host's zone skipped
      const g = rng.pick(hostGaps);
      f = fieldsOf(g.ms + g.before * 60000 + rng.int(0, (g.after - g.before) * 60 - 1) * 1000);
      ctx.count("case:host-gap");
    }
    let foldZone;
    if (rng.bool(0.12)) {
      // a wall clock time that happened twice in some zone
      const z = rng.pick(W.ZONES);
      const g = W.transitionsOf(z).filter((t) => t.after < t.before);
      if (g.length) {
        const x = rng.pick(g);
        f = fieldsOf(x.ms + x.after * 60000 + rng.int(0, (x.before - x.after) * 60 - 1) * 1000);
        foldZone = z;
      }
    }
    const date = (sep, pad) => `${f.y}${sep}${pad ? p2(f.m) : f.m}${sep}${pad ? p2(f.d) : f.d}`;
    const shape = rng.pick(["exif", "exif", "exif", "iso", "iso", "isospace", "loose"]);
    let frac = "", ms, noSec = false, text, via;
    if (shape === "loose") {
      const h12 = ((f.h + 11) % 12) + 1;
      const wd = DAY[new Date(W.utc(f.y, f.m, f.d)).getUTCDay()];
      const hms = `${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`, hmsa = `${h12}:${p2(f.mi)}:${p2(f.s)} ${f.h < 12 ? "AM" : "PM"}`;
      text = rng.pick([
        `${MON[f.m - 1]} ${f.d} ${f.y} ${hms}`,
        `${MON[f.m - 1]} ${f.d} ${f.y}, ${hms}`,
        `${wd} ${MON[f.m - 1]} ${f.d} ${hms} ${f.y}`,
        `${wd} ${f.d} ${MON[f.m - 1]} ${f.y} ${hmsa}`,
        `${wd} ${f.d} ${MON[f.m - 1]} ${f.y} ${hms}`,
        `${f.d} ${MON[f.m - 1]} ${f.y} ${hmsa}`,
        `${f.d} ${MON[f.m - 1]} ${f.y} ${hms}`,
      ]);
      ms = 0;
      via = rng.pick(["from", "fromEXIF", "fromExifLoose"]);
    } else {
      if (rng.bool(0.5)) {
        const digits = rng.pick([1, 2, 3, 3, 3, 6, 9]);
        frac = rng.bool(0.1) ? "0".repeat(digits) : rng.times(digits, () => rng.int(0, 9)).join("");
        ms = Number(frac.padEnd(3, "0").slice(0, 3));
      } else if (rng.bool(0.08)) {
        noSec = true;
        f.s = 0;
      }
      const time = `${p2(f.h)}:${p2(f.mi)}` + (noSec ? "" : `:${p2(f.s)}`) + (frac && "." + frac);
      const pad = shape === "iso" || rng.bool(0.85);
      text = date(shape === "exif" ? ":" : "-", pad) + (shape === "iso" ? "T" : " ") + time;
      via = rng.pick(shape === "exif" ? ["from", "fromEXIF", "fromExifStrict"] : ["from", "fromEXIF", "fromISO", "fromExifStrict"]);
    }
    // zone: stated, defaulted, both or none
    let off, name, stated = false, inferred = false, dflt;
    const k = foldZone ? "default" : rng.pick(["none", "none", "offset", "offset", "offset", "z", "abbr", "default", "default+offset"]);
    if ((k === "offset" || k === "default+offset") && !(shape === "loose" && /[AP]M$/.test(text))) {
      off = rng.pick(W.OFFSETS);
      let o = W.offsetText(off, { colon: rng.pick([":", ":", ""]), minutes: rng.bool(0.85) });
      if (rng.bool(0.05)) o = o.replace("-", "−");
      text += o;
      stated = true;
    } else if (k === "z" && !/[AP]M$/.test(text)) {
      text += "Z";
      off = 0;
      stated = true;
    } else if (k === "abbr" && !/[AP]M$/.test(text)) {
      const a = rng.pick(Object.keys(ABBR));
      text += " " + a;
      off = ABBR[a];
      stated = true;
    }
    if (k.startsWith("default")) {
      dflt = foldZone ?? rng.pick(["UTC", "UTC+5", "UTC-3:30", "UTC+5:45", ...W.ZONES]);
      if (!stated) {
        inferred = true;
        const fx = /^UTC(?:([+-])(\d+)(?::(\d+))?)?$/.exec(dflt);
        if (fx) off = fx[1] ? (fx[1] === "-" ? -1 : 1) * (Number(fx[2]) * 60 + Number(fx[3] ?? 0)) : 0;
        else if (f.y < 1988) return;
        else name = dflt;
      }
    }
    const local = W.utc(f.y, f.m, f.d, f.h, f.mi, f.s, ms ?? 0);
    let cands;
    if (name) {
      cands = instantsOf(name, local);
      if (cands.length === 0) return; // skipped there
      if (cands.length === 2) ctx.count("case:fold");
    } else if (off != null) cands = [local - off * 60000];
    const d = dflt === undefined ? ExifDateTime[via](text) : ExifDateTime[via](text, dflt);
    // asking for another zone leaves no trace
    const over = rng.bool(0.3) ? rng.pick(["Asia/Tokyo", "UTC", "UTC-3:30", ...W.ZONES]) : undefined;
    if (over && d) {
      const o = d.toDateTime(over);
      ctx.check(o.hour === f.h || instantsOf(over, W.utc(f.y, f.m, f.d, f.h, f.mi, f.s, ms ?? 0)).length === 0, "override-zone", "wall clock", () => ({ text, over, got: o.toISO() }));
      ctx.check(d.toEpochSeconds(over) === Math.floor(o.toMillis() / 1000), "override-zone", "epoch", () => ({ text, over, got: d.toEpochSeconds(over), want: o.toISO() }));
    }
    const det = (x) => ({ text, via, over, default: dflt, host: process.env.TZ, now: new Date(Date.now()).toISOString(), got: show(d), ...x });
    ctx.saw(`${text}|${dflt}|${via}`, det());
    if (!ctx.check(d instanceof ExifDateTime, "parsed", shape + k, det)) return;
    const same = (x) => x != null && x.year === f.y && x.month === f.m && x.day === f.d && x.hour === f.h && x.minute === f.mi && x.second === f.s;
    ctx.check(same(d) && d.millisecond === ms, "fields", `${shape} ${k}`, () => det({ want: { ...f, ms } }));
    const wantOff = cands?.map((c) => (local - c) / 60000);
    ctx.check(cands ? d.hasZone && wantOff.includes(d.tzoffsetMinutes) && (!name || d.zone === name) : !d.hasZone && d.zone == null && d.tzoffsetMinutes == null, "zone", `${shape} ${k}`, () => det({ wantOff, name }));
    ctx.check(!!d.inferredZone === inferred, "inferred-flag", `${shape} ${k}`, det);
    ctx.check(d.rawValue === text, "raw-value", shape, det);
    if (cands) ctx.check(cands.includes(d.toMillis()) && d.toDate().getTime() === d.toMillis() && d.toEpochSeconds() === Math.floor(d.toMillis() / 1000) && (local - d.toMillis()) / 60000 === d.tzoffsetMinutes, "instant", `${shape} ${k}`, () => det({ cands }));
    const T = cands ? d.toMillis() : undefined;
    this.trips(ctx, rng, ExifDateTime, parseJSON, DateTime, d, f, ms, local, T, name, det);
    // an instant shown in a named zone, in particular while clocks fall back
    if (rng.bool(0.5)) {
      const z = rng.pick(W.ZONES);
      const tr = W.transitionsOf(z).filter((t) => t.after < t.before);
      const at = tr.length && rng.bool(0.6) ? rng.pick(tr).ms + rng.int(-3700, 3700) * 1000 + rng.pick([0, 0, 123]) : W.utc(1988, 1, 1) + rng.int(0, 1.2e9) * 1000;
      if (blurred(z, at)) return;
      const e = ExifDateTime.fromMillis(at, { zone: z });
      const o = W.offsetAt(z, at);
      const loc = new Date(at + o * 60000);
      const det2 = (x) => ({ ...x, at, zone: z, offset: o, got: show(e), host: process.env.TZ });
      ctx.check(e.toMillis() === at && e.tzoffsetMinutes === o && e.zone === z && e.year === loc.getUTCFullYear() && e.hour === loc.getUTCHours() && e.minute === loc.getUTCMinutes() && e.millisecond === loc.getUTCMilliseconds(), "millis-in-zone", "fromMillis", det2);
      const dt = DateTime.fromMillis(at, { zone: z });
      ctx.check(ExifDateTime.fromDateTime(dt)?.toMillis() === at && ExifDateTime.fromDateTime(dt)?.millisecond === dt.millisecond, "luxon-roundtrip", "fold", det2);
      ctx.saw(`${at}|${z}`);
      this.trips(ctx, rng, ExifDateTime, parseJSON, DateTime, e, { y: e.year, m: e.month, d: e.day, h: e.hour, mi: e.minute, s: e.second }, e.millisecond, at + o * 60000, at, z, det2);
    }
  },
  trips(ctx, rng, ExifDateTime, parseJSON, DateTime, d, f, ms, local, T, name, det) {
    const hasZone = T != null;
    const same = (x) => x != null && x.year === f.y && x.month === f.m && x.day === f.d && x.hour === f.h && x.minute === f.mi && x.second === f.s && x.millisecond === ms;
    const sameZone = (x) => x.hasZone === hasZone && x.tzoffsetMinutes === d.tzoffsetMinutes && (!hasZone || x.toMillis() === T);
    // EXIF text
    const exif = d.toExifString();
    const exifWant = `${f.y}:${p2(f.m)}:${p2(f.d)} ${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}${ms == null ? "" : "." + String(ms).padStart(3, "0")}${hasZone ? W.offsetText((local - T) / 60000) : ""}`;
    ctx.check(exif === exifWant, "exif-text", "exif", () => det({ exif, exifWant }));
    const e = ExifDateTime.fromEXIF(exif);
    const readable = !hasZone || W.OFFSETS.includes((local - T) / 60000); // others are refused
    if (readable) ctx.check(same(e) && sameZone(e) && e.rawValue === exif, "exif-roundtrip", "exif", () => det({ exif, back: show(e) }));
    // ISO text
    const iso = d.toISOString();
    const o = (local - T) / 60000;
    const isoWant = `${String(f.y).padStart(4, "0")}-${p2(f.m)}-${p2(f.d)}T${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}${ms == null ? "" : "." + String(ms).padStart(3, "0")}`;
    ctx.check(hasZone ? iso === isoWant + W.offsetText(o) || (o === 0 && iso === isoWant + "Z") : iso === isoWant, "iso-text", "iso", () => det({ iso, isoWant }));
    ctx.check(d.toString() === iso && d.toISOString({ includeOffset: false }) === isoWant, "iso-text", "options", () => det({ s: d.toString() }));
    const b = ExifDateTime.fromISO(iso);
    if (readable) ctx.check(same(b) && sameZone(b), "iso-roundtrip", "iso", () => det({ iso, back: show(b) }));
    // JSON
    for (const j of [ExifDateTime.fromJSON(JSON.parse(JSON.stringify(d))), parseJSON(JSON.stringify({ d })).d]) ctx.check(j instanceof ExifDateTime && same(j) && sameZone(j) && j.zone === d.zone && j.rawValue === d.rawValue && j.inferredZone === d.inferredZone && JSON.stringify(j) === JSON.stringify(d), "json-roundtrip", "json", () => det({ back: show(j) }));
    // luxon and milliseconds
    const l = d.toDateTime();
    ctx.check(l.isValid && (hasZone ? l.toMillis() === T && l.year === f.y && l.hour === f.h && l.minute === f.mi : true), "luxon", "luxon", () => det({ luxon: l.toISO() }));
    if (hasZone) {
      const u = ExifDateTime.fromDateTime(l, { rawValue: d.rawValue, unsetMilliseconds: ms == null, inferredZone: d.inferredZone });
      ctx.check(same(u) && sameZone(u) && u.rawValue === d.rawValue, "luxon-roundtrip", "luxon", () => det({ back: show(u) }));
      const mo = { zone: d.zone, rawValue: d.rawValue };
      const m = ExifDateTime.fromMillis(T, mo);
      ctx.check(m.rawValue === d.rawValue && mo.rawValue === d.rawValue && mo.zone === d.zone, "raw-value", "millis", () => det({ back: show(m) }));
      ctx.check(m.toMillis() === T && m.hour === f.h && m.minute === f.mi && m.day === f.d && m.tzoffsetMinutes === d.tzoffsetMinutes, "millis-roundtrip", "millis", () => det({ back: show(m) }));
    }
    // zones
    const z = rng.pick(["UTC", "UTC+9", "UTC-3:30", ...W.ZONES]);
    const zoff = (t) => (/^UTC/.test(z) ? { UTC: 0, "UTC+9": 540, "UTC-3:30": -210 }[z] : W.offsetAt(z, t));
    if (f.y >= 1988) {
      if (hasZone) {
        const s = d.setZone(z);
        const w = new Date(T + zoff(T) * 60000);
        ctx.check(s != null && s.toMillis() === T && s.zone === z && s.hour === w.getUTCHours() && s.minute === w.getUTCMinutes() && s.day === w.getUTCDate() && s.millisecond === ms && s.rawValue === d.rawValue, "setzone-instant", "setZone", () => det({ z, back: show(s) }));
      }
      const opts = hasZone ? { keepLocalTime: true } : rng.pick([undefined, { keepLocalTime: true }, { inferredZone: false }]);
      const cands = /^UTC/.test(z) ? [local - zoff() * 60000] : instantsOf(z, local);
      if (cands.length) {
        const s = d.setZone(z, opts);
        ctx.check(same(s) && s.zone === z && cands.includes(s.toMillis()) && s.inferredZone === (opts?.inferredZone ?? true), "setzone-local", "setZone", () => det({ z, opts, cands, back: show(s) }));
      }
    }
    ctx.check(same(d) && d.toExifString() === exif, "unchanged", "immutable", det);
    // arithmetic
    if (rng.bool(0.5) && f.y > 1988 && f.y < 9000) {
      const dur = { hours: rng.int(-50, 50), minutes: rng.int(-90, 90), seconds: rng.int(-90, 90) };
      const delta = ((dur.hours * 60 + dur.minutes) * 60 + dur.seconds) * 1000;
      const p = d.plus(dur);
      if (hasZone) ctx.check(p?.toMillis() === T + delta && p.zone === d.zone && p.millisecond === ms, "plus", "zoned", () => det({ dur, back: show(p) }));
      else {
        const w = new Date(local + delta);
        ctx.check(p != null && !p.hasZone && p.year === w.getUTCFullYear() && p.month === w.getUTCMonth() + 1 && p.day === w.getUTCDate() && p.hour === w.getUTCHours() && p.minute === w.getUTCMinutes() && p.second === w.getUTCSeconds() && p.millisecond === ms, "plus", "zoneless", () => det({ dur, back: show(p) }));
      }
      const plain = d.plus({ days: 1 });
      const w = new Date(local + 86400000);
      if (!name) ctx.check(plain.day === w.getUTCDate() && plain.month === w.getUTCMonth() + 1 && plain.hour === f.h && plain.minute === f.mi && plain.hasZone === hasZone && plain.millisecond === ms, "plus", "day", () => det({ back: show(plain) }));
      // matching another timestamp's zone
      const tz = rng.pick(W.OFFSETS.filter((x) => x !== 0));
      const skew = rng.pick([0, 60, -300, 800, 1000, 7200]) * 1000;
      const t2 = (hasZone ? T : local - tz * 60000) + skew;
      const target = ExifDateTime.fromEXIF(ExifDateTime.fromMillis(t2, { zone: offName(tz) }).toExifString());
      const max = rng.pick([14, 14, 1, 60, 180]) * 60000;
      const mm = max === 14 * 60000 ? d.maybeMatchZone(target) : d.maybeMatchZone(target, max);
      // without a zone, the reading may also be taken for the host's
      const T0 = hasZone ? T : d.toMillis();
      const ok = mm == null ? Math.abs(skew) > max || !hasZone : mm.zone === target.zone && Math.abs(mm.toMillis() - t2) <= max && (mm.toMillis() === T0 ? true : mm.hour === f.h && mm.minute === f.mi && mm.day === f.d) && mm.second === f.s;
      ctx.check(ok, "match-zone", hasZone ? "zoned" : "zoneless", () => det({ target: show(target), skew, max, back: show(mm) }));
      if (!hasZone && Math.abs(skew) <= max) ctx.check(mm != null, "match-zone", "expected", () => det({ target: show(target), skew, max }));
    }
  },
  refuse(ctx, rng, ExifDateTime) {
    const f = this.fields(rng);
    const t = `${p2(f.h)}:${p2(f.mi)}:${p2(f.s)}`;
    const y = f.y, M = p2(f.m), D = p2(f.d);
    const iso = rng.bool();
    const join = (Y, m, d, time) => (iso ? `${Y}-${m}-${d}T${time}` : `${Y}:${m}:${d} ${time}`);
    const text = rng.pick([
      () => join(y, rng.pick(["00", "13", "99"]), D, t),
      () => join(y, M, rng.pick(["00", p2(W.daysIn(y, f.m) + 1), "32", "45"]), t),
      () => join(y, M, D, `${rng.int(25, 99)}:00:00`),
      () => join(y, M, D, `12:${rng.int(60, 99)}:00`),
      () => join(y, M, D, `12:00:${rng.int(60, 99)}`),
      () => join(y, M, D, t) + rng.pick([" garbage", "x", "+25:00", "+15:00", "+01:17", "-13:00", "+99", "+", "Q", " 5", "!"]),
      () => rng.pick(["x", "at ", "#"]) + join(y, M, D, t),
      () => join(rng.pick(["0000", "0001"]), rng.pick(["00", "01"]), rng.pick(["00", "01"]), rng.pick([t, "00:00:00"])),
      () => rng.pick(["", " ", "    :  :     :  :  ", "0000:00:00 00:00:00", "0000:00:00", "undefined", "12345", "1234567890", "now", "2020:01:02", "12:30:00", "T12:00:00", "2020-W01-1T00:00:00"]),
      () => `${MON[f.m - 1]} ${W.daysIn(y, f.m) + 1} ${y} ${t}`,
      () => `Foo ${f.d} ${y} ${t}`,
      // the weekday contradicts the date
      () => `${DAY[(new Date(W.utc(y, f.m, f.d)).getUTCDay() + rng.int(1, 6)) % 7]} ${MON[f.m - 1]} ${f.d} ${t} ${y}`,
    ])();
    for (const via of ["from", "fromEXIF", "fromISO", "fromExifStrict"]) {
      let d, err;
      try {
        d = ExifDateTime[via](text);
      } catch (e) {
        err = e;
      }
      ctx.check(err == null && d == null, "refused", via, () => ({ text, via, got: show(d), err: String(err) }));
    }
    ctx.saw("refuse/" + text, { text, refused: true });
  },
};
const fieldsOf = (local) => {
  const t = new Date(local);
  return { y: t.getUTCFullYear(), m: t.getUTCMonth() + 1, d: t.getUTCDate(), h: t.getUTCHours(), mi: t.getUTCMinutes(), s: t.getUTCSeconds() };
};
const offName = (m) => `UTC${m < 0 ? "-" : "+"}${Math.floor(Math.abs(m) / 60)}${m % 60 ? ":" + p2(Math.abs(m) % 60) : ""}`;
