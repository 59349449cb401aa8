"use strict";
// C11: ExifDate and ExifTime against calendar arithmetic that does not use luxon.
const W = require("../lib/when.js");
const { p2 } = W;
const MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
const HOSTS = ["UTC", "America/New_York", "Pacific/Apia", "Australia/Lord_Howe", "Asia/Kathmandu", "America/Sao_Paulo"];
const DST_DAYS = [W.utc(2024, 3, 10, 12), W.utc(2024, 11, 3, 12), W.utc(2024, 3, 31, 12), W.utc(2024, 10, 6, 2), W.utc(2024, 1, 15), W.utc(2024, 7, 15), W.utc(2018, 11, 4, 12)];
const json = (x) => (x == null ? x : x.toJSON());

module.exports = {
  technique: "online monitor of ExifDate and ExifTime over generated texts (calendar arithmetic independent of luxon as oracle; host zones and current dates varied)",
  level: "exploration",
  rule: "one date or time text put through parsing, rendering and conversions; distinct by text, parser and zone",
  assumptions: [
    "Years 100 to 9999 in dates with months.",
    "The offset a time of day with an IANA zone is rendered with depends on the current date: only its fields and zone are checked.",
  ],
  shards: () => HOSTS.map((tz) => ({ name: "dates", env: { TZ: tz } })),
  minimums: () => ({ "oracle:date-fields": 30000, "oracle:date-text": 30000, "oracle:date-roundtrip": 30000, "oracle:date-json": 30000, "oracle:date-refused": 20000, "oracle:time-fields": 30000, "oracle:time-text": 20000, "oracle:time-roundtrip": 20000, "oracle:time-json": 30000, "oracle:time-refused": 15000, "oracle:time-setzone": 15000, "case:skipped-day": 50 }),
  async run(ctx) {
    const { rng } = ctx;
    const realNow = Date.now;
    const end = realNow() + ctx.n(45, 300) * 1000;
    const N = ctx.n(9000, 90000);
    for (let i = 0; i < N && realNow() < end; i++) {
      if (i % 20 === 0) {
        const now = rng.pick([...DST_DAYS, realNow()]);
        Date.now = () => now;
      }
      this.date(ctx, rng);
      this.time(ctx, rng);
      this.refuse(ctx, rng);
    }
    Date.now = realNow;
  },
  date(ctx, rng) {
    const { ExifDate, parseJSON } = ctx.lib;
    let y = rng.weighted([[6, () => rng.int(1900, 2100)], [2, () => rng.int(1000, 9999)], [0.5, () => rng.int(100, 999)]])();
    let m = rng.int(1, 12), d = rng.bool(0.2) ? W.daysIn(y, m) : rng.int(1, W.daysIn(y, m));
    if (rng.bool(0.01)) {
      [y, m, d] = rng.pick([[2011, 12, 30], [2000, 2, 29], [1582, 10, 10], [1900, 2, 28]]);
      ctx.count("case:skipped-day");
    }
    const kind = rng.pick(["full", "full", "full", "ym", "y", "ynum"]);
    let text, via, F;
    if (kind === "full") {
      const mo = MONTHS[m - 1];
      const forms = [
        [`${y}:${p2(m)}:${p2(d)}`, ["from", "fromEXIF", "fromExifStrict"]],
        [`${y}-${p2(m)}-${p2(d)}`, ["from", "fromEXIF", "fromExifStrict", ...(y > 999 ? ["fromISO"] : [])]],
        [`${y}:${m}:${d}`, ["from", "fromEXIF", "fromExifStrict"]],
        [`${mo.slice(0, 3)} ${d} ${y}`, ["from", "fromEXIF", "fromExifLoose"]],
        [`${mo} ${rng.pick([d, p2(d)])} ${y}`, ["from", "fromEXIF", "fromExifLoose"]],
      ];
      const f = rng.pick(forms);
      text = f[0];
      via = rng.pick(f[1]);
      F = { year: y, month: m, day: d };
    } else if (kind === "ym") {
      text = `${y}${rng.pick([":", "-"])}${rng.pick([p2(m), String(m)])}`;
      via = rng.pick(["from", "fromYearMonth"]);
      F = { year: y, month: m, day: undefined };
    } else {
      y = rng.int(1, 9999);
      text = kind === "y" ? String(y).padStart(rng.pick([1, 4]), "0") : y;
      via = rng.pick(["from", "fromYear"]);
      F = { year: y, month: undefined, day: undefined };
    }
    const padded = typeof text === "string" && via !== "fromISO" && rng.bool(0.05) ? ` ${text} ` : text;
    const r = ExifDate[via](padded);
    const det = (x) => ({ text: padded, via, host: process.env.TZ, want: F, got: json(r), ...x });
    ctx.saw(`d|${padded}|${via}`, det());
    const same = (x) => x instanceof ExifDate && x.year === F.year && x.month === F.month && x.day === F.day;
    if (!ctx.check(same(r) && r.rawValue === String(text), "date-fields", kind, det)) return;
    const full = F.day != null, ym = !full && F.month != null;
    ctx.check(r.isFullDate() === full && r.isYearMonth() === ym && r.isYearOnly() === (F.month == null) && r.isPartial() === !full, "date-fields", "predicates", det);
    const want = (sep) => [String(F.year), ...(F.month ? [p2(F.month)] : []), ...(F.day ? [p2(F.day)] : [])].join(sep);
    ctx.check(r.toExifString() === want(":") && r.toISOString() === want("-") && r.toString() === want("-"), "date-text", kind, () => det({ exif: r.toExifString(), iso: r.toISOString() }));
    ctx.check(same(ExifDate.from(r.toExifString())) && same(ExifDate.from(r.toISOString())), "date-roundtrip", kind, () => det({ exif: r.toExifString(), iso: r.toISOString() }));
    for (const b of [ExifDate.fromJSON(JSON.parse(JSON.stringify(r))), parseJSON(JSON.stringify([r]))[0]]) ctx.check(same(b) && b.rawValue === r.rawValue && b.toISOString() === r.toISOString(), "date-json", kind, () => det({ back: json(b) }));
    if (full && y > 999 && y !== 1582 && !(process.env.TZ === "Pacific/Apia" && text.includes("2011"))) {
      const js = r.toDate();
      ctx.check(js.getFullYear() === y && js.getMonth() === m - 1 && js.getDate() === d, "date-jsdate", kind, () => det({ js: String(js) }));
    }
  },
  time(ctx, rng) {
    const { ExifTime, parseJSON } = ctx.lib;
    const h = rng.weighted([[5, () => rng.int(0, 23)], [2, () => 2], [1, () => 0]])(), mi = rng.int(0, 59);
    let s = rng.int(0, 59), ms;
    let text = `${p2(h)}:${p2(mi)}`;
    const form = rng.pick(["hms", "hms", "frac", "frac", "hm"]);
    if (form === "hm") s = 0;
    else text += ":" + p2(s);
    if (form === "frac") {
      const frac = rng.times(rng.pick([1, 2, 3, 3, 6]), () => rng.int(0, 9)).join("");
      text += "." + frac;
      ms = Number(frac.padEnd(3, "0").slice(0, 3));
    }
    let off, zone, inferred = false, dflt;
    const k = rng.pick(["none", "none", "offset", "offset", "z", "default", "default+offset"]);
    const offset = () => {
      off = rng.pick(W.OFFSETS);
      zone = off === 0 ? "UTC" : zname(off);
    };
    if (k.endsWith("offset")) {
      offset();
      text += W.offsetText(off, { colon: rng.pick([":", ""]), minutes: rng.bool(0.9) });
    } else if (k === "z") {
      text += "Z";
      off = 0;
      zone = "UTC";
    }
    if (k.startsWith("default")) {
      dflt = rng.pick(["UTC", "UTC+5", "UTC-3:30", ...W.ZONES]);
      if (k === "default") {
        zone = dflt;
        inferred = true;
        off = { UTC: 0, "UTC+5": 300, "UTC-3:30": -210 }[dflt];
      }
    }
    const r = dflt === undefined ? ExifTime.fromEXIF(text) : ExifTime.fromEXIF(text, dflt);
    const now = new Date(Date.now()).toISOString();
    const det = (x) => ({ text, default: dflt, host: process.env.TZ, now, want: { h, mi, s, ms, zone }, got: json(r), ...x });
    ctx.saw(`t|${text}|${dflt}`, det());
    const same = (x) => x instanceof ExifTime && x.hour === h && x.minute === mi && x.second === s && x.millisecond === ms && x.millis === ms;
    const sameZone = (x) => x.zone === zone && x.hasZone === (zone != null);
    if (!ctx.check(same(r) && sameZone(r) && r.rawValue === text && !!r.inferredZone === inferred, "time-fields", `${form} ${k}`, det)) return;
    for (const b of [ExifTime.fromJSON(JSON.parse(JSON.stringify(r))), parseJSON(JSON.stringify([r]))[0]]) ctx.check(same(b) && sameZone(b) && b.rawValue === text && b.inferredZone === r.inferredZone, "time-json", k, () => det({ back: json(b) }));
    if (zone == null || off != null) {
      const want = `${p2(h)}:${p2(mi)}:${p2(s)}${ms == null ? "" : "." + String(ms).padStart(3, "0")}`;
      for (const t of [r.toExifString(), r.toISOString(), r.toString()]) {
        ctx.check(t === want + (zone == null ? "" : off === 0 ? "Z" : W.offsetText(off)) || (off === 0 && t === want + "+00:00"), "time-text", k, () => det({ text: t }));
        const b = ExifTime.fromEXIF(t);
        ctx.check(same(b) && sameZone(b), "time-roundtrip", k, () => det({ text: t, back: json(b) }));
      }
    }
    // another zone
    const z = rng.pick(["UTC", "UTC+9", "UTC-3:30", ...W.ZONES]);
    const zoff = (t) => ({ UTC: 0, "UTC+9": 540, "UTC-3:30": -210 }[z] ?? W.offsetAt(z, t));
    const keep = rng.bool(0.4);
    const b = keep ? r.setZone(z, { keepLocalTime: true }) : r.setZone(z);
    if (keep || zone == null) ctx.check(same(b) && b.zone === z && b.rawValue === text, "time-setzone", "local", () => det({ z, back: json(b) }));
    if (zone != null && b != null) ctx.check(!!b.inferredZone === inferred, "time-setzone", "inferred flag", () => det({ z, keep, back: json(b) }));
    else if (off != null) {
      const today = new Date(Date.now() + off * 60000);
      const at = W.utc(today.getUTCFullYear(), today.getUTCMonth() + 1, today.getUTCDate(), h, mi, s, ms ?? 0) - off * 60000;
      const w = new Date(at + zoff(at) * 60000);
      ctx.check(b != null && b.hour === w.getUTCHours() && b.minute === w.getUTCMinutes() && b.second === s && b.millisecond === ms && b.zone === z && b.rawValue === text, "time-setzone", "moment", () => det({ z, back: json(b) }));
    } else ctx.check(b != null && b.second === s && b.millisecond === ms && b.zone === z && b.rawValue === text, "time-setzone", "zone", () => det({ z, back: json(b) }));
    ctx.check(same(r) && sameZone(r), "time-unchanged", "immutable", det);
  },
  refuse(ctx, rng) {
    const { ExifDate, ExifTime } = ctx.lib;
    const y = rng.int(1000, 9999), m = rng.int(1, 12), d = rng.int(1, W.daysIn(y, m));
    const sep = rng.pick([":", "-"]);
    const date = rng.pick([
      () => `${y}${sep}${rng.pick(["00", "13", "99"])}${sep}${p2(d)}`,
      () => `${y}${sep}${p2(m)}${sep}${rng.pick(["00", "32", "99", p2(W.daysIn(y, m) + 1)])}`,
      () => `${y}${sep}02${sep}30`,
      () => `${rng.pick([1900, 2001, 2023, 2100])}${sep}02${sep}29`,
      () => `${y}${sep}${rng.pick(["00", "13", "40"])}`,
      () => `${y}${sep}${p2(m)}${sep}${p2(d)}` + rng.pick(["x", " x", ":00", "-01", "th", " 5", "!", "1"]),
      () => rng.pick(["x", "~", "on "]) + `${y}${sep}${p2(m)}${sep}${p2(d)}`,
      () => rng.pick(["", " ", "0", "0000", "00000", "12345", "-5", "2020.5", "y", "2010_08", "    :  :  ", "0000:00:00", "0000-00-00", "2020:", "2020:1:", ":1:2", "2020/01/02", "1e3", "0x10", "+2020", "undefined", "null", "NaN"]),
      () => `${MONTHS[m - 1]} ${W.daysIn(y, m) + 1} ${y}`,
      () => `${rng.pick(["Foo", "13", "Ja", "Februar"])} ${d} ${y}`,
      () => `${MONTHS[m - 1].slice(0, 3)} ${d}`,
      () => `${MONTHS[m - 1].slice(0, 3)} ${d} ${y} x`,
    ])();
    for (const via of ["from", "fromEXIF", "fromExifStrict", "fromExifLoose", "fromISO", "fromYear", "fromYearMonth"]) {
      let r, err;
      try {
        r = ExifDate[via](date);
      } catch (e) {
        err = e;
      }
      ctx.check(err == null && r == null, "date-refused", via, () => ({ text: date, via, got: json(r), err: String(err) }));
    }
    for (const n of [rng.pick([0, -1, -2020, 10000, 20200101, 2020.5, NaN, Infinity, 1e21])]) ctx.check(ExifDate.from(n) == null && ExifDate.fromYear(n) == null, "date-refused", "number", () => ({ n, got: json(ExifDate.from(n)) }));
    const h = rng.int(0, 23), mi = rng.int(0, 59), s = rng.int(0, 59);
    const time = rng.pick([
      () => `${rng.int(25, 99)}:${p2(mi)}:${p2(s)}`,
      () => `${p2(h)}:${rng.int(60, 99)}:${p2(s)}`,
      () => `${p2(h)}:${p2(mi)}:${rng.int(60, 99)}`,
      () => `24:${p2(rng.int(1, 59))}:${p2(s)}`,
      () => `${p2(h)}:${p2(mi)}:${p2(s)}` + rng.pick(["x", " am x", "+25:00", "+15:00", "+01:17", "+", " 5", "!", ":00", ".", ".x"]),
      () => rng.pick(["x", "T", "~", "-"]) + `${p2(h)}:${p2(mi)}:${p2(s)}`,
      () => rng.pick(["", " ", "0", "12", "1234", "123456", ":", "::", "  :  :  ", "12:", "12:3", "1:2:3", "noon", "undefined", "null", "NaN", "2020:01:02", "2020-01-02"]),
    ])();
    let r, err;
    try {
      r = ExifTime.fromEXIF(time);
    } catch (e) {
      err = e;
    }
    ctx.check(err == null && r == null, "time-refused", "fromEXIF", () => ({ text: time, got: json(r), err: String(err) }));
    ctx.saw("refuse/" + date + "/" + time, { date, time, refused: true });
  },
};
const zname = (m) => `UTC${m < 0 ? "-" : "+"}${Math.floor(Math.abs(m) / 60)}${m % 60 ? ":" + p2(Math.abs(m) % 60) : ""}`;
