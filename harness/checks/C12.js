"use strict";
// C12: zone names and offsets, against offset arithmetic and the platform's zone data.
const W = require("../lib/when.js");
const { p2 } = W;
const BAKER = -720;
// abbreviations whose meaning is documented, with their offsets
const ABBR = { UTC: 0, GMT: 0, NST: -210, NDT: -150, ADT: -180, EST: -300, EDT: -240, CDT: -300, MST: -420, MDT: -360, PST: -480, PDT: -420, AKST: -540, AKDT: -480, HST: -600, WET: 0, WEST: 60, CET: 60, CEST: 120, EET: 120, EEST: 180, MSK: 180, TRT: 180, WAT: 60, CAT: 120, SAST: 120, EAT: 180, IRST: 210, IRDT: 270, AFT: 270, PKT: 300, NPT: 345, MMT: 390, ICT: 420, SGT: 480, HKT: 480, PHT: 480, JST: 540, KST: 540, AWST: 480, ACST: 570, ACDT: 630, AEST: 600, AEDT: 660, NZST: 720, NZDT: 780, CHAST: 765, CHADT: 825, COT: -300, PET: -300, VET: -240, BOT: -240, CLT: -240, CLST: -180, ART: -180, BRT: -180, UYT: -180, CVT: -60, AZOT: -60, MUT: 240, SCT: 240 };
const ALIASES = ["GB", "NZ", "GB-Eire", "NZ-CHAT", "W-SU", "EST5EDT", "PST8PDT", "MST7MDT", "CST6CDT", "MET", "WET", "EET", "CET", "PRC", "ROC", "ROK", "Eire", "Cuba", "Iran", "Japan", "Zulu", "US/Eastern", "US/Indiana-Starke", "US/East-Indiana", "Canada/Newfoundland", "Brazil/DeNoronha", "Mexico/BajaNorte", "Chile/EasterIsland", "Etc/GMT+12", "Etc/GMT-14", "Etc/GMT+5", "Etc/UTC", "Etc/Zulu", "America/Port-au-Prince", "America/Argentina/ComodRivadavia", "America/North_Dakota/New_Salem", "America/Kentucky/Louisville", "America/Indiana/Indianapolis", "Antarctica/DumontDUrville", "Asia/Ust-Nera", "America/Blanc-Sablon", "Asia/Calcutta", "Asia/Katmandu", "Africa/Asmera", "Atlantic/Faeroe", "Europe/Kiev", "Europe/Kyiv", "Pacific/Truk", "Australia/ACT", "Australia/LHI", "Arctic/Longyearbyen", "Jamaica", "Navajo", "Poland", "Turkey", "Universal", "Greenwich", "UCT"];
const zname = (m) => (m === 0 ? "UTC" : `UTC${m < 0 ? "-" : "+"}${Math.floor(Math.abs(m) / 60)}${m % 60 ? ":" + p2(Math.abs(m) % 60) : ""}`);
function spellings(rng, m) {
  const a = Math.abs(m), h = Math.floor(a / 60), mi = a % 60;
  const out = [];
  for (const sg of m < 0 ? ["-", "−"] : ["+"])
    for (const pre of ["", "UTC", "GMT"]) {
      for (const hh of [String(h), p2(h)]) {
        out.push(`${pre}${sg}${hh}:${p2(mi)}`);
        if (mi === 0) out.push(`${pre}${sg}${hh}`);
      }
      out.push(`${pre}${sg}${p2(h)}${p2(mi)}`);
    }
  if (m === 0) out.push("UTC", "GMT", "Z", "-00:00", "-0000", "Etc/UTC", "UTC-00:00", "GMT-0");
  return out;
}
const JUNK = ["", " ", "+", "-", "UTC+", "GMT-", "+25:00", "-24:00", "+15:00", "+14:30", "-13:00", "+01:17", "+05:60", "+5:7", "5:30", "05:30", "12", "+123", "+12345", "foo", "Foo/Bar", "America/Nowhere", "America", "/", "America/", "/New_York", "America/New York", "UTC 5", "UTC++5", "+-5", "--05:00", "+05:00:99", "+05:29:60", "-03:59:60", "+00:59:60", "UTC+08:59:60", "undefined", "null", "NaN", "[object Object]", "America/New_York/", "../etc/passwd", "+05:00\n+06:00x", "UTC+99", "😀", "1e2", "0x10"];

module.exports = {
  technique: "online monitor of the zone functions over all offsets, spellings and platform zone names, under random sequences of settings changes (model of the valid set as oracle)",
  level: "exploration",
  rule: "one zone text or offset evaluated by the zone functions under one combination of settings; distinct by input, settings and instant",
  assumptions: ["Offsets with seconds (only the archaic -00:25:21) are checked for validity, not for canonical names, as luxon has none.", "IANA names in their canonical upper/lower case."],
  shards: () => ["UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia"].map((tz) => ({ name: "zones", env: { TZ: tz } })),
  minimums: () => ({ "oracle:valid-set": 100000, "oracle:spelling": 20000, "oracle:refused": 20000, "oracle:iana": 5000, "oracle:iana-offset": 5000, "oracle:rounding": 50000, "oracle:equivalence": 20000, "oracle:renormalise": 10000, "oracle:extract": 20000, "oracle:abbreviation": 2000, "case:settings-change": 300 }),
  async run(ctx) {
    const { rng } = ctx;
    const L = ctx.lib;
    const { Settings } = L;
    const platform = [...new Set([...Intl.supportedValuesOf("timeZone"), ...ALIASES])].filter((z) => {
      try {
        new Intl.DateTimeFormat("en", { timeZone: z });
        return true;
      } catch {
        return false;
      }
    });
    const { Info } = require(require.resolve("luxon", { paths: [ctx.buildRoot + "/dist"] }));
    const realNow = Date.now;
    const end = realNow() + ctx.n(50, 300) * 1000;
    const state = { archaic: false, baker: false, max: 30, abbr: {} };
    const rounds = ctx.n(120, 1500);
    for (let round = 0; round < rounds && realNow() < end; round++) {
      const now = rng.pick([W.utc(2024, 1, 15), W.utc(2024, 7, 15), realNow()]);
      Date.now = () => now;
      // change settings, in any order and direction
      for (let i = rng.int(0, 3); i > 0; i--) {
        ctx.count("case:settings-change");
        rng.pick([
          () => (Settings.allowArchaicTimezoneOffsets.value = state.archaic = rng.bool()),
          () => (Settings.allowBakerIslandTime.value = state.baker = rng.bool()),
          () => (Settings.maxValidOffsetMinutes.value = state.max = rng.pick([30, 14, 5, 0, 60])),
          () => (Settings.tzAbbreviationOffsets.value = state.abbr = rng.pick([{}, { CST: -360 }, { IST: 330, BST: 60 }, { EST: 600 }])),
          () => {
            Settings.reset();
            Object.assign(state, { archaic: false, baker: false, max: 30, abbr: {} });
          },
          () => {
            Settings.allowArchaicTimezoneOffsets.reset();
            state.archaic = false;
          },
          () => {
            Settings.allowBakerIslandTime.reset();
            state.baker = false;
          },
        ])();
      }
      const st = JSON.stringify(state);
      const valid = new Set([...W.OFFSETS, ...(state.archaic ? [...W.ARCHAIC, -(25 + 21 / 60)] : []), ...(state.baker ? [BAKER] : [])]);
      const members = [...valid];
      const whole = members.filter(Number.isInteger);
      ctx.saw("settings|" + st + "|" + round, { ...state, now });
      // the valid set, completely
      for (let m = -900; m <= 900; m++) {
        const ok = valid.has(m);
        if (!ctx.check(L.validTzOffsetMinutes(m) === ok && (L.offsetMinutesToZoneName(m) ?? null) === (ok ? zname(m) : null) && (L.normalizeZone(m)?.name ?? null) === (ok ? zname(m) : null), "valid-set", "minutes", () => ({ m, ok, got: [L.validTzOffsetMinutes(m), L.offsetMinutesToZoneName(m), L.normalizeZone(m)?.name], ...state }))) break;
      }
      for (const x of [0.5, -480.25, NaN, Infinity, null, undefined, 1e9]) ctx.check(L.validTzOffsetMinutes(x) === false && L.offsetMinutesToZoneName(x) === undefined, "valid-set", "odd", () => ({ x }));
      ctx.check(L.validTzOffsetMinutes(-(25 + 21 / 60)) === state.archaic, "valid-set", "Ireland", () => state);
      // spellings
      for (const m of rng.sample(whole, 12)) {
        const want = zname(m);
        const canon = L.normalizeZone(want);
        for (const s of spellings(rng, m)) {
          const z = L.normalizeZone(s);
          ctx.saw(`spell|${s}|${st}`);
          ctx.check(z != null && z.name === want && z.offset(0) === m && z.equals(canon), "spelling", "normalizeZone", () => ({ s, want, got: z?.name, offset: z?.offset(0), ...state }));
          ctx.check(L.extractZone(s)?.zone === want && L.extractZone(s)?.tz === want, "extract", "alone", () => ({ s, want, got: L.extractZone(s), ...state }));
          if (/^(?:UTC|GMT)?[+−-]\d/.test(s) || s === "Z") ctx.check(L.parseTimezoneOffsetToMinutes(s) === m || (m === 0 && L.parseTimezoneOffsetToMinutes(s) === -0), "spelling", "toMinutes", () => ({ s, m, got: L.parseTimezoneOffsetToMinutes(s) }));
          ctx.check(L.zoneToShortOffset(s) === W.offsetText(m), "spelling", "shortOffset", () => ({ s, got: L.zoneToShortOffset(s) }));
          ctx.check(L.equivalentZones(s, want) && L.equivalentZones(want, s) && L.equivalentZones(s, m), "equivalence", "spelling", () => ({ s, want }));
          // behind a date-time
          if (/^[+−-]\d\d/.test(s) || s === "Z") {
            const dt = rng.pick(["2020:01:02 03:04:05", "2020-01-02T03:04:05.123", "03:04:05"]);
            const tza = s === "Z" ? "" : rng.pick(["", "", " PDT", " dst"]);
            const x = L.extractZone(dt + s + tza);
            ctx.check(x?.zone === want && x.tz === want && x.leftovers === dt, "extract", "suffix", () => ({ text: dt + s + tza, want, got: x, ...state }));
            if (h14(m)) {
              const mm = L.parseTimezoneOffsetMatch(L.TimezoneOffsetRE.exec(s));
              ctx.check(mm?.offsetMinutes === m || (m === 0 && mm?.offsetMinutes === -0), "spelling", "TimezoneOffsetRE", () => ({ s, m, got: mm }));
            }
            const d = L.ExifDateTime.from("2020:01:02 03:04:05" + s);
            ctx.check(d?.zone === want && d.tzoffsetMinutes === m, "extract", "date-time", () => ({ s, want, got: d?.toJSON() }));
          }
        }
        // canonical names and instances survive
        ctx.check(L.normalizeZone(canon)?.name === want && L.normalizeZone(canon.name)?.equals(canon) && L.isZone(canon) && L.isZoneValid(canon) && !L.isZoneUnset(canon), "renormalise", "fixed", () => ({ want, got: L.normalizeZone(canon)?.name }));
        ctx.check(L.isUTC(canon) === (m === 0) && L.isUTC(want) === (m === 0), "renormalise", "isUTC", () => ({ want }));
      }
      // refused
      const bad = [];
      for (let i = 0; i < 12; i++) {
        const m = rng.int(-960, 960);
        if (!valid.has(m)) bad.push(...rng.sample(spellings(rng, m), 3), m);
      }
      bad.push(...rng.sample(JUNK, 15), null, undefined, true, {}, [], -1, NaN, L.UnsetZone, Info.normalizeZone(-1), Info.normalizeZone("Foo/Bar"));
      for (const s of bad) {
        let z, err, text;
        try {
          z = L.normalizeZone(s);
          text = L.zoneToShortOffset(s);
        } catch (e) {
          err = e;
        }
        ctx.check(err == null && z === undefined && text === "" && !L.equivalentZones(s, s) && !L.equivalentZones(s, "UTC") && !L.equivalentZones("UTC", s), "refused", "normalizeZone", () => ({ s: String(s), got: z?.name, text, err: String(err), ...state }));
        if (s !== L.UnsetZone && !(typeof s === "number" && valid.has(s * 60))) {
          const x = typeof s === "object" && s?.name ? undefined : L.extractZone(s);
          ctx.check(x === undefined || (typeof s === "string" && x.leftovers != null), "refused", "extractZone", () => ({ s: String(s), got: x, ...state }));
        }
        if (typeof s === "string") ctx.saw(`bad|${s}|${st}`);
      }
      ctx.check(L.isZoneUnset(L.UnsetZone) && !L.isZoneValid(L.UnsetZone), "refused", "unset", () => ({}));
      // IANA names
      for (const name of round === 0 ? platform : rng.sample(platform, 25)) {
        const z = L.normalizeZone(name);
        const utc = /^(?:Zulu|Etc\/UTC|UTC|GMT)$/.test(name);
        ctx.saw(`iana|${name}|${st}`);
        if (!ctx.check(z != null && (z.name === name || (utc && z.name === "UTC")), "iana", "recognised", () => ({ name, got: z?.name }))) continue;
        ctx.check(L.extractZone(name)?.zone === z.name && L.normalizeZone(z.name)?.equals(z) && L.normalizeZone(z)?.name === z.name && L.isZoneValid(z), "renormalise", "iana", () => ({ name, got: L.extractZone(name) }));
        const at = rng.bool(0.1) && Number.isInteger(W.offsetAt(name, 0)) ? 0 : W.utc(1990, 1, 1) + rng.int(0, 1.2e9) * 1000;
        ctx.check(L.zoneToShortOffset(name) === W.offsetText(W.offsetAt(name, now)), "iana-offset", "now", () => ({ name, now, text: L.zoneToShortOffset(name) }));
        const off = W.offsetAt(name, at);
        ctx.check(z.offset(at) === off && L.zoneToShortOffset(name, at) === W.offsetText(off), "iana-offset", "offset", () => ({ name, at, off, got: z.offset(at), text: L.zoneToShortOffset(name, at) }));
        const other = rng.pick(platform);
        const same = W.offsetAt(other, at) === off;
        ctx.check(L.equivalentZones(name, other, at) === same && L.equivalentZones(other, name, at) === same && L.equivalentZones(name, name, at), "equivalence", "iana", () => ({ name, other, at, same }));
        const m = rng.pick(whole);
        ctx.check(L.equivalentZones(name, zname(m), at) === (off === m) && L.equivalentZones(m, name, at) === (off === m), "equivalence", "mixed", () => ({ name, m, at, off }));
      }
      // rounding
      for (let i = 0; i < 150; i++) {
        const delta = rng.pick([rng.int(-900, 900), rng.int(-900, 900) + 0.5, rng.pick(members) + rng.pick([-state.max, state.max, -state.max - 1, state.max + 1, 0, 7, -7])]);
        const max = rng.bool(0.3) ? rng.pick([0, 5, 15, 30, 60]) : undefined;
        const got = max === undefined ? L.inferLikelyOffsetMinutes(delta) : L.inferLikelyOffsetMinutes(delta, max);
        const best = Math.min(...members.map((v) => Math.abs(v - delta)));
        ctx.saw(`round|${delta}|${max}|${st}`);
        ctx.check(best > (max ?? state.max) ? got === undefined : valid.has(got) && Math.abs(got - delta) === best, "rounding", "nearest", () => ({ delta, max: max ?? state.max, got, best, ...state }));
      }
      ctx.check(L.inferLikelyOffsetMinutes(undefined) === undefined && L.inferLikelyOffsetMinutes(null) === undefined, "rounding", "none", () => ({}));
      // abbreviations
      for (let i = 0; i < 8; i++) {
        const a = rng.pick([...Object.keys(ABBR), "CST", "IST", "BST", "AST", "GST", "AMT", "SST", "WST", "XYZ", "QQT"]);
        const dt = "2020:06:02 03:04:05";
        const want = state.abbr[a] ?? ABBR[a];
        const x = L.extractZone(`${dt} ${rng.bool(0.8) ? a : a.toLowerCase()}`);
        ctx.check(want == null ? x === undefined : x?.zone === zname(want) && x.leftovers === dt, "abbreviation", "extractZone", () => ({ a, want, got: x, ...state }));
        if (want != null) {
          const d = L.ExifDateTime.from(`${dt} ${a}`);
          ctx.check(d != null && d.tzoffsetMinutes === want && d.hour === 3 && d.second === 5, "abbreviation", "date-time", () => ({ a, want, got: d?.toJSON(), ...state }));
        }
      }
    }
    Settings.reset();
    Date.now = realNow;
  },
};
const h14 = (m) => Math.abs(m) <= 14 * 60;
