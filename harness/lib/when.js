"use strict";
// Calendar and zone arithmetic that is independent of luxon and of the library.
const dtfs = new Map();
/** offset (minutes east) of an IANA zone at an instant */
function offsetAt(zone, ms) {
  let f = dtfs.get(zone);
  if (!f) dtfs.set(zone, (f = new Intl.DateTimeFormat("en-US", { timeZone: zone, hourCycle: "h23", year: "numeric", month: "2-digit", day: "2-digit", hour: "2-digit", minute: "2-digit", second: "2-digit", era: "short" })));
  const p = {};
  for (const x of f.formatToParts(new Date(ms))) p[x.type] = x.value;
  const y = p.era === "BC" ? 1 - Number(p.year) : Number(p.year);
  const local = utc(y, +p.month, +p.day, +p.hour, +p.minute, +p.second);
  return Math.round((local - Math.floor(ms / 1000) * 1000) / 1000) / 60;
}
/** like Date.UTC, for every year */
function utc(y, mo, d, h = 0, mi = 0, s = 0, ms = 0) {
  const t = new Date(0);
  t.setUTCFullYear(y, mo - 1, d);
  t.setUTCHours(h, mi, s, ms);
  return t.getTime();
}
/** all instants at which clocks in an IANA zone show these fields: 0, 1 or 2 */
function instants(zone, local) {
  const out = new Set();
  for (const guess of [-1, 0, 1]) {
    const off = offsetAt(zone, local + guess * 86400000);
    const t = local - off * 60000;
    if (offsetAt(zone, t) === off) out.add(t);
  }
  return [...out];
}
const daysIn = (y, m) => new Date(utc(y, m + 1, 0)).getUTCDate();
/** the offsets the library calls valid by default */
const OFFSETS = [-660, -600, -570, -540, -510, -480, -420, -360, -300, -240, -210, -180, -150, -120, -60, 0, 60, 120, 180, 210, 240, 270, 300, 330, 345, 360, 390, 420, 480, 510, 525, 540, 570, 585, 600, 630, 660, 720, 765, 780, 825, 840];
const ARCHAIC = [-630, -270, -44, 20, 30, 84, 90, 150, 291, 340, 440, 450];
const p2 = (n) => String(n).padStart(2, "0");
function offsetText(min, { colon = ":", minutes = true } = {}) {
  const a = Math.abs(min);
  return (min < 0 ? "-" : "+") + p2(Math.floor(a / 60)) + (minutes || a % 60 ? colon + p2(a % 60) : "");
}
const ZONES = ["America/New_York", "America/Los_Angeles", "America/St_Johns", "America/Sao_Paulo", "America/Argentina/Buenos_Aires", "Europe/London", "Europe/Paris", "Africa/Casablanca", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Tehran", "Asia/Tokyo", "Australia/Adelaide", "Australia/Lord_Howe", "Pacific/Chatham", "Pacific/Apia", "Pacific/Honolulu", "Etc/GMT+5"];
/** instants around the transitions of a zone */
const transitions = new Map();
function transitionsOf(zone) {
  let t = transitions.get(zone);
  if (t) return t;
  t = [];
  const step = 86400000 * 7;
  for (let ms = utc(1988, 1, 1); ms < utc(2026, 1, 1); ms += step) {
    const a = offsetAt(zone, ms);
    const b = offsetAt(zone, ms + step);
    if (a !== b) {
      let lo = ms, hi = ms + step;
      while (hi - lo > 1000) {
        const mid = Math.floor((lo + hi) / 2000) * 1000;
        if (offsetAt(zone, mid) === a) lo = mid;
        else hi = mid;
      }
      t.push({ ms: hi, before: a, after: b });
    }
  }
  transitions.set(zone, t);
  return t;
}
module.exports = { offsetAt, utc, instants, daysIn, OFFSETS, ARCHAIC, offsetText, ZONES, transitionsOf, p2 };
