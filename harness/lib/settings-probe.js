"use strict";
// What the library makes of zone-related inputs under its current settings.
// As a process of its own: node settings-probe.js <build> <json values> prints the answers.
const DELTAS = [-725, -720, -715, -660, -640, -630, -610, -480, -275, -270, -265, 0, 14, 20, 31, 44, 291, 300, 480, 489, 495, 501, 510, 512, 525, 765, 840, 850];
const ABBR = ["CST", "IST", "XYZT", "PST", "EST", "JST", "BST", "CEST"];
function probe(lib) {
  const out = {};
  const put = (k, f) => {
    try {
      const v = f();
      out[k] = v === undefined ? "undefined" : JSON.stringify(v);
    } catch (e) {
      out[k] = "throws " + e;
    }
  };
  for (let m = -900; m <= 900; m += 15) put("valid " + m, () => lib.validTzOffsetMinutes(m));
  put("valid 291", () => lib.validTzOffsetMinutes(291));
  for (const d of DELTAS) put("likely " + d, () => lib.inferLikelyOffsetMinutes(d));
  for (const z of ["-12:00", "UTC-12", "-10:30", "-04:30", "+04:51", "+05:30", -720, -630, "UTC+8"]) {
    put("normalize " + z, () => lib.normalizeZone(z)?.name);
    if (typeof z === "string") put("exif " + z, () => lib.ExifDateTime.fromEXIF("2020:03:04 05:06:07" + z)?.toISOString());
  }
  for (const a of ABBR) {
    put("extract " + a, () => lib.extractZone("2020:03:04 05:06:07 " + a)?.zone);
    put("date " + a, () => lib.ExifDateTime.fromEXIF("2020:03:04 05:06:07 " + a)?.toISOString());
  }
  for (const d of DELTAS) {
    const t = new Date(Date.UTC(2020, 2, 4, 12) + d * 60000).toISOString().replace(/-/g, ":").replace("T", " ").slice(0, 19);
    put("utc " + d, () => lib.extractTzOffsetFromUTCOffset({ GPSDateTime: "2020:03:04 12:00:00Z", DateTimeOriginal: t })?.tz);
  }
  put("tags", () => lib.extractTzOffsetFromTags({ OffsetTimeOriginal: "-10:30" })?.tz);
  put("tags12", () => lib.extractTzOffsetFromTags({ OffsetTime: "-12:00" })?.tz);
  return out;
}
module.exports = { probe };
if (require.main === module) {
  const lib = require(require("node:path").join(process.argv[2], "dist/ExifTool.js"));
  for (const [k, v] of Object.entries(JSON.parse(process.argv[3]))) lib.Settings[k].value = v;
  process.stdout.write(JSON.stringify(probe(lib)), () => process.exit(0));
}
