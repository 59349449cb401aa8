"use strict";
// C23: one workload, many hosts; any difference in what it observes is a violation.
const fs = require("node:fs");
const path = require("node:path");
const cp = require("node:child_process");
const { pool } = require("../lib/ctx.js");
const J = require("../lib/jpeg.js");
const W = require("../lib/when.js");

const HOSTS = [
  ["America/New_York", "en_US.UTF-8", W.utc(2021, 1, 15)],
  ["America/New_York", "C", W.utc(2021, 7, 15)],
  ["Asia/Kolkata", "hi_IN.UTF-8", W.utc(2021, 3, 28, 0, 59, 58)],
  ["Australia/Lord_Howe", "de_DE.UTF-8", W.utc(2024, 1, 1)],
  ["Pacific/Apia", "tr_TR.UTF-8", W.utc(2011, 12, 30, 12)],
  ["Pacific/Chatham", "ar_EG.UTF-8", W.utc(1999, 12, 31, 23)],
  ["America/Sao_Paulo", "fa_IR.UTF-8", W.utc(2018, 11, 4, 3)],
  ["Europe/London", "th_TH.UTF-8", W.utc(2023, 10, 29, 1)],
  ["America/St_Johns", "zh_CN.UTF-8", W.utc(2030, 6, 1)],
  ["Asia/Kathmandu", "ja_JP.UTF-8", W.utc(1985, 12, 31, 18)],
  ["Africa/Casablanca", "ar_SA.UTF-8", W.utc(2022, 4, 15)],
  ["Etc/GMT+12", "bn_BD.UTF-8", W.utc(2020, 2, 29)],
  ["Pacific/Kiritimati", "my_MM.UTF-8", W.utc(2038, 1, 20)],
  ["Europe/Dublin", "he_IL.UTF-8", W.utc(2020, 6, 1)],
  ["America/Caracas", "ne_NP.UTF-8", W.utc(2016, 5, 1)],
  ["Antarctica/Troll", "mr_IN.UTF-8", W.utc(2022, 3, 27, 1)],
];
const REFERENCE = ["UTC", "en_US.UTF-8", W.utc(2022, 6, 1)];

module.exports = {
  technique: "differential runtime monitoring: the same seeded workload in processes with different TZ, locale and (patched) clock; every observation compared with the one under UTC",
  level: "exploration",
  rule: "one observation (parse, rendering, conversion, command, or read) under one host configuration, compared with the reference host; distinct by operation and input",
  assumptions: [
    "Instants of values without zone (toDate(), toMillis(), toDateTime()), ExifDate.toDate()/toMillis(), and ExifDateTime.fromMillis()/now() without zone are documented to be in the host's zone, and aren't compared.",
    "A time of day without date, in an IANA zone, is rendered with that zone's current offset, and equivalentZones() compares current offsets; these aren't compared between seasons.",
    "Of wall-clock times that their zone repeats, only fields and zone are compared: which of the two instants is meant is ambiguous, and luxon's choice depends on the season.",
    "With keepUTCTime: false, ExifTool itself renders system times in its own zone; the library gives it no TZ, so that is the system's, which this sandbox can't vary.",
  ],
  shards: (tier) => Array.from({ length: tier === "quick" ? 4 : 8 }, (_, k) => ({ name: "hosts", k })),
  minimums: () => ({ evaluations: 60000, "oracle:same": 60000, "hosts compared": 14, "kind:ExifDateTime.fromEXIF": 2000, "kind:ExifTime.fromEXIF": 2000, "kind:read": 1000, "kind:file": 100, "kind:write": 300, "kind:setZone": 500, "typed values": 3000 }),
  async run(ctx) {
    const { rng } = ctx;
    const dir = ctx.tmpdir("c23");
    const files = path.join(dir, "files");
    fs.mkdirSync(files);
    for (let i = 0; i < ctx.n(3, 10); i++) makeFile(rng, path.join(files, `f${i}.jpg`));
    fs.writeFileSync(path.join(files, "x.xmp"), xmp(rng));
    for (const f of fs.readdirSync(files)) fs.utimesSync(path.join(files, f), 1600000000 + rng.int(0, 1e8), 1600000000 + rng.int(0, 1e8));
    const mine = ctx.quick ? HOSTS.filter((_, i) => i % 4 === ctx.shard.k) : HOSTS;
    const seed = `${ctx.seed}/work`;
    const n = ctx.n(260, 1500);
    const work = async ([tz, lang, now], k) => {
      const d = path.join(dir, "w" + k);
      fs.mkdirSync(d);
      const env = { PATH: process.env.PATH, TMPDIR: process.env.TMPDIR, HOME: process.env.HOME ?? "/root", TZ: tz, LANG: lang, LC_ALL: lang };
      for (const x of Object.keys(env)) if (env[x] === undefined) delete env[x];
      const code = await new Promise((res, rej) => {
        const p = cp.spawn(process.execPath, [path.join(__dirname, "../lib/hostwork.js"), ctx.buildRoot, seed, String(n), String(now), d], { env, stdio: ["ignore", "inherit", "inherit"] });
        p.on("error", rej);
        p.on("exit", (c, s) => res(c ?? s));
      });
      if (code !== 0) throw new Error(`workload under ${tz}/${lang} ended with ${code}`);
      return fs.readFileSync(path.join(d, "out"), "utf8").trimEnd().split("\n");
    };
    const want = await work(REFERENCE, "ref");
    await pool(mine, 2, async (host, i) => {
      const got = await work(host, i);
      ctx.count("hosts compared");
      ctx.check(got.length === want.length, "same-length", host.join(), () => ({ host, got: got.length, want: want.length }));
      for (let k = 0; k < Math.min(got.length, want.length); k++) {
        const label = want[k].slice(2, want[k].indexOf('"', 2));
        ctx.count("kind:" + label);
        ctx.saw(want[k]);
        if (/"c":"Exif/.test(want[k])) ctx.count("typed values");
        ctx.check(got[k] === want[k], "same", label, () => ({ host, got: diff(got[k], want[k]), want: diff(want[k], got[k]) }));
      }
    });
    // a value without a zone has no trace of one
    for (const line of want) {
      if (!line.includes('"hasZone":false')) continue;
      const [label, input, v] = JSON.parse(line);
      if (v?.c !== "ExifDateTime") continue;
      ctx.check(v.zone === null && v.zoneName === undefined && v.tzoffsetMinutes === undefined && !/(?:Z|[+-]\d\d:?\d\d|[A-Z][a-z]+\/\w+)$/.test(v.iso) && v.text === v.iso, "no-zone-no-trace", label, () => ({ input, v }));
    }
  },
};
const diff = (a, b) => {
  let i = 0;
  while (a[i] === b[i] && i < a.length) i++;
  return a.slice(0, 300) + " … " + a.slice(Math.max(0, i - 60), i + 200);
};
function stamp(rng) {
  const t = new Date(W.utc(rng.int(1990, 2030), rng.int(1, 12), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59)));
  return t.toISOString().slice(0, 19);
}
const exif = (s) => s.replace(/-/g, ":").replace("T", " ");
function xmp(rng) {
  return `<x:xmpmeta xmlns:x='adobe:ns:meta/'><rdf:RDF xmlns:rdf='http://www.w3.org/1999/02/22-rdf-syntax-ns#'><rdf:Description rdf:about='' xmlns:xmp='http://ns.adobe.com/xap/1.0/' xmlns:photoshop='http://ns.adobe.com/photoshop/1.0/'><xmp:CreateDate>${stamp(rng)}${rng.pick(["", "Z", "+05:30"])}</xmp:CreateDate><xmp:MetadataDate>${stamp(rng)}-07:00</xmp:MetadataDate><photoshop:DateCreated>${stamp(rng)}</photoshop:DateCreated></rdf:Description></rdf:RDF></x:xmpmeta>`;
}
function makeFile(rng, f) {
  const gps = rng.bool() ? { 1: J.ascii(rng.pick("NS")), 2: { type: 5, values: [[rng.int(0, 60), 1], [30, 1], [0, 1]] }, 3: J.ascii(rng.pick("EW")), 4: { type: 5, values: [[rng.int(0, 170), 1], [30, 1], [0, 1]] }, 7: { type: 5, values: [[rng.int(0, 23), 1], [rng.int(0, 59), 1], [7, 1]] }, 29: J.ascii(exif(stamp(rng)).slice(0, 10)) } : undefined;
  const e = { 0x9003: J.ascii(exif(stamp(rng))), 0x9004: J.ascii(exif(stamp(rng))), 0x9291: J.ascii("123") };
  if (rng.bool()) e[0x9011] = J.ascii(rng.pick(["+02:00", "-03:30"]));
  const tiff = J.tiff({ ifd0: { 0x10f: J.ascii("Maker"), 0x132: J.ascii(exif(stamp(rng))) }, exif: e, ...(gps ? { gps } : {}) });
  fs.writeFileSync(f, J.jpeg({ segments: [J.exifSegment(tiff), J.xmpSegment(xmp(rng))] }));
}
