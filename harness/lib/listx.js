"use strict";
// Generated `exiftool -listx` documents, the answers they imply, and the
// worker process for several processes sharing a cache directory.
const { FakeFleet, READY, fastOptions } = require("./fake.js");

const LANGS = ["en", "fr", "de", "zh_cn", "en_gb", "zh_tw", "en_ca"];
const esc = (s) => s.replace(/[&<>'"]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", "'": "&#39;", '"': "&quot;" })[c]);
const WORDS = ["Image", "l'image", "R&D", "a < b > c", 'so "called"', "&lt;b&gt;", "&amp;", "Größe", "写真", "\u{1f4f7}", "100%", "{x}", "\\d+", "$1", "&#39;", "null", "0", "ready"];
const NAMES = ["BitsPerSample", "Foo", "Bar", "Tag", "AFAssist", "constructor", "toString", "__proto__", "hasOwnProperty", "valueOf", "desc", "version", "language", "1", "0x1234", "ISO", "DateTimeOriginal", "Orientation", "Rating", "GPSLatitude"];
function text(rng, v) {
  return rng.times(rng.int(1, 4), () => rng.pick(WORDS)).join(" ") + " " + v + rng.int(0, 99);
}
/** {xml, want: Map(lang -> Map(tag -> [texts]))} */
function world(rng, v) {
  const want = new Map(LANGS.map((l) => [l, new Map()]));
  let xml = `<?xml version='1.0' encoding='UTF-8'?>\n<!-- Generated by Image::ExifTool ${v} -->\n<taginfo>\n\n`;
  const names = [...NAMES, ...rng.times(rng.int(0, 15), () => "Gen" + rng.int(0, 40))];
  for (let t = 0; t < rng.int(1, 4); t++) {
    xml += `<table name='T${t}::Main' g0='T' g1='T' g2='Other'>\n <desc lang='en'>table ${t}</desc>\n`;
    for (const name of names) {
      if (rng.bool(0.4)) continue;
      xml += ` <tag id='${rng.int(0, 999)}' name='${esc(name)}' type='?' writable='false'${rng.bool(0.2) ? " g2='Image'" : ""}>\n`;
      for (const l of LANGS) {
        if (!rng.bool(l === "en" ? 0.95 : 0.5)) continue;
        const d = rng.bool(0.03) ? "" : text(rng, v + l);
        xml += `  <desc lang='${l}'>${esc(d)}</desc>\n`;
        if (d.trim()) {
          const m = want.get(l);
          if (!m.has(name)) m.set(name, []);
          m.get(name).push(d.trim());
        }
      }
      if (rng.bool(0.3)) xml += `  <values>\n   <key id='0'>\n    <val lang='en'>Off</val>\n    <val lang='fr'>Éteint</val>\n   </key>\n  </values>\n`;
      xml += " </tag>\n";
    }
    xml += "</table>\n\n";
  }
  return { xml: xml + "</taginfo>\n", want };
}
/** a fleet whose state.{version, xml, respond} decides the answers */
function fleet(state) {
  return new FakeFleet(
    (c) => {
      if (c.args[0] === "-ver") return [{ out: state.version + "\n" + READY }];
      if (c.args.some((a) => /^-listx$/i.test(a))) {
        state.asked = (state.asked ?? 0) + 1;
        const r = state.respond?.(state.asked);
        if (r) return r;
        return [{ out: state.xml + READY }];
      }
      return [{ err: "Error: File not found\n" }, { out: READY }];
    },
    { keepLog: false, args: ["--report-ver"] },
  );
}
module.exports = { world, fleet, LANGS, NAMES, fastOptions };

if (require.main === module) {
  // worker: node listx.js <build> <cacheDir> <version> <lang> <rounds> <seed>; the XML comes as a message
  const [build, cacheDir, version, language, rounds, seed] = process.argv.slice(2);
  process.once("message", async ({ xml, want, names }) => {
    const lib = require(require("node:path").join(build, "dist/ExifTool.js"));
    const { Rng } = require("./rng.js");
    const rng = new Rng(seed);
    const state = { version, xml };
    const fl = fleet(state);
    const et = new lib.ExifTool(fastOptions(fl, { maxProcs: 1, taskTimeoutMillis: 60000 }));
    const bad = [];
    let n = 0;
    try {
      for (let i = 0; i < +rounds; i++) {
        const d = new lib.TagDescriptions(et, { cacheDir, language });
        for (let k = 0; k < 2; k++) {
          const tag = rng.pick(names);
          if (d.get(tag) !== undefined && !d.isLoaded) continue; // curated
          n++;
          let got;
          try {
            got = (await d.getAsync(tag))?.desc;
          } catch (e) {
            bad.push({ tag, error: String(e?.stack) });
            continue;
          }
          if (want[tag] ? !want[tag].includes(got) : got !== undefined) bad.push({ tag, got, want: want[tag] });
          if (rng.bool()) d.clear();
        }
      }
    } finally {
      await et.end();
      fl.killAll();
    }
    process.send({ n, bad: bad.slice(0, 5), asked: state.asked ?? 0 }, () => process.exit(0));
  });
}
