"use strict";
// C22: tag descriptions over every kind of cache state, with concurrent lookups,
// failing ExifTool processes, and several processes sharing a cache.
const fs = require("node:fs");
const path = require("node:path");
const cp = require("node:child_process");
const { settle, sleep } = require("../lib/ctx.js");
const X = require("../lib/listx.js");
const { READY } = require("../lib/fake.js");

module.exports = {
  technique: "fault injection on cache files (absent, warm, every kind of truncation and damage, other version or language, unwritable) and on ExifTool, with concurrent lookups in one and several processes; answers compared with the tag information ExifTool gave",
  level: "exploration",
  rule: "one lookup session against one cache state; distinct by state, language, operations and document",
  assumptions: [
    "Damage that leaves a well-formed cache of the right version and language, with plausible descriptions, can't be recognised, and isn't judged.",
    "If ExifTool describes a tag name in several tables, any one of these descriptions is accepted, but it has to be the same one whatever the cache.",
    "Curated English descriptions are the ones available before anything is loaded.",
  ],
  shards: (tier) => [...Array.from({ length: 5 }, (_, k) => ({ name: "states", k })), { name: "truncations" }, { name: "processes" }, { name: "real", langs: tier === "quick" ? ["en", "fr"] : X.LANGS.concat("it", "ru", "ja", "tr", "sv") }],
  minimums: () => ({ evaluations: 400, "oracle:answer": 1500, "oracle:never-fails": 500, "oracle:same-answer": 1000, "oracle:replaced": 150, "oracle:all-agrees": 300, "oracle:retry-after-failure": 15, "oracle:no-cache-written": 10, "oracle:processes": 6, "oracle:real-answer": 10000, "state:warm": 10, "state:truncated": 50, "state:shape": 20, "state:other version": 10, "state:flipped": 5 }),
  async run(ctx) {
    await { states, truncations, processes, real }[ctx.shard.name](ctx);
  },
};

function bench(ctx, versions) {
  const { lib } = ctx;
  return versions.map((version) => {
    const state = { version, xml: "" };
    const fleet = X.fleet(state);
    const et = new lib.ExifTool(X.fastOptions(fleet, { maxProcs: 2, taskTimeoutMillis: 60000, taskRetries: 1, maxReasonableProcessFailuresPerMinute: 0 }));
    return { version, state, fleet, et };
  });
}
async function close(benches) {
  await Promise.all(benches.map((b) => settle(b.et.end(), 20000)));
  benches.forEach((b) => b.fleet.killAll());
}
const files = (dir) => {
  try {
    return fs.readdirSync(dir, { withFileTypes: true }).filter((e) => e.isFile()).map((e) => path.join(dir, e.name));
  } catch {
    return [];
  }
};
/** the answer for a tag is right, given the document and the curated descriptions */
function right(b, language, curated, tag, got) {
  if ((language ?? "en") === "en" && curated.has(tag)) return JSON.stringify(got) === curated.get(tag);
  const want = b.world.want.get(language ?? "en")?.get(tag);
  if (got == null) return want === undefined && got === undefined;
  return typeof got === "object" && want !== undefined && want.includes(got.desc) && got.see === undefined;
}
function curatedOf(lib, et) {
  const d = new lib.TagDescriptions(et, { disableDiskCache: true });
  const m = new Map();
  for (const n of ["ISO", "DateTimeOriginal", "Orientation", "Rating", "GPSLatitude"]) {
    const v = d.get(n);
    if (v !== undefined) m.set(n, JSON.stringify(v));
  }
  return m;
}
/** replaces parts of a well-formed cache by something of another shape */
function misshape(rng, text) {
  let doc;
  try {
    doc = JSON.parse(text);
  } catch {
    return "";
  }
  const junk = () => rng.pick([null, [], {}, "text", 5, true, [null], { a: null }]);
  const big = Object.keys(doc).filter((k) => doc[k] && typeof doc[k] === "object").sort((a, b) => Object.keys(doc[b]).length - Object.keys(doc[a]).length)[0];
  switch (rng.int(0, 4)) {
    case 0:
      return JSON.stringify(junk());
    case 1:
      if (big) delete doc[big];
      return JSON.stringify(doc);
    case 2:
      if (big) doc[big] = rng.pick([null, [], {}, "text", 5, [null], { Foo: null }, { Foo: "x" }, { Foo: {} }, { Foo: { desc: 5 } }, { Foo: { desc: null } }]);
      return JSON.stringify(doc);
    case 3: {
      if (big) doc[big][rng.pick(Object.keys(doc[big]))] = rng.pick([null, "text", 5, {}, { desc: null }, { desc: {} }, { see: "x" }]);
      return JSON.stringify(doc);
    }
    default:
      for (const k of Object.keys(doc)) if (typeof doc[k] === "string") delete doc[k];
      return JSON.stringify(doc);
  }
}
const STATES = ["absent", "no dir", "nested dir", "warm", "warm", "truncated", "shape", "shape", "flipped", "other version", "other language", "empty file", "garbage", "bom", "binary", "dir at file", "file at dir", "below file", "disabled", "stale curated"];

async function states(ctx) {
  const { rng, lib } = ctx;
  const bs = bench(ctx, ["13.58", "13.59"]);
  const top = ctx.tmpdir("c22");
  const curated = curatedOf(lib, bs[0].et);
  try {
    for (let i = 0; i < ctx.n(46, 500); i++) {
      for (const b of bs) {
        b.world = X.world(rng, b.version);
        b.state.xml = b.world.xml;
        b.state.respond = undefined;
      }
      const b = rng.pick(bs), other = bs[1 - bs.indexOf(b)];
      const language = rng.pick([...X.LANGS, "en", "en", undefined]);
      const state = STATES[i % STATES.length];
      let cacheDir = path.join(top, "d" + i);
      const make = (bench, lang) => new lib.TagDescriptions(bench.et, { cacheDir, ...(lang === undefined && rng.bool() ? {} : { language: lang }) });
      const warm = async (bench, lang) => {
        const before = new Set(files(cacheDir));
        await make(bench, lang).preload();
        return files(cacheDir).filter((f) => !before.has(f));
      };
      // ---- the cache state
      let where = [];
      let writable = true;
      const first = new Map(); // what a cold start answered
      if (!["no dir", "nested dir", "file at dir", "below file"].includes(state)) fs.mkdirSync(cacheDir);
      if (!["absent", "no dir", "nested dir", "file at dir", "below file", "disabled"].includes(state)) {
        where = await warm(b, language);
        const d = new lib.TagDescriptions(b.et, { language, disableDiskCache: true });
        for (const n of X.NAMES) first.set(n, JSON.stringify(await d.getAsync(n)));
      }
      const text = where.length ? fs.readFileSync(where[0], "utf8") : "";
      let judged = true;
      switch (state) {
        case "nested dir": cacheDir = path.join(cacheDir, "a", "b c", "ü"); break;
        case "truncated": fs.truncateSync(where[0], rng.int(0, fs.statSync(where[0]).size - 3)); break;
        case "shape": fs.writeFileSync(where[0], misshape(rng, text)); break;
        case "flipped": {
          const buf = Buffer.from(text);
          for (let k = 0; k < rng.int(1, 5); k++) buf[rng.int(0, buf.length - 1)] ^= 1 << rng.int(0, 7);
          fs.writeFileSync(where[0], buf);
          try {
            JSON.parse(buf.toString());
            judged = false; // may be a well-formed cache
          } catch {}
          break;
        }
        case "other version": {
          const o = await warm(other, language);
          if (o.length) fs.copyFileSync(o[0], where[0]);
          break;
        }
        case "other language": {
          const like = { en: "en_gb", en_gb: "en_ca", en_ca: "en", zh_cn: "zh_tw", zh_tw: "zh_cn" }[language ?? "en"];
          const lang = (rng.bool() && like) || ((language ?? "en") === "fr" ? "de" : "fr");
          const o = await warm(b, lang);
          if (o.length) fs.copyFileSync(o[0], where[0]);
          break;
        }
        case "stale curated": // a cache of another version of this library
          if (curated.size) fs.writeFileSync(where[0], text.split(JSON.stringify(JSON.parse([...curated.values()][0]).desc)).join('"an older text"'));
          break;
        case "empty file": fs.writeFileSync(where[0], ""); break;
        case "garbage": fs.writeFileSync(where[0], rng.pick(["null", "[]", "{}", "0", '"x"', "true", "{\"version\":", "<xml/>", "{}{}"])); break;
        case "bom": fs.writeFileSync(where[0], "\ufeff" + text.slice(0, rng.int(0, text.length))); break;
        case "binary": fs.writeFileSync(where[0], Buffer.from(rng.times(300, () => rng.int(0, 255)))); break;
        case "dir at file": fs.rmSync(where[0]); fs.mkdirSync(where[0]); writable = false; break;
        case "file at dir": fs.writeFileSync(cacheDir, "I'm a file"); writable = false; break;
        case "below file": fs.writeFileSync(cacheDir, "I'm a file"); cacheDir = path.join(cacheDir, "sub"); writable = false; break;
      }
      ctx.count("state:" + state);
      // ---- sessions
      const disabled = state === "disabled";
      const listing = () => JSON.stringify(files(cacheDir).map((f) => [f, fs.statSync(f).size]));
      const beforeListing = listing();
      const n = rng.int(1, 4);
      const ops = [];
      const detail = (more) => () => ({ state, language, version: b.version, ops, ...more });
      await Promise.all(
        Array.from({ length: n }, async () => {
          const d = disabled ? new lib.TagDescriptions(b.et, { cacheDir, language, disableDiskCache: true }) : make(b, language);
          const one = async () => {
            const op = rng.weighted([[6, "getAsync"], [2, "getAll"], [1, "preload"], [1, "clear"], [2, "get"], [1, "sleep"]]);
            ops.push(op);
            if (op === "sleep") return sleep(rng.int(0, 4));
            if (op === "clear") {
              d.clear();
              return ctx.check(!d.isLoaded && d.size === 0, "cleared", state, detail({ loaded: d.isLoaded, size: d.size }));
            }
            const tag = rng.pick(X.NAMES.concat("Gen" + rng.int(0, 40), "NoSuchTag"));
            if (op === "get") {
              const loaded = d.isLoaded;
              const v = d.get(tag);
              if (loaded && judged) ctx.check(right(b, language, curated, tag, v), "answer", `get ${state}`, detail({ tag, got: String(v?.desc ?? v), want: b.world.want.get(language ?? "en")?.get(tag) }));
              return;
            }
            const r = await settle(op === "getAsync" ? d.getAsync(tag) : d[op](), 60000);
            if (!ctx.check(r.status === "fulfilled", "never-fails", `${op} ${state}`, detail({ reason: String(r.reason?.stack ?? r.status) }))) return;
            if (!judged) return;
            if (op === "getAsync") {
              ctx.check(right(b, language, curated, tag, r.value), "answer", `getAsync ${state}`, detail({ tag, got: r.value === undefined ? "undefined" : r.value, want: b.world.want.get(language ?? "en")?.get(tag) }));
              if (first.has(tag)) ctx.check(JSON.stringify(r.value) === first.get(tag), "same-answer", state, detail({ tag, got: r.value, cold: first.get(tag) }));
              if (d.isLoaded) ctx.check(JSON.stringify(d.get(tag)) === JSON.stringify(r.value), "sync-agrees", state, detail({ tag, got: r.value, sync: d.get(tag) }));
            } else if (op === "getAll") {
              const wrong = [];
              const expected = b.world.want.get(language ?? "en");
              for (const t of expected.keys()) if (!right(b, language, curated, t, r.value.get(t))) wrong.push([t, r.value.get(t) ?? "undefined", expected.get(t)]);
              for (const [t, v] of r.value) if (!right(b, language, curated, t, v) && !((language ?? "en") === "en" && JSON.stringify(d.get(t)) === JSON.stringify(v) && !X.NAMES.includes(t) && !/^Gen/.test(t))) wrong.push([t, v]);
              ctx.check(wrong.length === 0, "all-agrees", state, detail({ wrong: wrong.slice(0, 5), size: r.value.size }));
            }
          };
          for (let k = 0; k < rng.int(2, 8); k++) {
            if (rng.bool(0.3)) await Promise.all([one(), one(), one()]);
            else await one();
          }
          // at least one full comparison per instance
          const all = await settle(d.getAll(), 60000);
          ctx.check(all.status === "fulfilled", "never-fails", `getAll ${state}`, detail({ reason: String(all.reason?.stack ?? all.status) }));
          if (all.status === "fulfilled" && judged) {
            const bad = X.NAMES.filter((t) => !right(b, language, curated, t, all.value.get(t)));
            ctx.check(bad.length === 0, "all-agrees", state, detail({ bad: bad.slice(0, 3).map((t) => [t, all.value.get(t) ?? "undefined"]), size: all.value.size }));
            ctx.check(d.size === all.value.size && d.isLoaded, "size", state, detail({ size: d.size, all: all.value.size }));
          }
        }),
      );
      ctx.saw(JSON.stringify([state, language, ops, b.version, i]), { state, language, ops });
      if (disabled) {
        ctx.check(listing() === beforeListing, "no-cache-written", "disableDiskCache", detail({ before: beforeListing, after: listing() }));
      } else if (writable && judged) {
        // ---- the cache is a good one now: it answers on its own
        b.state.respond = () => [{ err: "Error: no tags today\n" }, { out: READY }];
        const d = new lib.TagDescriptions(b.et, { cacheDir, language });
        const bad = [];
        for (const t of X.NAMES) {
          const r = await settle(d.getAsync(t), 60000);
          if (r.status !== "fulfilled" || !right(b, language, curated, t, r.value)) bad.push([t, r.status, r.status === "fulfilled" ? (r.value ?? "undefined") : String(r.reason)]);
        }
        ctx.check(bad.length === 0, "replaced", state, detail({ bad: bad.slice(0, 3), files: files(cacheDir) }));
      }
      // ---- a failing ExifTool
      if (rng.bool(0.5)) {
        const dir2 = path.join(top, "f" + i);
        const failing = rng.pick(["empty", "partial", "error", "kill"]);
        b.state.respond = () =>
          ({ empty: [{ out: READY }], partial: [{ out: b.world.xml.slice(0, rng.int(100, b.world.xml.length - 20)) + READY }], error: [{ err: "Error: out of memory\n" }, { out: READY }], kill: [{ out: b.world.xml.slice(0, 50) }, { kill: "SIGKILL" }] })[failing];
        const d = new lib.TagDescriptions(b.et, { cacheDir: dir2, language });
        const r = await settle(d.preload(), 60000);
        b.state.respond = undefined;
        const bad = [];
        // the same instance, and a new one with whatever is in the cache now
        for (const x of [d, new lib.TagDescriptions(b.et, { cacheDir: dir2, language })]) {
          if (x === d && r.status === "fulfilled") continue;
          for (const t of rng.sample(X.NAMES, 6)) {
            const v = await settle(x.getAsync(t), 60000);
            if (v.status !== "fulfilled" || !right(b, language, curated, t, v.value)) bad.push([x === d ? "same" : "new", t, v.status === "fulfilled" ? (v.value ?? "undefined") : String(v.reason)]);
          }
        }
        ctx.check(bad.length === 0, "retry-after-failure", failing, detail({ failing, first: r.status, bad: bad.slice(0, 4) }));
      }
      b.state.respond = undefined;
    }
  } finally {
    await close(bs);
  }
}

/** every crash point of a writer that isn't atomic: all prefixes of a small cache file */
async function truncations(ctx) {
  const { rng, lib } = ctx;
  const bs = bench(ctx, ["13.59"]);
  const [b] = bs;
  const top = ctx.tmpdir("c22t");
  const curated = curatedOf(lib, b.et);
  try {
    for (let w = 0; w < ctx.n(1, 3); w++) {
      b.world = X.world(rng, b.version);
      b.state.xml = b.world.xml;
      const language = rng.pick(["fr", "de", "zh_cn"]); // without the curated ones, these are small
      const dir = path.join(top, "w" + w);
      await new lib.TagDescriptions(b.et, { cacheDir: dir, language }).preload();
      const [f] = files(dir);
      if (!f) continue;
      const whole = fs.readFileSync(f);
      const step = Math.max(1, Math.ceil(whole.length / ctx.n(350, 1500)));
      for (let cut = 0; cut < whole.length - 3; cut += step) {
        fs.writeFileSync(f, whole.subarray(0, cut));
        const d = new lib.TagDescriptions(b.et, { cacheDir: dir, language });
        const t = rng.pick(X.NAMES);
        const r = await settle(d.getAsync(t), 60000);
        ctx.count("state:truncated");
        ctx.saw(`cut/${w}/${cut}`);
        if (!ctx.check(r.status === "fulfilled", "never-fails", "truncated", () => ({ cut, reason: String(r.reason) }))) continue;
        ctx.check(right(b, language, curated, t, r.value), "answer", "truncated", () => ({ cut, of: whole.length, t, got: r.value }));
      }
    }
  } finally {
    await close(bs);
  }
}

async function processes(ctx) {
  const { rng } = ctx;
  for (let round = 0; round < ctx.n(2, 8); round++) {
    const dir = ctx.tmpdir("c22p");
    const versions = ["13.58", "13.59"];
    const worlds = versions.map((v) => X.world(rng, v));
    let running = 4;
    const done = Array.from({ length: 4 }, (_, k) => {
      const v = k % 2, language = k < 2 ? "fr" : rng.pick(["fr", "de"]);
      const p = cp.fork(path.join(__dirname, "../lib/listx.js"), [ctx.buildRoot, dir, versions[v], language, String(ctx.n(60, 200)), `${ctx.seed}/${round}/${k}`], { stdio: ["ignore", "ignore", "inherit", "ipc"] });
      p.send({ xml: worlds[v].xml, want: Object.fromEntries([...worlds[v].want.get(language)].filter(([t]) => t !== "__proto__")), names: X.NAMES.filter((t) => t !== "__proto__" && !["constructor", "toString", "hasOwnProperty", "valueOf"].includes(t)) });
      return new Promise((resolve, reject) => {
        let msg;
        p.on("message", (m) => (msg = m));
        p.on("exit", (code) => (running--, msg ? resolve({ ...msg, language, version: versions[v] }) : reject(new Error("worker died: " + code))));
      });
    });
    // meanwhile, the cache is damaged again and again
    const vandal = (async () => {
      while (running > 0) {
        await sleep(rng.int(1, 12));
        for (const f of files(dir)) {
          try {
            if (rng.bool(0.3)) fs.rmSync(f);
            else if (rng.bool(0.5)) fs.truncateSync(f, rng.int(0, 200));
          } catch {}
        }
      }
    })();
    const results = await Promise.all(done);
    await vandal;
    for (const r of results) {
      ctx.saw(`processes/${round}/${r.version}/${r.language}`, r);
      ctx.count("lookups in shared directories", r.n);
      ctx.check(r.bad.length === 0, "processes", `${r.language}`, () => r);
    }
  }
}

async function real(ctx) {
  const { rng, lib } = ctx;
  const dir = ctx.tmpdir("c22r");
  const exe = require.resolve("exiftool-vendored.pl", { paths: [ctx.buildRoot] });
  let bin = path.join(path.dirname(exe), "bin/exiftool");
  if (!fs.existsSync(bin)) bin = require(exe);
  const xml = cp.execFileSync("perl", [bin, "-listx"], { maxBuffer: 1 << 28, encoding: "utf8" });
  const un = (s) => s.replace(/&(lt|gt|quot|apos|amp|#(\d+)|#x([0-9a-f]+));/gi, (m, n, d, h) => (d ? String.fromCodePoint(+d) : h ? String.fromCodePoint(parseInt(h, 16)) : { lt: "<", gt: ">", quot: '"', apos: "'", amp: "&" }[n.toLowerCase()]));
  const want = new Map();
  // one line per element
  let name;
  for (const line of xml.split("\n")) {
    const t = /^ <tag .*\bname='([^']*)'/.exec(line);
    if (t) name = un(t[1]);
    if (line === " </tag>" || /^<\/?table/.test(line)) name = undefined;
    const d = /^  <desc lang='(\w+)'>(.*)<\/desc>$/.exec(line);
    if (d && name !== undefined) {
      const k = d[1] + "/" + name;
      if (!want.has(k)) want.set(k, new Set());
      want.get(k).add(un(d[2]).trim());
    }
  }
  const et = new lib.ExifTool({ maxProcs: 2, taskTimeoutMillis: 120000 });
  try {
    const plain = new lib.TagDescriptions(et, { cacheDir: dir });
    for (const language of ctx.shard.langs) {
      const cold = new lib.TagDescriptions(et, { cacheDir: dir, language });
      const a = await cold.getAll();
      const names = new Set([...want.keys()].filter((k) => k.startsWith(language + "/")).map((k) => k.slice(language.length + 1)));
      for (const n of names) {
        const v = a.get(n);
        const curated = language === "en" ? new lib.TagDescriptions(et, { cacheDir: dir }).get(n) : undefined;
        const ok = curated ? JSON.stringify(v) === JSON.stringify(curated) : want.get(language + "/" + n).has(v?.desc);
        ctx.check(ok, "real-answer", language, () => ({ n, got: v ?? "undefined", want: [...want.get(language + "/" + n)], curated }));
      }
      const extra = [...a.keys()].filter((n) => !names.has(n) && plain.get(n) === undefined);
      ctx.check(extra.length === 0, "real-extra", language, () => ({ extra: extra.slice(0, 5) }));
      const warm = await new lib.TagDescriptions(et, { cacheDir: dir, language }).getAll();
      ctx.check(JSON.stringify([...warm].sort()) === JSON.stringify([...a].sort()), "real-warm", language, () => ({ cold: a.size, warm: warm.size }));
      for (const f of files(dir)) fs.truncateSync(f, rng.int(0, fs.statSync(f).size - 5));
      const again = await new lib.TagDescriptions(et, { cacheDir: dir, language }).getAll();
      ctx.check(JSON.stringify([...again].sort()) === JSON.stringify([...a].sort()), "real-warm", language + " after damage", () => ({ cold: a.size, again: again.size }));
      ctx.saw("real/" + language, { language, size: a.size });
    }
  } finally {
    await settle(et.end(), 20000);
  }
}
