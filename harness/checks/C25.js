"use strict";
// C25: the library is installed in scratch folders of every kind (packed, unpacked, with and
// without the vendored package, under an Electron-like process), and asked for its ExifTool.
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const cp = require("node:child_process");
const { pool } = require("../lib/ctx.js");
const PROBE = path.join(__dirname, "../lib/find-probe.js");
const PARTS = ["app", "sp ace", "é漢", "e\u0301", "100%", "my-app.asar", "app.asar.bak", "x.asar", "APP.ASAR", "app.asar.unpacked", "app.asar", "app.asar ", "node", "a,b", "[x]", "(86)", "'q", "-dash", "#h", "?q", "app.asarx", "resources"];

module.exports = {
  technique: "offline oracle over which executable is found (and started) by the library installed in generated scratch folders, per layout, PATH and Electron-like resources path",
  level: "exploration",
  rule: "one installation layout in one situation (which candidates exist, PATH, resources path); distinct by these",
  assumptions: ["Runs as on Linux: the vendored package is exiftool-vendored.pl.", "PATH has no empty or relative entries.", "Symbolic links in the installation's own path are not part of the workload."],
  shards: (tier) => Array.from({ length: tier === "quick" ? 4 : 8 }, (_, k) => ({ name: "layouts", k })),
  minimums: () => ({ evaluations: 400, "oracle:found": 300, "oracle:refused": 40, "oracle:exists": 300, "case:unpacked": 40, "case:vendored": 80, "case:resources": 40, "case:path": 40, "case:lookalike-kept": 40, "case:not-executable-skipped": 20, "case:directory-skipped": 15, "oracle:started": 40, "case:broken-package": 15 }),
  async run(ctx) {
    const { rng } = ctx;
    await pool(rng.times(ctx.n(24, 240), (i) => i), 2, (i) => layout(ctx, i));
  },
};

const version = (n) => `13.${100 + n}`;
function program(file, n, { off = false, mode = 0o755 } = {}) {
  fs.mkdirSync(path.dirname(file), { recursive: true });
  const f = off ? file + ".off" : file;
  fs.writeFileSync(f, `#!/bin/sh\nwhile read -r l; do\n  case "$l" in\n  -execute*) printf '%s\\n{ready}\\n' ${version(n)} ;;\n  False) exit 0 ;;\n  esac\ndone\n`);
  fs.chmodSync(f, mode);
}

async function layout(ctx, i) {
  const { rng } = ctx;
  const top = ctx.tmpdir("c25");
  const packed = rng.bool(0.45);
  const parts = rng.times(rng.int(0, 3), () => rng.pick(PARTS));
  if (packed) parts.splice(rng.int(0, parts.length), 0, "app.asar");
  const app = path.join(top, ...parts);
  const mods = path.join(app, "node_modules");
  const dist = path.join(mods, "exiftool-vendored", "dist");
  fs.mkdirSync(dist, { recursive: true });
  fs.cpSync(path.join(ctx.buildRoot, "dist"), dist, { recursive: true, filter: (f) => !f.endsWith(".map") });
  fs.copyFileSync(path.join(ctx.buildRoot, "package.json"), path.join(mods, "exiftool-vendored", "package.json"));
  const deps = fs.realpathSync(path.join(ctx.buildRoot, "node_modules"));
  for (const d of ["batch-cluster", "he", "luxon", "@photostructure"]) fs.symlinkSync(path.join(deps, d), path.join(mods, d));
  // ---- the vendored package
  const where = rng.pick([mods, mods, path.join(mods, "exiftool-vendored", "node_modules")]);
  const pkg = path.join(where, "exiftool-vendored.pl");
  const state = rng.weighted([[6, "good"], [1, "absent"], [1, "throws"], [1, "empty"]]);
  const bin = path.join(pkg, "bin", "exiftool");
  if (state !== "absent") {
    fs.mkdirSync(pkg, { recursive: true });
    fs.writeFileSync(path.join(pkg, "package.json"), JSON.stringify({ name: "exiftool-vendored.pl", version: "13.59.0", main: "index.js" }));
    fs.writeFileSync(path.join(pkg, "index.js"), state === "throws" ? "throw new Error('broken')" : state === "empty" ? "syntax error here" : 'module.exports = require("path").join(__dirname, "bin", "exiftool");');
  }
  program(bin, 1, { off: true });
  const unpacked = bin.split("/").map((p) => (p === "app.asar" ? "app.asar.unpacked" : p)).join("/");
  if (unpacked !== bin) program(unpacked, 2, { off: true });
  // a path that only a sloppy replacement would come up with
  const sloppy = bin.replace(/app\.asar/g, "app.asar.unpacked");
  const decoy = sloppy !== unpacked && sloppy !== bin;
  if (decoy) program(sloppy, 3);
  const resources = path.join(top, rng.pick(["res", "r e s", "é"]), "resources");
  const forge = path.join(resources, "exiftool-vendored.pl", "bin", "exiftool");
  program(forge, 4, { off: true });
  program(path.join(resources, "bin", "exiftool"), 5);
  // ---- PATH
  const P = {};
  for (const [k, n] of [["p1", 6], ["p 2", 7]]) program((P[k] = path.join(top, k, "exiftool")), n);
  program((P.noexec = path.join(top, "noexec", "exiftool")), 8, { mode: 0o644 });
  fs.mkdirSync((P.dir = path.join(top, "isdir", "exiftool")), { recursive: true });
  P.none = path.join(top, "none", "exiftool");
  P.empty = path.join(top, "emptydir", "exiftool");
  fs.mkdirSync(path.dirname(P.empty));
  program(path.join(top, "other", "exiftool.pl"), 9);
  P.other = path.join(top, "other", "exiftool");
  const cases = rng.times(ctx.n(8, 12), () => {
    const on = { bin: rng.bool(0.45), unpacked: unpacked !== bin && rng.bool(0.5), forge: rng.bool(0.5) };
    const dirs = rng.sample(Object.keys(P), rng.int(0, 5));
    if (rng.bool(0.3)) dirs.push("noexec", "dir", rng.pick(["p1", "p 2"]));
    const res = rng.weighted([[3, undefined], [4, resources], [1, path.join(top, "nowhere")]]);
    const make = [...(on.bin ? [bin] : []), ...(on.unpacked ? [unpacked] : []), ...(on.forge ? [forge] : [])];
    const fromPath = dirs.find((k) => k === "p1" || k === "p 2");
    const usable = state === "good";
    const want = usable && on.unpacked ? [unpacked, 2, "unpacked"] : usable && on.bin ? [bin, 1, "vendored"] : on.forge && res === resources ? [forge, 4, "resources"] : fromPath ? [P[fromPath], fromPath === "p1" ? 6 : 7, "path"] : undefined;
    const before = fromPath ? dirs.slice(0, dirs.indexOf(fromPath)) : [];
    return { on, dirs, before, make, want, resources: res, path: dirs.map((k) => path.dirname(P[k])).join(":") || path.join(top, "nothing"), logger: rng.bool(), times: rng.pick([1, 1, 3]), run: want && rng.bool(0.25) ? rng.pick(["default", "explicit"]) : undefined };
  });
  const r = await new Promise((resolve) => {
    const child = cp.spawn(process.execPath, [PROBE], { cwd: top, env: { ...process.env, NODE_OPTIONS: "", NODE_PATH: "" }, stdio: ["pipe", "pipe", "pipe"] });
    let out = "", err = "";
    child.stdout.on("data", (d) => (out += d));
    child.stderr.on("data", (d) => (err += d));
    const t = setTimeout(() => child.kill("SIGKILL"), 120000);
    child.on("close", (code) => (clearTimeout(t), resolve({ code, out, err })));
    child.stdin.end(JSON.stringify({ main: path.join(dist, "ExifTool.js"), cases }));
  });
  let got;
  try {
    got = JSON.parse(r.out);
  } catch {
    throw Object.assign(new Error("probe failed: " + JSON.stringify([r.code, r.err.slice(0, 2000), r.out.slice(0, 500)])), { harness: true });
  }
  const shown = { parts, state, nested: where !== mods };
  ctx.check(got.escaped === undefined, "nothing-escapes", state, () => ({ ...shown, escaped: got.escaped, cases }));
  if (got.escaped !== undefined) return;
  cases.forEach((c, n) => {
    const { r: rs, run } = got.results[n];
    const rel = (x) => (typeof x === "string" ? x.replace(top, "TOP") : x);
    const det = () => ({ ...shown, on: c.on, path: c.dirs, resources: rel(c.resources), want: rel(c.want?.[0]), got: rs.map((x) => rel(x.value ?? x.error)), run: run?.map(rel) });
    ctx.saw(JSON.stringify([parts, state, where === mods, c.on, c.dirs, rel(c.resources), c.times, c.run]), det());
    if (state === "throws" || state === "empty") ctx.count("case:broken-package");
    for (const x of rs) {
      if (c.want === undefined) {
        ctx.check(x.error !== undefined && /\S/.test(x.error) && !x.error.startsWith("not an error"), "refused", state, det);
        continue;
      }
      ctx.check(x.value === c.want[0], "found", c.want[2], det);
      ctx.check(typeof x.value === "string" && fs.existsSync(x.value + (c.make.includes(x.value) ? ".off" : "")), "exists", c.want[2], det);
    }
    if (c.want) ctx.count("case:" + c.want[2]);
    if (decoy) ctx.count("case:lookalike-kept");
    if (c.want?.[2] === "path" && c.before.includes("noexec")) ctx.count("case:not-executable-skipped");
    if (c.want?.[2] === "path" && c.before.includes("dir")) ctx.count("case:directory-skipped");
    if (c.run && run) ctx.check(run[0] === version(c.want[1]) && run[1] === c.want[0], "started", c.want[2], det);
  });
  fs.rmSync(top, { recursive: true, force: true });
}
