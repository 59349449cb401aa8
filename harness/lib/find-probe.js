"use strict";
// Loads the library from an installation in a scratch folder, and reports which ExifTool it finds
// in the situations given on standard input.
const fs = require("node:fs");
const { main, cases } = JSON.parse(fs.readFileSync(0, "utf8"));
process.on("uncaughtException", (e) => (process.stdout.write(JSON.stringify({ escaped: String(e) })), process.exit(0)));
process.on("unhandledRejection", (e) => (process.stdout.write(JSON.stringify({ escaped: String(e) })), process.exit(0)));
const ORIG = process.env.PATH;
(async () => {
  const lib = require(main);
  const results = [];
  for (const c of cases) {
    for (const f of c.make ?? []) fs.renameSync(f + ".off", f);
    process.env.PATH = c.path;
    if (c.resources === undefined) delete process.resourcesPath;
    else process.resourcesPath = c.resources;
    const warned = [];
    const log = (...a) => warned.push(a.map(String).join(" "));
    const logger = c.logger ? { trace: log, debug: log, info: log, warn: log, error: log } : undefined;
    const r = await Promise.all(Array.from({ length: c.times }, () => lib.exiftoolPath(logger).then((value) => ({ value }), (e) => ({ error: e instanceof Error ? e.message : "not an error: " + e }))));
    let run;
    if (c.run) {
      process.env.PATH = c.path + ":" + ORIG;
      const et = new lib.ExifTool({ maxProcs: 1, ...(c.run === "explicit" ? { exiftoolPath: lib.exiftoolPath } : {}) });
      run = await Promise.all([et.version(), et.exiftoolPath()]).then((x) => x, (e) => ["error: " + e]);
      await et.end();
    }
    results.push({ r, warned: warned.length, run });
    for (const f of c.make ?? []) fs.renameSync(f, f + ".off");
  }
  process.stdout.write(JSON.stringify({ results }));
})();
