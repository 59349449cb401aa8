// A scriptable stand-in for the ExifTool process.
//   fake(lib, respond, options) => ExifTool instance; respond(args, n) => {out, err, exit}
const { PassThrough } = require("node:stream");
const cp = require("node:child_process"), fs = require("node:fs"), os = require("node:os"), path = require("node:path");
const CHILD = `
const fs = require("fs"); let buf = "", args = [], n = 0;
const log = process.env.FAKE_LOG, script = process.env.FAKE_SCRIPT;
const respond = script ? require(script) : () => ({});
process.stdin.on("data", (d) => {
  buf += d; let i;
  while ((i = buf.indexOf("\\n")) >= 0) {
    const line = buf.slice(0, i); buf = buf.slice(i + 1);
    const m = /^-execute(\\d*)$/.exec(line);
    if (!m) { args.push(line); if (line === "False" && args.at(-2) === "-stay_open") process.exit(0); continue; }
    const a = args; args = [];
    if (a.includes("-ver") && a.length < 4) { process.stdout.write("13.59\\n{ready" + m[1] + "}\\n"); continue; }
    if (log) fs.appendFileSync(log, JSON.stringify(a) + "\\n");
    const n0 = log ? fs.readFileSync(log, "utf8").trim().split("\\n").length : ++n;
    const r = respond(a, n0) || {};
    setTimeout(() => {
      if (r.err) process.stderr.write(r.err + "\\n");
      if (r.exit) process.exit(1);
      setTimeout(() => process.stdout.write((r.out || "") + "\\n{ready" + m[1] + "}\\n"), r.err ? 30 : 0);
    }, r.delay || 0);
  }
});
process.stdin.on("end", () => process.exit(0));`;
module.exports = (lib, respond, options = {}) => {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "demo-"));
  fs.writeFileSync(dir + "/child.js", CHILD);
  fs.writeFileSync(dir + "/script.js", "module.exports = " + respond.toString());
  const log = dir + "/log";
  const et = new lib.ExifTool({
    maxProcs: 1, ...options,
    processFactory: () => cp.spawn(process.execPath, [dir + "/child.js"], { stdio: "pipe", env: { ...process.env, FAKE_LOG: log, FAKE_SCRIPT: dir + "/script.js" } }),
  });
  return { et, dir, commands: () => (fs.existsSync(log) ? fs.readFileSync(log, "utf8").trim().split("\n").filter(Boolean).map((l) => JSON.parse(l)) : []),
    end: async () => { await et.end().catch(() => {}); fs.rmSync(dir, { recursive: true, force: true }); } };
};
