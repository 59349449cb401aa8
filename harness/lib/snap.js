"use strict";
// Directory snapshots (relative name -> content hash) and their differences.
const fs = require("node:fs");
const path = require("node:path");
const crypto = require("node:crypto");
const sha = (b) => crypto.createHash("sha1").update(b).digest("hex");
function snapshot(dir) {
  const out = {};
  const walk = (d) => {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      const p = path.join(d, e.name);
      if (e.isDirectory()) {
        out[path.relative(dir, p) + "/"] = "dir";
        walk(p);
      } else out[path.relative(dir, p)] = e.isSymbolicLink() ? "-> " + fs.readlinkSync(p) : sha(fs.readFileSync(p));
    }
  };
  walk(dir);
  return out;
}
const diff = (a, b) => {
  const out = [];
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) if (a[k] !== b[k]) out.push([k, a[k] ?? "absent", b[k] ?? "absent"]);
  return out;
};
module.exports = { snapshot, diff, sha };
