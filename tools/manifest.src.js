"use strict";
// Writes /verif/MANIFEST.json from the checks that exist: node tools/manifest.src.js
const fs = require("node:fs");
const path = require("node:path");
const V = path.resolve(__dirname, "..");
const props = fs.readFileSync(path.join(V, "properties.jsonl"), "utf8").trim().split("\n").map((l) => JSON.parse(l));
const checks = [];
const na = [];
for (const p of props) {
  const f = path.join(V, "harness/checks", p.id + ".js");
  if (!fs.existsSync(f)) {
    na.push({ property: p.id, reason: "check not built yet" });
    continue;
  }
  const c = require(f);
  checks.push({
    property: p.id,
    quick_cmd: `node harness/run.js ${p.id}`,
    thorough_cmd: `VERIF_TIER=thorough node harness/run.js ${p.id}`,
    evidence_file: `evidence/${p.id}.json`,
    technique: c.technique ?? "runtime monitoring",
    level: c.level ?? "exploration",
    level_note: c.note ?? "Held on every execution observed; nothing is claimed about executions the workload did not produce. Assumes: " + (c.assumptions ?? []).join(" "),
  });
}
fs.writeFileSync(path.join(V, "MANIFEST.json"), JSON.stringify({ version: 1, setup_cmd: "node harness/selftest.js", checks, not_applicable: na, notes: "No hooks in /repo: the monitors sit at the library's own boundaries (child stdin/stdout, file system, public API results), so no guard is needed. Generated by tools/manifest.src.js." }, null, 1) + "\n");
