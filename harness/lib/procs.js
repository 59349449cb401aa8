"use strict";
// Process-table observations, by /proc (zombies and reused pids are not "alive").
const fs = require("node:fs");
function stat(pid) {
  try {
    const s = fs.readFileSync(`/proc/${pid}/stat`, "utf8");
    const r = s.slice(s.lastIndexOf(")") + 2).split(" ");
    return { state: r[0], ppid: Number(r[1]), start: r[19] };
  } catch {
    return undefined;
  }
}
const alive = (pid, start) => {
  const s = stat(pid);
  return s != null && s.state !== "Z" && s.state !== "X" && (start == null || s.start === start);
};
/** direct children of a process */
function childrenOf(ppid) {
  const r = [];
  for (const d of fs.readdirSync("/proc")) {
    if (/^\d+$/.test(d) && stat(d)?.ppid === ppid && alive(d)) r.push(Number(d));
  }
  return r;
}
module.exports = { stat, alive, childrenOf };
