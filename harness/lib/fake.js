"use strict";
// Harness side of the fake ExifTool: a processFactory whose children report
// every received command, and whose replies are decided by `onCommand`.
const cp = require("node:child_process");
const path = require("node:path");

class FakeFleet {
  /**
   * @param onCommand (cmd: {pid, seq, args, raw, nthOnPid, global}) => steps[] | Promise<steps[]>
   */
  constructor(onCommand, opts = {}) {
    this.onCommand = onCommand;
    this.opts = opts;
    this.log = []; // totally ordered event log
    this.children = new Map();
    this.live = new Set();
    this.maxLive = 0;
    this.global = 0;
    this.perPid = new Map();
  }
  event(type, o) {
    const e = { n: this.log.length, type, ...o };
    if (this.opts.keepLog !== false) this.log.push(e);
    return e;
  }
  spawn(extraArgs = []) {
    const args = [path.join(__dirname, "fake-exiftool.js"), ...(this.opts.args ?? []), ...extraArgs];
    const p = cp.spawn(process.execPath, args, {
      stdio: ["pipe", "pipe", "pipe", "ipc"],
      env: { PATH: process.env.PATH },
    });
    if (p.pid == null) throw new Error("cannot spawn the fake");
    this.children.set(p.pid, p);
    this.live.add(p.pid);
    this.maxLive = Math.max(this.maxLive, this.live.size);
    this.event("spawn", { pid: p.pid, live: this.live.size });
    p.on("exit", (code, sig) => {
      this.live.delete(p.pid);
      this.event("exit", { pid: p.pid, code, sig });
    });
    p.on("error", () => {});
    p.on("message", async (m) => {
      const nth = (this.perPid.get(m.pid) ?? 0) + 1;
      this.perPid.set(m.pid, nth);
      const cmd = { ...m, nthOnPid: nth, global: ++this.global };
      this.event("command", { pid: m.pid, args: m.args, raw: m.raw, nth });
      let steps;
      try {
        steps = await this.onCommand(cmd);
      } catch (e) {
        e.harness = true;
        steps = [{ err: "Error: harness " + e + "\n" }, { out: "{ready}\n" }];
        this.failure = e;
      }
      try {
        p.send({ seq: m.seq, steps }, () => {});
      } catch {
        // child is gone
      }
    });
    return p;
  }
  get factory() {
    return async () => this.spawn();
  }
  killAll() {
    for (const [, p] of this.children) {
      try {
        p.kill("SIGKILL");
      } catch {}
    }
  }
  commands() {
    return this.log.filter((e) => e.type === "command");
  }
}

const READY = "{ready}\n";
const jsonReply = (tags) => [{ out: JSON.stringify([tags]) + "\n" + READY }];

/** value of the last argument (the source file, by exiftool convention) */
const lastArg = (args) => args.filter((a) => !a.startsWith("-")).at(-1);

/** options that make an instance fast and deterministic on top of a fleet */
const fastOptions = (fleet, o = {}) => ({
  processFactory: fleet.factory,
  checkPerl: false,
  maxProcs: 4,
  minDelayBetweenSpawnMillis: 0,
  streamFlushMillis: 1,
  onIdleIntervalMillis: 250,
  healthCheckIntervalMillis: 0,
  maxTasksPerProcess: 100000,
  maxProcAgeMillis: 0,
  ...o,
});
module.exports = { FakeFleet, READY, jsonReply, lastArg, fastOptions };
