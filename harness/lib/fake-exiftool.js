"use strict";
// Stand-in for `exiftool -stay_open True -@ -`. Parses the stdin protocol like
// exiftool does (one argument per line, -execute ends a command), reports every
// command to the harness over IPC and replies as the harness tells it to.
let buf = Buffer.alloc(0);
let args = [];
let raw = [];
let seq = 0;
const waiting = new Map();
const queue = [];
let busy = false;

process.on("message", (m) => {
  const f = waiting.get(m.seq);
  if (f) {
    waiting.delete(m.seq);
    f(m);
  }
});
process.on("disconnect", () => process.exit(0));
const SIGS = process.argv.includes("--ignore-sigterm");
if (SIGS) process.on("SIGTERM", () => {});

function write(stream, data) {
  return new Promise((r) => stream.write(data, () => r()));
}
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));

async function handle({ args: cmd, raw }) {
  const n = ++seq;
  if (cmd.length === 1 && cmd[0] === "-ver" && !process.argv.includes("--report-ver")) {
    await write(process.stdout, "13.59\n{ready}\n");
    return;
  }
  const reply = await new Promise((r) => {
    waiting.set(n, r);
    process.send({ seq: n, pid: process.pid, args: cmd, raw });
  });
  for (const step of reply.steps) {
    if (step.out != null) await write(process.stdout, step.b64 ? Buffer.from(step.out, "base64") : step.out);
    if (step.err != null) await write(process.stderr, step.b64 ? Buffer.from(step.err, "base64") : step.err);
    if (step.sleep != null) await sleep(step.sleep);
    if (step.exit != null) {
      process.exit(step.exit);
    }
    if (step.kill != null) {
      process.kill(process.pid, step.kill);
      await sleep(100000);
    }
    if (step.hang) await new Promise(() => {});
    if (step.closeStdout) process.stdout.destroy();
  }
}
async function drain() {
  if (busy) return;
  busy = true;
  while (queue.length) {
    const c = queue.shift();
    if (c === "EXIT") process.exit(0);
    await handle(c);
  }
  busy = false;
}
process.stdin.on("data", (d) => {
  buf = Buffer.concat([buf, d]);
  let i;
  while ((i = buf.indexOf(10)) >= 0) {
    // exiftool: strips leading whitespace and trailing CR/LF, ignores blank and comment lines
    let line = buf.subarray(0, i).toString("utf8");
    buf = buf.subarray(i + 1);
    raw.push(line);
    let cstr = false;
    if (line.startsWith("#[CSTR]")) {
      // FilterArgfileLine: a C string, quoted by exiftool itself
      const C = { a: "\x07", b: "\b", f: "\f", n: "\n", r: "\r", t: "\t", 0: "\0" };
      line = line.slice(7).replace(/[\r\n]+$/, "").replace(/\\(.)/g, (m, c) => C[c] ?? c);
      cstr = true;
    } else if (line.startsWith("#")) continue;
    if (!cstr) line = line
      .replace(/^[ \t\r\n\v\f]+/, "")
      .replace(/[\r\n]+$/, "")
      .replace(/^(-[-_0-9A-Z:]+#?)[ \t\r\n\v\f]*([-+<]?=) ?/i, "$1$2");
    if (line === "") continue;
    if (/^-execute\d*$/i.test(line)) {
      queue.push({ args, raw });
      args = [];
      raw = [];
      void drain();
    } else {
      args.push(line);
      if (args.length >= 2 && /^-stay_open$/i.test(args[args.length - 2]) && /^(false|0)$/i.test(line)) {
        queue.push("EXIT");
        args = [];
        void drain();
      }
    }
  }
});
process.stdin.on("end", () => process.exit(0));
