"use strict";
// C21: random histories of set, reset, subscribe and unsubscribe, also from inside of listeners,
// judged by a trace checker; what the library then does is compared with fresh processes.
const cp = require("node:child_process");
const path = require("node:path");
const { probe } = require("../lib/settings-probe.js");

const VALUES = {
  allowArchaicTimezoneOffsets: [false, true],
  allowBakerIslandTime: [false, true],
  maxValidOffsetMinutes: [30, 10, 0],
  tzAbbreviationOffsets: [{}, { CST: -360, IST: 330, XYZT: 60 }, { CST: 480 }],
};
module.exports = {
  technique: "trace checker over listener calls in random histories with re-entrant listeners (exactly-once per change and listener, none after removal, value visible at once); probes of zone handling after each change compared with fresh processes having these settings from the start",
  level: "exploration",
  rule: "one change or reset in a history; distinct by operations so far",
  assumptions: [
    "Listeners don't throw; a listener function is registered at most once at a time; a listener added during a notification may or may not see that change.",
    "Values are compared as the library documents it, by identity; NaN isn't used.",
  ],
  shards: () => [...Array.from({ length: 5 }, (_, k) => ({ name: "global", k })), { name: "own", k: 0 }, { name: "own", k: 1 }],
  minimums: () => ({ evaluations: 5000, "oracle:exactly-once": 5000, "oracle:visible": 5000, "oracle:none-after-removal": 3000, "oracle:equal-is-silent": 500, "oracle:behaviour": 400, "oracle:reset": 100, "oracle:default": 10, "nested changes": 300, "removals during notification": 300 }),
  async run(ctx) {
    await { global, own }[ctx.shard.name](ctx);
  },
};

/** records calls and changes of settings, and judges them */
class Trace {
  constructor(ctx, settings) {
    this.ctx = ctx;
    this.t = 0;
    this.settings = settings;
    this.model = new Map(Object.entries(settings).map(([k, s]) => [k, s.value]));
    this.listeners = new Map(Object.keys(settings).map((k) => [k, new Set()]));
    this.open = []; // changes under way
    this.past = [];
    this.depth = 0;
  }
  show(v) {
    return typeof v === "function" ? "fn" + (v.id ?? "") : JSON.stringify(v);
  }
  subscribe(name, react) {
    const l = { id: ++this.t, name, since: this.t, removed: Infinity, calls: [] };
    l.fn = (...args) => {
      const at = ++this.t;
      const s = this.settings[name];
      l.calls.push({ at, old: args[0], now: args[1], n: args.length });
      this.ctx.check(l.removed === Infinity, "none-after-removal", name, () => ({ past: this.past.slice(-25) }));
      // the change this call belongs to: the innermost open one with these values
      const c = this.open.findLast((c) => c.name === name && Object.is(c.old, args[0]) && Object.is(c.now, args[1]));
      this.ctx.check(c !== undefined, "call-for-a-change", name, () => ({ old: this.show(args[0]), now: this.show(args[1]), past: this.past.slice(-25) }));
      if (c) c.calls.set(l, (c.calls.get(l) ?? 0) + 1);
      this.ctx.check(Object.is(s.value, this.model.get(name)) && Object.is(s.valueOf(), s.value), "visible", name + " in a listener", () => ({ value: this.show(s.value), model: this.show(this.model.get(name)), past: this.past.slice(-25) }));
      if (this.depth < 3) {
        this.depth++;
        try {
          react?.(l);
        } finally {
          this.depth--;
        }
      }
    };
    l.off = this.settings[name].onChange(l.fn);
    this.listeners.get(name).add(l);
    this.past.push(`on ${name} #${l.id}`);
    return l;
  }
  unsubscribe(l) {
    if (l.removed !== Infinity) return;
    l.off();
    l.removed = ++this.t;
    this.listeners.get(l.name).delete(l);
    if (this.open.length) this.ctx.count("removals during notification");
    this.past.push(`off ${l.name} #${l.id}`);
  }
  /** f() is expected to change `names` to the given values */
  change(changes, f, label) {
    this.past.push(label);
    const mine = [];
    for (const [name, now] of changes) {
      const old = this.model.get(name);
      if (old === now) continue;
      if (this.open.length) this.ctx.count("nested changes");
      const c = { name, old, now, calls: new Map(), live: new Set(this.listeners.get(name)), start: ++this.t };
      mine.push(c);
      this.open.push(c);
      this.model.set(name, now);
    }
    const counts = new Map();
    for (const [, set] of this.listeners) for (const l of set) counts.set(l, l.calls.length);
    const opened = this.t;
    f();
    for (const c of mine) this.open.splice(this.open.indexOf(c), 1);
    for (const c of mine) {
      for (const l of c.live) {
        const n = c.calls.get(l) ?? 0;
        const gone = l.removed !== Infinity;
        this.ctx.check(gone ? n <= 1 : n === 1, "exactly-once", c.name, () => ({ n, listener: l.id, gone, old: this.show(c.old), now: this.show(c.now), past: this.past.slice(-25) }));
      }
      for (const [l, n] of c.calls) if (!c.live.has(l)) this.ctx.check(l.since > opened - 1 && n <= 1, "call-for-a-change", c.name + " unregistered", () => ({ past: this.past.slice(-25) }));
    }
    if (mine.length === 0) {
      const called = [...counts].filter(([l, n]) => l.calls.length !== n);
      this.ctx.check(called.length === 0, "equal-is-silent", label.split(" ")[0], () => ({ label, past: this.past.slice(-25) }));
    }
    this.ctx.saw(this.past.slice(-12).join(";"));
  }
  agree(where) {
    for (const [name, v] of this.model) {
      const s = this.settings[name];
      this.ctx.check(Object.is(s.value, v), "visible", name + " " + where, () => ({ value: this.show(s.value), model: this.show(v), past: this.past.slice(-25) }));
      this.ctx.check(String(s) === String(v), "visible", name + " as text", () => ({ text: String(s), past: this.past.slice(-5) }));
    }
  }
  set(name, v) {
    this.change([[name, v]], () => (this.settings[name].value = v), `set ${name} ${this.show(v)}`);
  }
  reset(name) {
    this.change([[name, this.settings[name].defaultValue]], () => this.settings[name].reset(), `reset ${name}`);
  }
}

function history(ctx, tr, values, steps, resetAll, after) {
  const { rng } = ctx;
  const names = Object.keys(tr.settings);
  let quiet = false; // listeners don't set anything while everything is being reset
  const all = () => [...tr.listeners.values()].flatMap((s) => [...s]);
  const reactions = [
    undefined,
    undefined,
    (l) => tr.unsubscribe(l),
    () => all().length && tr.unsubscribe(rng.pick(all())),
    () => {
      for (const l of rng.sample(all(), 3)) tr.unsubscribe(l);
    },
    (l) => rng.bool(0.5) && !quiet && tr.set(l.name, values(l.name)),
    () => rng.bool(0.4) && !quiet && ((n) => tr.set(n, values(n)))(rng.pick(names)),
    (l) => rng.bool(0.2) && !quiet && tr.reset(l.name),
    (l) => rng.bool(0.3) && tr.subscribe(l.name),
  ];
  for (let i = 0; i < steps; i++) {
    const name = rng.pick(names);
    switch (rng.weighted([[6, "set"], [5, "on"], [2, "off"], [1, "reset"], [resetAll ? 1 : 0, "all"], [1, "same"]])) {
      case "set":
        tr.set(name, values(name));
        break;
      case "same":
        tr.set(name, tr.model.get(name));
        break;
      case "on":
        if (all().length < 25) tr.subscribe(name, rng.pick(reactions));
        break;
      case "off": {
        const l = all();
        if (l.length) tr.unsubscribe(rng.pick(l));
        break;
      }
      case "reset": {
        const others = names.filter((n) => n !== name).map((n) => [n, tr.model.get(n)]);
        quiet = true;
        tr.reset(name);
        quiet = false;
        ctx.check(Object.is(tr.settings[name].value, tr.settings[name].defaultValue) && others.every(([n, v]) => Object.is(tr.settings[n].value, v)), "reset", name, () => ({ past: tr.past.slice(-25) }));
        break;
      }
      case "all":
        quiet = true;
        tr.change(names.map((n) => [n, tr.settings[n].defaultValue]), resetAll, "reset all");
        quiet = false;
        ctx.check(names.every((n) => Object.is(tr.settings[n].value, tr.settings[n].defaultValue)), "reset", "all", () => ({ past: tr.past.slice(-25) }));
        break;
    }
    tr.agree("after");
    after?.(i);
  }
  for (const l of all()) tr.unsubscribe(l);
}

async function global(ctx) {
  const { rng, lib } = ctx;
  const { Settings } = lib;
  const names = Object.keys(Settings).filter((k) => Settings[k] instanceof lib.Setting);
  // documented defaults
  for (const [k, vs] of Object.entries(VALUES)) ctx.check(JSON.stringify(Settings[k]?.value) === JSON.stringify(vs[0]) && JSON.stringify(Settings[k]?.defaultValue) === JSON.stringify(vs[0]), "default", k, () => ({ got: Settings[k]?.value }));
  const settings = Object.fromEntries(names.map((n) => [n, Settings[n]]));
  const pools = Object.fromEntries(Object.entries(VALUES).map(([k, vs]) => [k, vs.map((v, i) => (i === 0 ? Settings[k].defaultValue : v))]));
  let ids = 0;
  const values = (name) => {
    if (pools[name]) return rng.pick(pools[name]);
    const nothing = () => {};
    const f = () => ({ trace: nothing, debug: nothing, info: nothing, warn: nothing, error: nothing });
    f.id = ++ids;
    return f;
  };
  const known = new Map();
  const expected = (now) => {
    const key = JSON.stringify(now);
    if (!known.has(key)) known.set(key, JSON.parse(cp.execFileSync(process.execPath, [path.join(__dirname, "../lib/settings-probe.js"), ctx.buildRoot, key], { encoding: "utf8", maxBuffer: 1 << 26 })));
    return known.get(key);
  };
  for (let h = 0; h < ctx.n(6, 60); h++) {
    Settings.reset();
    const tr = new Trace(ctx, settings);
    history(ctx, tr, values, ctx.n(120, 250), () => Settings.reset(), () => {
      if (!rng.bool(0.2)) return;
      const now = Object.fromEntries(Object.keys(VALUES).map((k) => [k, Settings[k].value]));
      const want = expected(now), got = probe(lib);
      const diff = Object.keys(want).filter((k) => want[k] !== got[k]);
      ctx.check(diff.length === 0, "behaviour", diff[0] ?? "", () => ({ now, diff: diff.slice(0, 5).map((k) => [k, got[k], want[k]]), past: tr.past.slice(-25) }));
    });
  }
  Settings.reset();
  // the probes do depend on the settings
  const keys = [...known.keys()];
  ctx.check(new Set([...known.values()].map((v) => JSON.stringify(v))).size === keys.length, "probes-distinguish", "settings", () => ({ combinations: keys.length }));
}

async function own(ctx) {
  const { rng, lib } = ctx;
  for (let h = 0; h < ctx.n(25, 250); h++) {
    const settings = {};
    const kinds = { num: () => rng.int(0, 1e9), few: () => rng.int(-1, 1), bool: () => rng.bool(), text: () => rng.pick(["", "a", "b"]), obj: () => ({ x: rng.int(0, 3) }), maybe: () => rng.pick([undefined, null, 0, false, ""]), fn: () => () => 1, arr: () => [] };
    for (const k of rng.sample(Object.keys(kinds), rng.int(1, 3))) settings[k] = new lib.Setting(kinds[k]());
    const tr = new Trace(ctx, settings);
    tr.agree("initially");
    history(ctx, tr, (n) => kinds[n](), ctx.n(80, 160));
  }
}
