"use strict";
// setup_cmd: nothing to build ahead of time; verifies the tools the checks need.
const { build } = require("./lib/build.js");
const fs = require("node:fs");
const d = build();
fs.rmSync(d, { recursive: true, force: true });
console.log("ok");
