"use strict";
// Compiles /repo's current working tree into a scratch folder outside /repo.
const fs = require("node:fs");
const os = require("node:os");
const path = require("node:path");
const cp = require("node:child_process");

const REPO = process.env.VERIF_REPO || "/repo";

function build() {
  const root = fs.mkdtempSync(path.join(os.tmpdir(), "vbuild-"));
  fs.symlinkSync(path.join(REPO, "node_modules"), path.join(root, "node_modules"));
  fs.copyFileSync(path.join(REPO, "package.json"), path.join(root, "package.json"));
  fs.writeFileSync(
    path.join(root, "tsconfig.json"),
    JSON.stringify({
      extends: path.join(REPO, "tsconfig.json"),
      compilerOptions: {
        outDir: path.join(root, "dist"),
        rootDir: path.join(REPO, "src"),
        declaration: false,
        sourceMap: true,
        incremental: false,
        noUnusedLocals: false,
        typeRoots: [path.join(REPO, "node_modules/@types")],
        noCheck: true,
      },
      include: [path.join(REPO, "src/**/*.ts")],
      exclude: [path.join(REPO, "src/**/*.spec.ts"), path.join(REPO, "src/update/**")],
    }),
  );
  const tsc = path.join(REPO, "node_modules/typescript/bin/tsc");
  const r = cp.spawnSync(process.execPath, [tsc, "-p", path.join(root, "tsconfig.json")], {
    encoding: "utf8",
    timeout: 300000,
  });
  const main = path.join(root, "dist/ExifTool.js");
  if (!fs.existsSync(main)) {
    fs.rmSync(root, { recursive: true, force: true });
    throw new Error("build failed: " + r.stdout + r.stderr);
  }
  return root;
}
module.exports = { build, REPO };
