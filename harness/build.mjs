// Bundle a harness entry point together with the *sources* of the packages in
// /repo (current working tree), so that a check always judges the tree it is
// run on and never a stale dist/.
import { createRequire } from "node:module";
import { readFileSync, existsSync } from "node:fs";
import path from "node:path";
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
const REPO = process.env.VP_REPO ?? "/repo";

const optique = {
  name: "optique-src",
  setup(build) {
    build.onResolve({ filter: /^@optique\// }, (args) => {
      const [, pkg, ...rest] = args.path.split("/");
      const dir = path.join(REPO, "packages", pkg);
      const pj = JSON.parse(readFileSync(path.join(dir, "package.json"), "utf8"));
      const key = rest.length ? "./" + rest.join("/") : ".";
      let ent = pj.exports?.[key];
      let target;
      if (ent != null) {
        const imp = typeof ent === "string" ? ent : ent.import ?? ent.module ?? ent.default;
        const file = typeof imp === "string" ? imp : imp.default;
        target = file.replace(/^\.\/dist\//, "src/").replace(/\.(c|m)?js$/, ".ts");
      } else {
        target = path.join("src", (rest.length ? rest.join("/") : "index") + ".ts");
      }
      const p = path.join(dir, target);
      if (!existsSync(p)) return { errors: [{ text: `cannot map ${args.path} -> ${p}` }] };
      return { path: p };
    });
  },
};

export async function bundle(entry, outfile) {
  await esbuild.build({
    entryPoints: [entry], outfile, bundle: true, platform: "node", format: "esm",
    target: "node22", sourcemap: false, logLevel: "error", plugins: [optique],
    nodePaths: [path.join(REPO, "node_modules")],
    banner: { js: 'import{createRequire as __cr}from"node:module";const require=__cr(import.meta.url);' },
    loader: { ".ts": "ts" },
  });
}
if (process.argv[1] === new URL(import.meta.url).pathname) {
  await bundle(process.argv[2], process.argv[3]);
}
