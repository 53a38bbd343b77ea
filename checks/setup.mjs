// Nothing is kept between runs; this only verifies that the tools are there.
import { existsSync, mkdirSync } from "node:fs";
for (const f of ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/node/node_modules/esbuild"]) {
  if (!existsSync(f)) { console.error("missing " + f); process.exit(1); }
}
mkdirSync(new URL("../evidence", import.meta.url).pathname, { recursive: true });
