// A program under test: grammar and configuration come from VP_PROG.
import { run } from "@optique/run";
import { build } from "./ast.ts";
import { encode } from "./value.ts";
const c = JSON.parse(process.env.VP_PROG!);
const v = await run(build(c.g, { async: c.async, tick: async () => {} }), {
  programName: "prog", ...(c.help ? { help: c.help } : {}), ...(c.version ? { version: c.version } : {}), ...(c.completion ? { completion: c.completion } : {}),
  ...(c.errorExitCode != null ? { errorExitCode: c.errorExitCode } : {}),
} as any);
console.log("VALUE " + JSON.stringify(encode(v)));
