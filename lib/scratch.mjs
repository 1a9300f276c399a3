// One scratch directory per worker process, removed when it exits.
import { mkdtempSync, rmSync } from "node:fs";
import { tmpdir } from "node:os";
import { join } from "node:path";
import process from "node:process";

let dir;
export function scratch() {
  if (!dir) {
    dir = mkdtempSync(join(tmpdir(), "optique-pbt-"));
    process.on("exit", () => rmSync(dir, { recursive: true, force: true }));
  }
  return dir;
}
