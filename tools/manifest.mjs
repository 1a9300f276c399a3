// Writes properties.jsonl and MANIFEST.json from the metadata in checks/*.mjs.
import { readdirSync, writeFileSync } from "node:fs";
import { join, dirname } from "node:path";
import { fileURLToPath } from "node:url";
import { existsSync } from "node:fs";
import { install, ROOT } from "../lib/loader.mjs";
install();
const V = dirname(dirname(fileURLToPath(import.meta.url)));
const checks = [];
for (const f of readdirSync(join(V, "checks")).filter((f) => /^[A-Z]\d+\.mjs$/.test(f)).sort()) {
  const c = (await import(join(V, "checks", f))).default;
  if (f !== `${c.id}.mjs`) throw new Error(`${f}: id ${c.id}`);
  for (const k of ["title", "statement", "quantifier", "why", "files", "mechanism", "rule"]) if (!c[k]) throw new Error(`${c.id}: no ${k}`);
  if (c.title.length > 80) throw new Error(`${c.id}: title too long`);
  if (c.rule.length < 20) throw new Error(`${c.id}: rule`);
  for (const file of c.files) if (!existsSync(join(ROOT, file))) throw new Error(`${c.id}: no file ${file}`);
  checks.push(c);
}
writeFileSync(join(V, "properties.jsonl"), checks.map((c) => JSON.stringify({
  id: c.id, title: c.title, statement: c.statement,
  quantifier: { over: c.quantifier[0], text: c.quantifier[1] },
  why_tests_cant: c.why,
  anchors: {
    files: c.files,
    mechanism: c.mechanism.map(([name, where]) => ({ name, where })),
    ...(c.observe ? { observe_at: c.observe } : {}),
    hook_needed: null,
  },
})).join("\n") + "\n");
writeFileSync(join(V, "MANIFEST.json"), JSON.stringify({
  version: 1,
  setup_cmd: "./setup.sh",
  checks: checks.map((c) => ({
    property: c.id,
    quick_cmd: `./check ${c.id} --tier quick`,
    thorough_cmd: `./check ${c.id} --tier thorough`,
    evidence_file: `evidence/${c.id}.json`,
    technique: c.technique ?? "property-based testing (fast-check) against an explicit oracle",
    level: c.level ?? "exploration",
    level_note: c.levelNote ?? c.rule,
  })),
  not_applicable: [],
}, null, 1) + "\n");
console.log(`${checks.length} properties`);
