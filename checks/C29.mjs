import * as core from "@optique/core";
import { runParser, runWith, runWithSync } from "@optique/core/facade";
import { getAnnotations } from "@optique/core/annotations";
import { suggestAsync, suggestSync } from "@optique/core/parser";
import { createEnvContext } from "@optique/env";
import { createConfigContext } from "@optique/config";
import { dress, HIDDEN } from "../lib/dress.mjs";
import { assert, equal, fail, show } from "../lib/harness.mjs";
import { build, caseArb, editTokens, editsArb, nodeArbs, planCase, Tape, tapeArb } from "../lib/grammar.mjs";
import { wildArb, wildBuild, wildEnv, wildHas, wildPicks, wildTokens } from "../lib/wild.mjs";

const envContext = createEnvContext({ source: () => undefined });
const configContext = createConfigContext({ schema: { "~standard": { version: 1, vendor: "verif", validate: (value) => ({ value }) } } });
const SYMBOL = Symbol("unrelated");
const ANNOTATIONS = [
  () => ({ [SYMBOL]: 1 }),
  () => ({ [Symbol.for("@verif/other")]: { deep: [1] } }),
  () => envContext.getAnnotations(),
  () => ({ [SYMBOL]: undefined }),
  () => ({ [SYMBOL]: null, [Symbol("two")]: "x" }),
  () => Object.freeze({ [SYMBOL]: Object.freeze({}) }),
];
/* Nothing of the machinery in a value: no annotations, no symbols, no states. */
function clean(v, path, seen = new Set()) {
  if (v === null || typeof v !== "object" || seen.has(v)) return;
  seen.add(v);
  assert(getAnnotations(v) === undefined, () => `${path} of the value carries annotations`);
  assert(Object.getOwnPropertySymbols(v).length === 0, () => `${path} of the value has symbol keys ${show(Object.getOwnPropertySymbols(v))}`);
  for (const k of Object.keys(v)) clean(v[k], `${path}.${k}`, seen);
}
/* Dependency sources are completed before the other fields, and a source that
   might read annotations counts as one to complete: when several fields fail,
   the one reported may differ. */
const told = (r, anyError) => anyError && !r.success ? { ok: false } : r.success ? { ok: true, value: r.value } : { ok: false, error: core.formatMessage(r.error) };
const plain = (x) => Array.isArray(x) ? x.map(plain) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).filter(([, v]) => v !== undefined).map(([k, v]) => [k, plain(v)])) : x;
const attempt = async (f) => { try { return { value: await f() }; } catch (e) { return { thrown: `${e?.name}: ${e?.message}` }; } };

/* Everything a parser can be asked, with and without the annotations. */
async function compare(parser, line, annotations, isAsync, anyError, ctx) {
  const options = { annotations };
  const with1 = await attempt(() => isAsync ? core.parseAsync(parser, line, options) : core.parseSync(parser, line, options));
  const without = await attempt(() => isAsync ? core.parseAsync(parser, line) : core.parseSync(parser, line));
  const t = (r) => r.thrown ? r : told(r.value, anyError);
  equal(t(with1), t(without), `result of ${show(line)} with annotations`);
  if (with1.value?.success) clean(with1.value.value, "$");
  ctx.label(without.thrown ? "throws" : without.value.success ? "accepts" : "refuses");
  const asked = line.length ? line : [""];
  const s = async (o) => await attempt(async () => plain(isAsync ? await suggestAsync(parser, asked, ...o) : suggestSync(parser, asked, ...o)));
  equal(await s([options]), await s([]), `suggestions for ${show(asked)} with annotations`);
  const d = async (o) => await attempt(async () => plain(await core.getDocPage(parser, line, ...o) ?? null));
  equal(await d([options]), await d([]), `help page for ${show(line)} with annotations`);
  return without;
}

export default {
  id: "C29",
  title: "Annotations and contexts nobody asks for change nothing",
  statement: "Runtime data of the annotation system is invisible to parsers that do not read it: for every parser and every command line, parsing, completion, help pages and complete runs give the same value, error, suggestions, page, output and exit with annotations or source contexts present as without any, and no value handed to the program carries annotations.",
  quantifier: [["programs", "inputs", "configurations"], "all compositions of the combinators, with overlapping names and dependent options; all command lines; annotations of any kind, static and two-pass contexts"],
  why: "Annotations travel inside parser states through every combinator, which must wrap and unwrap them at every step; tests try the few nestings their authors thought of.",
  files: ["packages/core/src/annotation-state.ts", "packages/core/src/internal/annotations.ts", "packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/primitives.ts", "packages/core/src/facade.ts"],
  mechanism: [["injectAnnotations(), inheritAnnotations()", "packages/core/src/internal/annotations.ts"], ["getWrappedChildParseState(), getWrappedChildState()", "packages/core/src/annotation-state.ts"], ["runWith()", "packages/core/src/facade.ts"]],
  rule: "a grammar that can be built and a line with at least one token.",
  technique: "metamorphic property-based testing (fast-check): the same question with and without annotations",
  parts: [{
    name: "grammar", runs: { quick: 12000, thorough: 300000 }, async: true,
    arb: (fc) => fc.record({ c: caseArb(fc), edits: editsArb(fc, 3), a: fc.nat(ANNOTATIONS.length - 1), cut: fc.nat(6), isAsync: fc.constantFrom(false, false, true), bits: fc.array(fc.nat(1), { maxLength: 8 }) }),
    async check({ c, edits, a, cut, isAsync, bits }, ctx) {
      const p = planCase(c);
      if (!p) return ctx.trivial("no plan");
      let line = editTokens(p, edits);
      if (cut < 3) line = line.slice(0, Math.max(0, line.length - cut));
      const env = wildEnv(bits, [1, 0, 2]);
      const parser = build(p.spec, isAsync ? env : {});
      if (!line.length) ctx.trivial("empty line");
      await compare(parser, line, ANNOTATIONS[a](), parser.mode === "async", false, ctx);
    },
  }, {
    name: "wild", runs: { quick: 20000, thorough: 500000 }, async: true,
    arb: (fc) => fc.record({ spec: wildArb(fc, 3), picks: wildPicks(fc), a: fc.nat(ANNOTATIONS.length - 1), isAsync: fc.constantFrom(false, false, true), bits: fc.array(fc.nat(1), { maxLength: 8 }) }),
    async check({ spec, picks, a, isAsync, bits, pin }, ctx) {
      const parser = wildBuild(spec, isAsync ? wildEnv(bits, [1, 0, 2]) : {});
      if (!parser) return ctx.trivial("not built");
      const line = pin ?? wildTokens(spec, picks);
      if (!line.length) ctx.trivial("empty line");
      await compare(parser, line, ANNOTATIONS[a](), parser.mode === "async", wildHas(spec, (n) => n.k === "src"), ctx);
    },
  }, {
    name: "runs", runs: { quick: 6000, thorough: 120000 }, async: true,
    arb: (fc) => fc.record({ c: caseArb(fc, nodeArbs(fc).cmdRoot), edits: editsArb(fc, 2), hid: fc.array(fc.nat(HIDDEN.length - 1), { maxLength: 6 }), cut: fc.nat(6), ask: fc.constantFrom("none", "none", "--help", "help", "--version", "--completion"), contexts: fc.array(fc.constantFrom("env", "config", "static", "two-pass", "empty"), { minLength: 1, maxLength: 3 }), sync: fc.boolean() }),
    async check({ c, edits, hid, cut, ask, contexts, sync }, ctx) {
      const p = planCase(c);
      if (!p) return ctx.trivial("no plan");
      let line = editTokens(p, edits);
      if (cut < 4) line = line.slice(0, Math.max(0, line.length - cut));
      if (ask === "help") line = ["help", ...line]; else if (ask === "--completion") line = ["--completion", "bash", ...line, ""]; else if (ask !== "none") line = [...line, ask];
      const parser = build(dress(p.spec, hid));
      const made = [...new Set(contexts)].map((k) => k === "env" ? envContext : k === "config" ? configContext : { id: Symbol(k), phase: k === "two-pass" ? "two-pass" : "single-pass", getAnnotations: (r) => k === "empty" ? {} : { [SYMBOL]: r?.phase ?? k } });
      const transcript = async (f) => {
        const out = { stdout: [], stderr: [] };
        const options = { help: { command: true, option: true, onShow: () => "help" }, version: { option: true, value: "1.2.3", onShow: () => "version" }, completion: { option: true, command: true, onShow: () => "completion" }, stdout: (t) => out.stdout.push(t), stderr: (t) => out.stderr.push(t), onError: () => "error" };
        return { ...(await attempt(() => f(options))), ...out };
      };
      const without = await transcript((o) => runParser(parser, "prog", line, o));
      const anySync = sync && !made.includes(configContext);
      const with1 = await transcript((o) => (anySync ? runWithSync : runWith)(parser, "prog", made, { ...o, args: line, contextOptions: { load: () => ({ config: {} }) } }));
      equal(with1, without, `run of ${show(line)} with the contexts ${contexts.join(", ")}`);
      if (with1.value && typeof with1.value === "object") clean(with1.value, "$");
      if (!line.length) ctx.trivial("empty line");
      ctx.label(ask, typeof without.value === "string" ? without.value : "value");
    },
  }],
};
