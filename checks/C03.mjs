import * as core from "@optique/core";
import { suggestAsync, suggestSync } from "@optique/core/parser";
import { assert, equal, show } from "../lib/harness.mjs";
import { isNamed } from "../lib/named.mjs";
import { CMDS, wildArb, wildHas, wildBuild, wildEnv, wildPicks, wildTokens } from "../lib/wild.mjs";
import { Tape, build, caseArb, editTokens, editsArb, nodes, planCase } from "../lib/grammar.mjs";

const outcome = (r) => r.success ? { ok: true, value: r.value } : { ok: false, error: core.formatMessage(r.error) };
const capture = (f) => { try { return f(); } catch (e) { return { threw: `${e.name}: ${e.message}` }; } };
const captureA = async (f) => { try { return await f(); } catch (e) { return { threw: `${e.name}: ${e.message}` }; } };

function envOf(bits, ticks) {
  const t = new Tape(bits), k = new Tape(ticks);
  let any = false;
  return { isAsync: () => { const v = t.pick(2) === 0; any ||= v; return v; }, ticks: () => k.pick(4), get any() { return any; } };
}
const lineArb = (fc) => fc.record({ c: caseArb(fc), edits: editsArb(fc, 3), bits: fc.array(fc.nat(1), { maxLength: 12 }), ticks: fc.array(fc.nat(3), { maxLength: 20 }) });

export default {
  id: "C03",
  title: "Synchronous and asynchronous parsing agree",
  statement: "Replacing any subset of a parser's value parsers by asynchronous ones with the same behaviour, and calling the synchronous, asynchronous or mode-dispatching entry point, changes neither acceptance, value, error message, suggestions nor help page for any command line, whatever the timing of the promises. The combined parser's mode is asynchronous exactly when one of its value parsers is.",
  quantifier: [["programs", "inputs", "schedules"], "all compositions, all subsets of asynchronous value parsers, all promise timings, all command lines (accepted or not)"],
  why: "Every combinator has separate synchronous and asynchronous code; the tests exercise the asynchronous copies with far fewer compositions and hardly any rejected command line.",
  files: ["packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/modifiers.ts", "packages/core/src/parser.ts", "packages/core/src/internal/mode-dispatch.ts"],
  mechanism: [["paired sync/async parse, complete and suggest paths", "packages/core/src/constructs.ts"], ["mode dispatch", "packages/core/src/internal/mode-dispatch.ts"]],
  observe: ["results of parse*/suggest*/getDocPage* in each mode"],
  rule: "A random grammar is built twice, once synchronous and once with a random subset of its value parsers made asynchronous with random numbers of microtask ticks; both see the same randomly edited line (respectively a completion prefix) through all entry points. Part wild: grammars with overlapping names, dependency sources and derived options (lib/wild.mjs) on lines over those names. Non-trivial: at least one value parser is asynchronous (and there is something to suggest or show).",
  parts: [
    {
      name: "parse",
      async: true,
      runs: { quick: 8000, thorough: 250000 },
      arb: lineArb,
      async check({ c, edits, bits, ticks }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const tokens = editTokens(p, edits);
        const sync = build(p.spec);
        const env = envOf(bits, ticks);
        const asyn = build(p.spec, env);
        const base = outcome(core.parseSync(sync, tokens));
        const expect = (r, how) => equal(r, base, `${how} differs from parseSync for ${show(tokens)}\n  spec ${show(p.spec)}`);
        expect(outcome(core.parse(sync, tokens)), "parse(sync)");
        expect(outcome(await core.parseAsync(sync, tokens)), "parseAsync(sync)");
        expect(outcome(await core.parse(asyn, tokens)), `parse(async)`);
        expect(outcome(await core.parseAsync(asyn, tokens)), `parseAsync(async)`);
        ctx.label(base.ok ? "accept" : "reject", env.any ? "mixed modes" : "sync only");
        equal(asyn.mode, env.any ? "async" : "sync", `mode of the combined parser for ${show(p.spec)}`);
        if (!env.any) ctx.trivial("no asynchronous value parser");
      },
    },
    {
      name: "suggest",
      async: true,
      runs: { quick: 4000, thorough: 120000 },
      arb: (fc) => fc.record({ l: lineArb(fc), cut: fc.nat(30), prefix: fc.nat(30) }),
      async check({ l: { c, edits, bits, ticks }, cut, prefix }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const all = editTokens(p, edits);
        const head = all.slice(0, all.length ? cut % (all.length + 1) : 0);
        const names = [...nodes(p.spec)].flatMap((n) => n.names ?? []);
        const prefixes = ["", "-", "--", "a", "--o", "r", ...names, ...names.map((n) => `${n}=`)];
        const line = [...head, prefixes[prefix % prefixes.length]];
        const sync = build(p.spec);
        const env = envOf(bits, ticks);
        const asyn = build(p.spec, env);
        const base = capture(() => suggestSync(sync, line));
        const expect = (r, how) => equal(r, base, `${how} differs from suggestSync for ${show(line)}\n  spec ${show(p.spec)}`);
        expect(await captureA(() => core.suggest(sync, line)), "suggest(sync)");
        expect(await captureA(() => suggestAsync(sync, line)), "suggestAsync(sync)");
        expect(await captureA(() => suggestAsync(asyn, line)), "suggestAsync(async)");
        expect(await captureA(() => core.suggest(asyn, line)), "suggest(async)");
        if (!env.any || !Array.isArray(base) || !base.length) ctx.trivial("no suggestions or no asynchronous value parser");
      },
    },
    {
      name: "docpage",
      async: true,
      runs: { quick: 4000, thorough: 120000 },
      arb: lineArb,
      async check(k0, ctx) {
        const { c, edits, bits = [], ticks = [] } = k0;
        const p = isNamed(k0) ? k0 : planCase(c);
        if (!p) return ctx.trivial("no plan");
        const tokens = isNamed(k0) ? k0.tokens : editTokens(p, edits);
        const sync = build(p.spec);
        const env = envOf(bits, ticks);
        const asyn = build(p.spec, env);
        const base = capture(() => core.getDocPageSync(sync, tokens));
        const expect = (r, how) => equal(r, base, `${how} differs from getDocPageSync for ${show(tokens)}\n  spec ${show(p.spec)}`);
        expect(capture(() => core.getDocPage(sync, tokens)), "getDocPage(sync)");
        expect(await captureA(() => core.getDocPageAsync(sync, tokens)), "getDocPageAsync(sync)");
        expect(await captureA(() => core.getDocPageAsync(asyn, tokens)), "getDocPageAsync(async)");
        expect(await captureA(() => core.getDocPage(asyn, tokens)), "getDocPage(async)");
        assert(base === undefined || base.threw == null, () => `getDocPage threw ${base.threw} for ${show(tokens)}`);
        if (!env.any || base == null) ctx.trivial("no page or no asynchronous value parser");
      },
    },
    {
      name: "wild",
      async: true,
      runs: { quick: 60000, thorough: 1500000 },
      arb: (fc) => fc.record({ spec: wildArb(fc, 3), picks: wildPicks(fc), bits: fc.array(fc.nat(1), { maxLength: 8 }), ticks: fc.array(fc.nat(3), { maxLength: 12 }) }),
      async check({ spec, picks, bits, ticks, pin }, ctx) {
        const sync = wildBuild(spec);
        if (!sync) return ctx.trivial("cannot be built");
        const env = wildEnv(bits, ticks);
        const asyn = wildBuild(spec, env);
        const tokens = pin ?? wildTokens(spec, picks);
        // The known findings: what an object tells of an asynchronous alternative when nothing is left to read,
        // and which of two errors is reported when one of them is about a dependency source.
        if (!pin && wildHas(spec, (n) => ["cond", "or", "lm"].includes(n.k)) && (!tokens.length || CMDS.includes(tokens.at(-1)))) return ctx.trivial("known finding: alternative at the end of input");
        const base = outcome(core.parseSync(sync, tokens));
        const other = outcome(await core.parseAsync(asyn, tokens));
        if (!pin && !base.ok && !other.ok && wildHas(spec, (n) => n.k === "src")) ctx.trivial("known finding: which error of a source");
        else equal(other, base, `parseAsync(async) differs from parseSync for ${show(tokens)}\n  spec ${show(spec)}`);
        ctx.label(base.ok ? "accept" : "reject", spec.k);
        equal(capture(() => suggestSync(sync, tokens.length ? tokens : [""])), await captureA(() => suggestAsync(asyn, tokens.length ? tokens : [""])), `suggestAsync(async) differs from suggestSync for ${show(tokens)}\n  spec ${show(spec)}`);
        if (!env.any) ctx.trivial("no asynchronous value parser");
      },
    },
  ],
};
