import * as core from "@optique/core";
import { formatDocPage } from "@optique/core/doc";
import { runWith } from "@optique/core/facade";
import { suggestAsync, suggestSync } from "@optique/core/parser";
import { bindConfig, createConfigContext } from "@optique/config";
import { bindDerivedDefault, createDerivedDefaults } from "@optique/derived-defaults";
import { bindEnv, createEnvContext } from "@optique/env";
import { prompt } from "@optique/inquirer";
import { assert, equal, show } from "../lib/harness.mjs";
import { dress } from "../lib/dress.mjs";
import { build, caseArb, editTokens, editsArb, kids, has, planCase, Tape } from "../lib/grammar.mjs";

const schema = { "~standard": { version: 1, vendor: "test", validate: (value) => ({ value }) } };
const LEAVES = ["opt", "flag", "neg", "arg", "bool"];
const KINDS = [...LEAVES, "multiple", "optional", "withDefault", "map"];
const envOf = (bits) => { const t = new Tape(bits); return { isAsync: () => t.pick(2) === 0, ticks: () => 1 }; };

/**
 * Binds parts of a grammar to sources that have nothing to say, and some to
 * prompts; plainly, the program with optional parts where there are prompts.
 */
function bound(spec, tape, kinds, env = {}, nested = true, prompts = 0, plain = false) {
  const t = new Tape(tape);
  const environment = createEnvContext({ source: () => undefined }), config = createConfigContext({ schema }), resolvers = {}, bindings = [];
  const derived = createDerivedDefaults(new Proxy(resolvers, {}));
  // What is below optional() and withDefault() stays unbound: that
  // combination has findings of its own (see C23).
  const direct = new Set();
  const mark = (n, below) => { if (below) direct.add(n); for (const k of kids(n)) mark(k, below || ["optional", "withDefault"].includes(n.k)); };
  if (!nested) mark(spec, false);
  const asked = [];
  const wrap = (n, p) => {
    if (!kinds.includes(n.k) || direct.has(n) || t.pick(4) === 3) return p;
    for (let i = 0, times = 1 + (t.pick(4) === 3 ? 1 : 0); i < times; i++) {
      const key = `k${bindings.length}`, how = nested || n.k === "opt" || n.k === "arg" ? prompts && t.pick(2) && (nested || !has(spec, "or") && !has(spec, "lm")) ? "prompt" : ["env", "config", "derived"][t.pick(3)] : "env";
      bindings.push(how);
      resolvers[key] = () => undefined;
      if (plain) { if (how === "prompt") p = core.optional(p); }
      else if (how === "prompt") p = prompt(p, { type: "input", message: key, prompter: () => { asked.push(key); return Promise.reject(new Error("asked")); } });
      else if (how === "env") p = bindEnv(p, { context: environment, key, parser: core.string() });
      else if (how === "config") p = bindConfig(p, { context: config, key });
      else p = bindDerivedDefault(p, { context: derived.context, key });
    }
    return p;
  };
  const parser = build(spec, { ...env, wrap });
  return { parser, bindings, asked, contexts: [environment, config, derived.context] };
}
const tapeOf = (fc) => fc.array(fc.nat(11), { maxLength: 30 });

export default {
  id: "C36",
  title: "Binding a part to a source that has nothing to say changes nothing",
  statement: "bindEnv(), bindConfig() and bindDerivedDefault() around any part of a program, when the variable, the file or the rule gives no value and no default is set, leave the program as it was: the same command lines are accepted with the same values, completion proposes the same words at every point of a line, and usage and help pages read the same. A part with a prompt() completes and is documented like an optional one, and is not asked when the line gives its value, nor for completion or help.",
  quantifier: [["programs", "inputs"], "random grammars, parts of them bound to silent sources in any nesting, legal and edited lines, and words being completed"],
  why: "A wrapper keeps its own state around that of the part it wraps; every construct and modifier reads that state, and tests look at a few of the combinations.",
  files: ["packages/prompt/src/index.ts", "packages/env/src/index.ts", "packages/config/src/index.ts", "packages/derived-defaults/src/index.ts", "packages/core/src/constructs.ts", "packages/core/src/modifiers.ts"],
  mechanism: [["bindEnv()", "packages/env/src/index.ts"], ["bindConfig()", "packages/config/src/index.ts"], ["bindDerivedDefault()", "packages/derived-defaults/src/index.ts"], ["createPromptAdapter()", "packages/prompt/src/index.ts"]],
  observe: ["results of runWith()", "suggestions", "help pages"],
  rule: "lines: something is bound and the line is legal or edited; words: something is bound and something is suggested; pages: something is bound.",
  parts: [
    {
      name: "words", runs: { quick: 10000, thorough: 300000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc), cut: fc.nat(9), last: fc.constantFrom("", "", "-", "--", "--o", "a", "r", null), tape: tapeOf(fc), async: fc.boolean(), bits: fc.array(fc.nat(1), { maxLength: 8 }), prompts: fc.nat(1) }),
      async check({ c, cut, last, tape, async, bits, prompts }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const { tokens } = p, line = tokens.slice(0, tokens.length ? cut % (tokens.length + 1) : 0), words = last === null && line.length ? line : [...line, last ?? ""];
        const b = bound(p.spec, tape, KINDS, async ? envOf(bits) : {}, true, prompts);
        if (!b.bindings.length) return ctx.trivial("nothing bound");
        const want = suggestSync(bound(p.spec, tape, KINDS, {}, true, prompts, true).parser, words);
        if (!want.length) ctx.trivial("nothing suggested");
        const got = await suggestAsync(b.parser, words);
        equal(b.asked, [], `prompts while completing ${show(words)}`);
        equal(got.map((s) => JSON.stringify(s)).sort(), want.map((s) => JSON.stringify(s)).sort(), `suggestions for ${show(words)} with ${b.bindings.join(", ")}`);
      },
    },
    {
      name: "lines", runs: { quick: 8000, thorough: 250000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc), edits: editsArb(fc, 3), tape: tapeOf(fc), async: fc.boolean(), bits: fc.array(fc.nat(1), { maxLength: 8 }), prompts: fc.nat(1) }),
      async check({ c, edits, tape, async, bits, prompts }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const args = editTokens(p, edits), e = () => async ? envOf(bits) : {};
        const b = bound(p.spec, tape, LEAVES, e(), false, prompts);
        if (!b.bindings.length) return ctx.trivial("nothing bound");
        const go = async (parser) => { const err = []; const r = await runWith(parser, "prog", b.contexts, { args, contextOptions: { load: () => ({ config: {} }) }, stderr: (s) => err.push(s), onError: () => "refused" }); return r; };
        const want = await go(build(p.spec, e()));
        ctx.label(want === "refused" ? "refused" : "accepted");
        // What a refused line leaves out is asked for.
        if (want === "refused" && b.bindings.includes("prompt")) return ctx.trivial("refused, prompts may be asked");
        equal([await go(b.parser), b.asked], [want, []], `value and prompts of ${show(args)} with ${b.bindings.join(", ")}`);
      },
    },
    {
      name: "pages", runs: { quick: 5000, thorough: 150000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc), hid: fc.array(fc.nat(7), { maxLength: 8 }), cut: fc.nat(9), tape: tapeOf(fc), prompts: fc.nat(1) }),
      async check({ c, hid, cut, tape, prompts }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const { tokens } = p, whole = has(p.spec, "lm") || has(p.spec, "or"), args = whole ? tokens : tokens.slice(0, tokens.length ? cut % (tokens.length + 1) : 0), spec = dress(p.spec, hid);
        const b = bound(spec, tape, KINDS, {}, true, prompts);
        if (!b.bindings.length) return ctx.trivial("nothing bound");
        const plain = bound(spec, tape, KINDS, {}, true, prompts, true).parser;
        const show1 = async (q) => { const page = await core.getDocPage(q, args); return page && formatDocPage("prog", page, { showDefault: true, showChoices: true }); };
        equal(await show1(b.parser), await show1(plain), `page of ${show(args)} with ${b.bindings.join(", ")}`);
        equal(b.asked, [], `prompts while writing the page of ${show(args)}`);
        equal(core.formatUsage("prog", b.parser.usage), core.formatUsage("prog", plain.usage), `usage with ${b.bindings.join(", ")}`);
      },
    },
  ],
};
