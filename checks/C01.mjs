import * as core from "@optique/core";
import { assert, equal, show } from "../lib/harness.mjs";
import { isNamed } from "../lib/named.mjs";
import { build, caseArb, has, nodeArbs, nodes, planCase } from "../lib/grammar.mjs";

export const classify = (spec, p, ctx) => {
  for (const k of ["cmds", "or", "lm", "cond", "seq", "merge", "concat", "multiple", "neg", "withDefault"]) {
    if (has(spec, k)) ctx.label(`has ${k}`);
  }
  if (p.termAt >= 0) ctx.label("terminator");
  if (p.tokens.some((t) => /^-[a-z0-9]{2,}$/.test(t))) ctx.label("bundle");
};

export default {
  id: "C01",
  title: "Every legal spelling of a command line parses to the value it denotes",
  statement: "For any parser composed of options, flags, negatable flags, arguments, constants and commands with objects, tuples, merges, concatenations, sequences, alternatives, longest matches, conditionals and the optional/default/multiple/non-empty/map/group modifiers, a command line that spells a choice of values in any accepted way (any name or alias, `--name value` or `--name=value`, bundled short options, any order of independent options, `--` before positionals) is accepted and yields exactly those values, with the documented value for every part left out.",
  quantifier: [["programs", "inputs"], "all compositions of the combinators, and all spellings and interleavings of a command line each of them accepts"],
  why: "The tests parse hand-written parsers with a few command lines each; the guarantee is over all compositions and all interleavings, where priorities, greedy consumption, bundling and `--` interact.",
  files: ["packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/modifiers.ts", "packages/core/src/parser.ts"],
  mechanism: [["priority-ordered greedy parse loop of object()/merge()/tuple()/concat()/seq()", "packages/core/src/constructs.ts"], ["token consumption of option()/flag()/argument()/command()", "packages/core/src/primitives.ts"], ["state wrapping of optional()/withDefault()/multiple()", "packages/core/src/modifiers.ts"]],
  observe: ["the result of parse()/parseSync()"],
  rule: "A random grammar is built with the real combinators and a value is planned for it together with tokens that say it (independent denotational model in lib/grammar.mjs); parse() must return exactly that value. Non-trivial: the line has two tokens or more. Spellings of the known findings of C01 (a token such as --k=v that a sibling's positional can take) are not generated.",
  assumptions: ["grammars have no two parsers that could claim the same token except by the documented priority order"],
  parts: [{
    name: "denotation",
    runs: { quick: 16000, thorough: 400000 },
    arb: (fc) => caseArb(fc),
    check(c, ctx) {
      if (isNamed(c)) {
        const r = core.parse(build(c.spec), c.tokens);
        assert(r.success, () => `rejected ${show(c.tokens)}: ${core.formatMessage(r.error)}`);
        return equal(r.value, c.expect, `wrong value for ${show(c.tokens)}`);
      }
      const p = planCase(c);
      if (!p) return ctx.trivial("no plan");
      const parser = build(p.spec);
      const r = core.parse(parser, p.tokens);
      if (p.tokens.length < 2) ctx.trivial("fewer than two tokens");
      classify(p.spec, p, ctx);
      assert(r.success, () => `rejected ${show(p.tokens)}: ${core.formatMessage(r.error)}\n  expected ${show(p.value)}\n  spec ${show(p.spec)}`);
      equal(r.value, p.value, `wrong value for ${show(p.tokens)}`);
    },
  }],
};
