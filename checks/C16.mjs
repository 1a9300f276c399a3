import * as core from "@optique/core";
import { suggestSync } from "@optique/core/parser";
import { deduplicateSuggestions } from "@optique/core/suggestion";
import { assert, equal, show } from "../lib/harness.mjs";
import { CHOICES, build, caseArb, commandNames, nodes, optionNamesOf, planCase } from "../lib/grammar.mjs";

/** Feeds tokens to the parser step by step; true when all of them are consumed. */
function consumes(parser, tokens) {
  let cx = core.createParserContext
    ? core.createParserContext({ buffer: tokens, state: parser.initialState, optionsTerminated: false }, { usage: parser.usage, phase: "parse", path: [] })
    : { buffer: tokens, state: parser.initialState, optionsTerminated: false, usage: parser.usage };
  while (cx.buffer.length > 0) {
    const r = parser.parse(cx);
    if (!r.success) return false;
    if (r.next.buffer.length === cx.buffer.length && r.next.buffer.every((t, i) => t === cx.buffer[i])) return false;
    cx = r.next;
  }
  return true;
}
const PROBES = ["1", "red", "0.5", "abc", "x", "json", "-3", "xml", "html", "x-y", "0", "5", "50"];

export default {
  id: "C16",
  title: "Completion offers every word that fits, and only words that fit",
  statement: "At every point of an accepted command line, completing any prefix of the option name, command name or enumerated value that stands there offers it (in `--option value` and `--option=value` form), unless it is a value that repeatable part already has. Every literal offered begins with the prefix being completed, is offered once, and (unless it stands in an option's value position) can be read by the parser at that point or names an option the line already has.",
  quantifier: [["programs", "inputs"], "all compositions of the combinators with hidden parts, all positions of accepted lines, all prefixes of the token there"],
  why: "Completion runs through separate suggest() code of every combinator, on partial states no parse test reaches; tests complete a few fixed words.",
  files: ["packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/modifiers.ts", "packages/core/src/internal/parser.ts", "packages/core/src/suggestion.ts"],
  mechanism: [["suggest() of every combinator", "packages/core/src/constructs.ts"], ["suggestSync()/suggestAsync()", "packages/core/src/internal/parser.ts"]],
  observe: ["result of suggestSync()/suggestAsync()"],
  rule: "complete: the token completed is an option or command name or an enumerated value (not free text, bundle or terminator); sound: something was offered; merge: two of the suggestions are the same",
  parts: [
    {
      name: "complete",
      runs: { quick: 10000, thorough: 300000 },
      arb: (fc) => fc.record({ c: caseArb(fc), at: fc.nat(30), cut: fc.nat(30) }),
      check({ c, at, cut }, ctx) {
        const p = planCase(c);
        if (!p || !p.tokens.length) return ctx.trivial("no plan");
        const parser = build(p.spec);
        const i = at % p.tokens.length, tok = p.tokens[i], role = p.roles[i];
        const head = p.tokens.slice(0, i);
        if (!role) return ctx.trivial("bundle or terminator");
        const terminated = p.termAt >= 0 && head.includes("--");
        let target = null, kind;
        if (role.name && role.leaf.k === "cmds") { target = tok; kind = "command"; }
        else if (role.name && optionNamesOf(p.spec).includes(tok)) { target = tok; kind = "option"; }
        else if (!role.name && role.leaf.vp?.t === "choice") { target = tok; kind = role.option ? "option value" : "argument value"; }
        else if (!role.name && role.leaf.k === "cond") { target = tok; kind = "discriminator"; }
        else if (role.name && role.leaf.vp?.t === "choice" && tok.includes("=") ) { target = tok; kind = "joined value"; }
        if (target == null) return ctx.trivial("free text");
        if (kind.includes("value") && role.option && !role.option.startsWith("-") && [...nodes(p.spec)].some((n) => n.k === "arg" || n.k === "pass")) return ctx.trivial("`/name` may be a positional");
        if (head.some((t, j) => t === target && p.roles[j]?.leaf === role.leaf && !p.roles[j].name)) return ctx.trivial("value already given");
        let k = cut % (target.length + 1);
        if (kind === "option" && k === 0) k = 1;
        if (kind === "joined value") k = Math.max(k, target.indexOf("=") + 1);
        const prefix = target.slice(0, k);
        if (kind === "option" && prefix === "-" && target.length !== 2) return ctx.trivial("lone dash");
        const got = suggestSync(parser, [...head, prefix]);
        ctx.label(kind, terminated ? "after --" : "before --");
        assert(got.some((s) => s.kind === "literal" && s.text === target), () => `completing ${show([...head, prefix])} does not offer ${target} (${kind}) but ${show(got.map((s) => s.text ?? s))}\n  line ${show(p.tokens)}\n  spec ${show(p.spec)}`);
      },
    },
    {
      name: "sound",
      runs: { quick: 6000, thorough: 200000 },
      arb: (fc) => fc.record({ c: caseArb(fc), at: fc.nat(30), pre: fc.nat(60), len: fc.nat(8) }),
      check({ c, at, pre, len, pin }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const parser = build(p.spec);
        const i = at % (p.tokens.length + 1);
        const head = p.tokens.slice(0, i);
        const pool = ["", "-", "--", "/", "+", ...optionNamesOf(p.spec), ...commandNames(p.spec), ...CHOICES, ...optionNamesOf(p.spec).map((n) => `${n}=`)];
        let prefix = pool[pre % pool.length];
        if (len < prefix.length) prefix = prefix.slice(0, len + 1);
        if (!pin && prefix.includes("=") && (prefix.startsWith("/") || prefix.indexOf("=") < 3)) return ctx.trivial("no joined form (known finding)");
        const got = suggestSync(parser, [...head, prefix]);
        if (!got.length) return ctx.trivial("nothing offered");
        const seen = new Set();
        // the last word before it is an option's name and this is its value
        const waiting = i > 0 && p.roles[i - 1]?.name && p.roles[i]?.option === p.tokens[i - 1];
        const used = new Set([...nodes(p.spec)].map((n) => [...(n.names ?? []), ...(n.pos ?? []), ...(n.neg ?? [])])
          .filter((names) => names.some((n) => head.some((t) => t === n || t.startsWith(`${n}=`) || t.startsWith(`${n}:`) || (/^-[a-z0-9]{2,}$/.test(t) && n.length === 2 && n[0] === "-" && t.includes(n[1]))))).flat());
        for (const s of got) {
          assert(s.kind === "literal", "not a literal");
          assert(s.text.startsWith(prefix), () => `completing ${show([...head, prefix])} offers ${show(s.text)}`);
          assert(!seen.has(s.text), () => `completing ${show([...head, prefix])} offers ${show(s.text)} twice`);
          seen.add(s.text);
          const ok = waiting || used.has(s.text.split("=")[0]) || consumes(parser, [...head, s.text]) || PROBES.some((v) => consumes(parser, [...head, s.text, v]));
          assert(ok, () => `completing ${show([...head, prefix])} offers ${show(s.text)}, which the parser cannot read there\n  line ${show(p.tokens)}\n  spec ${show(p.spec)}`);
        }
      },
    },
    {
      name: "merge", runs: { quick: 4000, thorough: 80000 },
      arb: (fc) => {
        const word = fc.constantFrom("a", "b", "--x", "", "file");
        return fc.array(fc.oneof(
          fc.record({ kind: fc.constant("literal"), text: word, description: fc.option(fc.constantFrom("one", "two"), { nil: undefined }) }),
          fc.record({ kind: fc.constant("file"), type: fc.constantFrom("file", "directory", "any"), extensions: fc.option(fc.shuffledSubarray([".json", ".yaml", ".txt"]), { nil: undefined }), pattern: fc.option(fc.constantFrom("src/", "*.json"), { nil: undefined }), includeHidden: fc.constantFrom(undefined, true, false) }),
        ), { maxLength: 8 });
      },
      check(list, ctx) {
        list = list.map((x) => Object.fromEntries(Object.entries(x).filter(([, v]) => v !== undefined)));
        const before = structuredClone(list);
        const key = (x) => x.kind === "literal" ? `l${x.text}` : `f${JSON.stringify([x.type, [...x.extensions ?? []].sort(), x.pattern ?? ""])}`;
        const want = [];
        for (const x of list) {
          const w = want.find((y) => key(y) === key(x));
          if (!w) want.push({ ...x });
          else if (x.includeHidden === true) w.includeHidden = true;
        }
        if (want.length === list.length) ctx.trivial("nothing twice");
        equal(deduplicateSuggestions(list), want, "deduplicateSuggestions()");
        equal(list, before, "the list given");
      },
    },
  ],
};
