import * as core from "@optique/core";
import { isDeepStrictEqual } from "node:util";
import { assert, equal, show } from "../lib/harness.mjs";
import { KINDS, makeVp, vpCase } from "../lib/vps.mjs";

const norm = (v) => (v instanceof URL ? `URL ${v.href}` : v instanceof Intl.Locale ? `Locale ${v.toString()}` : Object.is(v, -0) ? 0 : Array.isArray(v) ? v.map(norm) : v && typeof v === "object" ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, norm(x)])) : v);
const same = (a, b) => isDeepStrictEqual(norm(a), norm(b));
const wellFormed = (r, what) => {
  assert(r !== null && typeof r === "object" && typeof r.success === "boolean", () => `${what}: no result but ${show(r)}`);
  if (!r.success) {
    assert(Array.isArray(r.error) && r.error.length > 0, () => `${what}: no error message: ${show(r)}`);
    for (const o of [{}, { colors: true, maxWidth: 40 }]) assert(core.formatMessage(r.error, o).trim() !== "", () => `${what}: empty error message`);
  }
  return r;
};

export default {
  id: "C11",
  title: "Every value parser is total, and format, normalize, validate agree with parse",
  statement: "For every built-in value parser and configuration, parse() returns a value or a printable error for any string, and never throws. A parsed value is a fixed point: formatting it gives text that parses to the same value, normalize() leaves it alone, validate() accepts it, and the parser behaves the same within option() and argument() as on its own. Combinators (firstOf, transform, keyValue) parse as their parts do.",
  quantifier: [["inputs"], "all strings for every value parser of the core"], why: "Defaults, environment and configuration values, prompts and help texts all go through format() and back; a value that does not read back is refused or changed silently, for rare inputs only.",
  files: ["packages/core/src/valueparser.ts"],
  mechanism: [["the value parsers", "packages/core/src/valueparser.ts"], ["fallback validation", "packages/core/src/primitives.ts"]],
  observe: ["parse(), format(), normalize(), validate() of a value parser", "result of parse() on a program with the value parser"],
  rule: "random configurations of 27 value parsers times strings from its grammar, mutations of these, and hostile strings (names of Object.prototype, control characters, non-ASCII digits). Non-trivial: the parser accepts the string, so that the round trip is exercised.",
  parts: [
    {
      name: "roundtrip",
      runs: { quick: 100000, thorough: 3000000 },
      arb: (fc) => vpCase(fc),
      check(c, ctx) {
        const vp = makeVp(c), s = c.input;
        // Node's URL.canParse() sometimes refuses Latin-1 text once optimised: not Optique's doing.
        if (c.kind === "url" && /[\u0080-\u00ff]/.test(s)) return ctx.trivial("Latin-1 URL");
        const what = `${c.kind}(${show(c.opts)}) on ${show(s)}`;
        const r = wellFormed(vp.parse(s), what);
        const again = vp.parse(s);
        assert(r.success === again.success && (!r.success || same(r.value, again.value)), () => `${what}: two different results`);
        ctx.label(`${c.kind}: ${r.success ? "accepted" : "refused"}`);
        if (c.kind === "firstOf") {
          const parts = KINDS.firstOf.firstOf(c.opts).map((p) => p.parse(s));
          const first = parts.find((x) => x.success);
          assert(r.success === (first !== undefined) && (!r.success || same(r.value, first.value)), () => `${what}: ${show(r)}, but the first part to accept gives ${show(first)}`);
        }
        const asOption = core.parse(core.object({ o: core.option("--o", vp) }), [`--o=${s}`]);
        const asArgument = core.parse(core.object({ a: core.argument(vp) }), ["--", s]);
        for (const [how, x] of [["option", asOption.success ? { ...asOption, value: asOption.value.o } : asOption], ["argument", asArgument.success ? { ...asArgument, value: asArgument.value.a } : asArgument]]) {
          assert(x.success === r.success && (!r.success || same(x.value, r.value)), () => `${what}: ${show(r)}, but as ${how}: ${show(x)}`);
        }
        if (!r.success) return ctx.trivial("refused");
        const v = r.value;
        if (vp.validate) {
          const x = wellFormed(vp.validate(v), `${what}: validate`);
          assert(x.success && same(x.value, v), () => `${what}: validate() of the parsed ${show(v)} gives ${show(x)}`);
        }
        if (vp.normalize) {
          const n = vp.normalize(v);
          assert(same(n, v), () => `${what}: normalize() turns the parsed ${show(v)} into ${show(n)}`);
        }
        const t = vp.format(v);
        assert(typeof t === "string", () => `${what}: format() gives ${show(t)}`);
        if (c.kind === "firstOf") return;   // another part may take the text first
        const back = vp.parse(t);
        assert(back.success && same(back.value, v), () => `${what}: ${show(v)} is formatted as ${show(t)}, which reads as ${show(back)}`);
        equal(vp.format(back.value), t, `${what}: formatted twice`);
      },
    },
    {
      name: "fallback",
      runs: { quick: 15000, thorough: 400000 },
      arb: (fc) => vpCase(fc),
      // A parsed value given as default (or default function) comes back as it is, and a second parse() of its text agrees.
      check(c, ctx) {
        const vp = makeVp(c);
        if (c.kind === "url" && /[\u0080-\u00ff]/.test(c.input)) return ctx.trivial("Latin-1 URL");
        const r = vp.parse(c.input);
        if (!r.success) return ctx.trivial("refused");
        const p = core.object({ a: core.withDefault(core.option("--o", vp), () => r.value), b: core.withDefault(core.argument(vp), r.value), c: core.multiple(core.option("--m", vp)) });
        const out = core.parse(p, []);
        assert(out.success, () => `${c.kind}(${show(c.opts)}): a default of ${show(r.value)} fails: ${core.formatMessage(out.error)}`);
        assert(same(out.value.a, r.value) && same(out.value.b, r.value), () => `${c.kind}(${show(c.opts)}): the default ${show(r.value)} becomes ${show(out.value)}`);
        if (c.kind === "firstOf") return;
        const t = vp.format(r.value);
        const m = core.parse(p, ["--m", t, `--m=${t}`]);
        assert(m.success && same(m.value.c, [r.value, r.value]), () => `${c.kind}(${show(c.opts)}): --m ${show(t)} gives ${show(m)}`);
      },
    },
    {
      name: "suggestions",
      runs: { quick: 20000, thorough: 500000 },
      arb: (fc) => fc.tuple(vpCase(fc), fc.nat(12)).map(([c, n]) => ({ ...c, input: c.input.slice(0, n) })),
      check(c, ctx) {
        const vp = makeVp(c);
        if (!vp.suggest) return ctx.trivial("no suggestions");
        const list = [...vp.suggest(c.input)];
        const texts = list.map((x) => x.text);
        if (!texts.length) ctx.trivial("none");
        const what = `${c.kind}(${show(c.opts)}) completing ${show(c.input)}`;
        assert(new Set(texts).size === texts.length, () => `${what}: duplicates in ${show(texts)}`);
        for (const x of list) {
          assert(x.kind === "literal" && typeof x.text === "string", () => `${what}: ${show(x)}`);
          const fold = (s) => s.toLowerCase();
          assert(fold(x.text).startsWith(fold(c.input)), () => `${what}: ${show(x.text)} does not begin with it`);
          const partial = c.kind === "url" || c.kind === "socketAddress" || c.kind === "keyValue" || c.kind === "portRange" || (c.kind === "firstOf" && c.opts.of.includes("kv"));
          if (!partial) assert(vp.parse(x.text).success, () => `${what}: suggests ${show(x.text)}, which it refuses`);
        }
        ctx.label(`${c.kind}: ${texts.length ? "some" : "none"}`);
        // Anything suggested for the empty prefix is suggested for each of its own prefixes.
        if (c.kind === "keyValue" || c.kind === "url") return;
        for (const x of vp.suggest("")) {
          const n = 1 + (c.input.length % x.text.length);
          const some = [...vp.suggest(x.text.slice(0, n))].map((y) => y.text);
          assert(some.includes(x.text), () => `${c.kind}(${show(c.opts)}): ${show(x.text)} is not suggested for ${show(x.text.slice(0, n))}`);
        }
      },
    },
  ],
};
