import * as core from "@optique/core";
import { assert, equal, show } from "../lib/harness.mjs";

// Siblings of the passThrough(): --debug (Boolean), -d, --name VALUE, -n VALUE.
const UNKNOWN = ["--foo", "--foo=bar", "--baz=q ux", "--no-debug", "--debugger", "--debug-x=1", "--nam", "--names", "--namex=1", "--nam=2",
  "-x", "-X", "-xyz", "-1", "--a=b=c", "--9=", "--e=", "--FOO=1", "--foo-bar=/x:y"];
const PLAIN = ["v", "-", "-",  "file.txt", "a b", "日本", "=", "k=v", "/x", "0", "+p", ""];
const VALUES = ["v", "w w", "-x", "--foo", "--foo=bar", "--", "", "="];

const item = (fc) => fc.oneof(
  { weight: 6, arbitrary: fc.record({ k: fc.constant("raw"), t: fc.constantFrom(...UNKNOWN) }) },
  { weight: 3, arbitrary: fc.record({ k: fc.constant("raw"), t: fc.constantFrom(...PLAIN) }) },
  { weight: 1, arbitrary: fc.constant({ k: "raw", t: "--" }) },
  { weight: 2, arbitrary: fc.constantFrom({ k: "raw", t: "--debug" }, { k: "raw", t: "-d" }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("name"), form: fc.nat(2), v: fc.constantFrom(...VALUES) }) },
);

function model(tokens, format, hasArgs) {
  const out = { debug: false, name: undefined, extra: [], files: [] };
  let i = 0, term = false, dup = false;
  const bad = (why) => ({ reject: why });
  while (i < tokens.length) {
    const t = tokens[i];
    if (!term) {
      if (t === "--") { term = true; i++; continue; }
      if (t === "--debug" || t === "-d") { if (out.debug) return { skip: "duplicate" }; out.debug = true; i++; continue; }
      if (t === "--name" || t === "-n") {
        if (out.name !== undefined) return { skip: "duplicate" };
        if (i + 1 >= tokens.length) return { skip: "missing value" };
        out.name = tokens[i + 1]; i += 2; continue;
      }
      if (t.startsWith("--name=")) { if (out.name !== undefined) return { skip: "duplicate" }; out.name = t.slice(7); i++; continue; }
      if (/^-[dn]./.test(t)) return { skip: "bundle" };
    }
    if (hasArgs && (term || !/^--?[a-z0-9-]+$/i.test(t))) {
      if (!term && /^--[a-z0-9-]+=/i.test(t)) return { skip: "known finding: a positional takes --k=v" };
      out.files.push(t); i++; continue;
    }
    if (format === "greedy") { out.extra.push(...tokens.slice(i)); i = tokens.length; continue; }
    if (term) return bad("token after --");
    if (format === "equalsOnly") {
      if (!/^--[a-z0-9-]+=/i.test(t)) return bad(`${t} is not of the --opt=value form`);
      out.extra.push(t); i++; continue;
    }
    if (!t.startsWith("-") || t === "-") return bad(`${t} is no option`);
    out.extra.push(t); i++;
    if (!t.includes("=") && i < tokens.length && !(/^-./.test(tokens[i]))) { out.extra.push(tokens[i]); i++; }
  }
  return { value: out };
}

export default {
  id: "C09",
  title: "passThrough() collects exactly the unknown options of its format, in order",
  statement: "Next to ordinary options and positionals, passThrough() collects the tokens none of them recognises, verbatim and in the order given: `--opt=value` tokens only (\"equalsOnly\"), option tokens with a following token that is no option (\"nextToken\"), or everything from the first unrecognised token on (\"greedy\"). Recognised options are never captured, and except in greedy mode nothing after `--` is; a token that fits neither is refused.",
  quantifier: [["inputs"], "all lines over a vocabulary of known, similar and unknown option spellings, values, plain tokens and `--`"],
  why: "Whether a token is captured depends on everything around it, on prefixes of known names and on the position of `--`; the tests try a few lines per format.",
  files: ["packages/core/src/primitives.ts", "packages/core/src/constructs.ts"],
  mechanism: [["passThrough() formats", "packages/core/src/primitives.ts"], ["priority order of object() fields", "packages/core/src/constructs.ts"]],
  observe: ["result of parse()"],
  rule: "lines of up to eight items against an independent interpreter of the documented rules, with the parser nested in a command, a group, a merge or bare. Skipped: repeated or valueless known options, bundles, and `--k=v` next to positionals (known finding). Non-trivial: at least one token reaches passThrough() or is refused.",
  parts: [
    {
      name: "capture",
      runs: { quick: 24000, thorough: 600000 },
      arb: (fc) => fc.record({
        format: fc.constantFrom("equalsOnly", "nextToken", "greedy", undefined),
        args: fc.boolean(), where: fc.constantFrom("bare", "command", "group", "merge", "mergeRev", "tuple"),
        items: fc.array(item(fc), { maxLength: 8 }),
      }),
      check(c, ctx) {
        if (c.tokens) {
          const p = core.object({ debug: core.option("--debug"), extra: core.passThrough(), files: core.multiple(core.argument(core.string())) });
          const r = core.parse(p, c.tokens);
          assert(r.success, () => core.formatMessage(r.error));
          return equal(r.value, c.expect, "value");
        }
        const tokens = c.items.flatMap((x) => (x.k === "raw" ? [x.t] : x.form === 0 ? ["--name", x.v] : x.form === 1 ? [`--name=${x.v}`] : ["-n", x.v]));
        const m = model(tokens, c.format ?? "equalsOnly", c.args);
        if (m.skip) return ctx.trivial(m.skip);
        const fields = {
          extra: core.passThrough(c.format === undefined ? {} : { format: c.format }),
          debug: core.option("--debug", "-d"),
        };
        const more = { name: core.optional(core.option("-n", "--name", core.string())), ...(c.args ? { files: core.multiple(core.argument(core.string())) } : {}) };
        let p, line = tokens, get = (v) => v;
        if (c.where === "merge") p = core.merge(core.object(fields), core.object(more));
        else if (c.where === "mergeRev") p = core.merge(core.object(more), core.object(fields));
        else p = core.object({ ...fields, ...more });
        if (c.where === "command") { p = core.command("exec", p); line = ["exec", ...tokens]; }
        if (c.where === "group") p = core.group("G", p);
        if (c.where === "tuple") { p = core.tuple([p]); get = (v) => v[0]; }
        if ((c.where === "merge" || c.where === "mergeRev")) {
          // Sub-objects of a merge run one after the other: only lines the passThrough() cannot steal from.
          if ((c.format === "greedy" || c.format === "nextToken" || c.args)) return ctx.trivial("merge with an eager format");
          if (tokens.includes("--")) return ctx.trivial("merge and --");
          if (tokens.some((t) => t.startsWith("--name="))) return ctx.trivial("merge and --name=");
        }
        if (m.reject === undefined && !m.value.extra.length) ctx.trivial("nothing captured");
        ctx.label(`${c.format ?? "default"}: ${m.reject !== undefined ? "refused" : "captured"}`);
        const r = core.parse(p, line);
        if (m.reject !== undefined) {
          assert(!r.success, () => `accepted ${show(line)} as ${show(r.value)}; expected a refusal: ${m.reject} (${c.format}, args ${c.args}, ${c.where})`);
        } else {
          assert(r.success, () => `refused ${show(line)} (${c.format}, args ${c.args}, ${c.where}): ${core.formatMessage(r.error)}`);
          const want = { ...m.value };
          if (!c.args) delete want.files;
          equal({ ...get(r.value) }, want, `wrong capture of ${show(line)} (${c.format}, args ${c.args}, ${c.where})`);
        }
      },
    },
  ],
};
