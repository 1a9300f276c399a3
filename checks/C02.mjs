import * as core from "@optique/core";
import { assert, equal, show } from "../lib/harness.mjs";
import { isNamed } from "../lib/named.mjs";
import { Tape, assignNames, build, caseArb, commandNames, editTokens, editsArb, has, kids, nodeArbs, nodes, optionNamesOf, plan, planCase, tapeArb, vpInvalid } from "../lib/grammar.mjs";
import { refFlat } from "../lib/refparse.mjs";

function underAny(root, target, kinds) {
  const walk = (n, under) => {
    if (n === target) return under;
    for (const c of kids(n)) {
      const r = walk(c, under || kinds.includes(n.k));
      if (r != null) return r;
    }
    return null;
  };
  return walk(root, false) ?? false;
}
const variableArgs = (spec) => {
  for (const n of nodes(spec)) if (["optional", "withDefault", "multiple"].includes(n.k) && has(n, "arg")) return true;
  return false;
};

/** Returns { tokens, why } of a line that must be refused, or null. */
function mutate(p, kind, tape) {
  const { spec, tokens, bounds, termAt } = p;
  const head = termAt < 0 ? tokens.length : tokens.indexOf("--", bounds[bounds.length - 1]);
  const at = (ts, i, ...x) => [...ts.slice(0, i), ...x, ...ts.slice(i)];
  const bound = () => tape.one(bounds);
  const loose = p.groups.filter((g) => !g.block);
  const all = optionNamesOf(spec);
  switch (kind) {
    case "unknown": {
      const forms = ["--zzz-unknown", "--zzz", "-Z9z"];
      if (!has(spec, "arg")) forms.push("--zzz=1");
      const t = tape.one(forms);
      if (all.some((n) => t.startsWith(n))) return null;
      return { tokens: at(tokens, bound(), t), why: `unknown option ${t}`, mention: t };
    }
    case "duplicate": {
      const gs = loose.filter((g) => g.leaf && ["opt", "bool", "flag", "neg"].includes(g.leaf.k) && !underAny(spec, g.leaf, ["multiple"]));
      if (!gs.length) return null;
      const g = tape.one(gs);
      if (g.toks[0].startsWith("/") || g.toks[0].startsWith("+") || g.toks[0].includes("=")) {
        if (has(spec, "arg")) return null;
      }
      if (bounds[bounds.length - 1] > head) return null;
      return { tokens: at(tokens, bounds[bounds.length - 1], ...g.toks), why: `duplicate ${g.toks[0]}` };
    }
    case "drop": {
      const gs = loose.filter((g) => g.leaf && ["opt", "flag", "neg", "cmds"].includes(g.leaf.k) &&
        !underAny(spec, g.leaf, ["multiple", "optional", "withDefault", "or", "lm"]));
      if (!gs.length || termAt >= 0) return null;
      const g = tape.one(gs);
      if (g.leaf.k === "cmds" && has(spec, "arg")) return null;
      const i = p.groups.indexOf(g);
      const rest = p.groups.filter((_, j) => j !== i);
      return { tokens: rest.flatMap((h) => h.toks), why: `missing ${g.toks[0]}` };
    }
    case "dropArg": {
      if (variableArgs(spec)) return null;
      const gs = loose.filter((g) => g.leaf?.k === "arg");
      if (!gs.length || termAt >= 0) return null;
      const g = tape.one(gs);
      if (underAny(spec, g.leaf, ["or", "lm"])) return null;
      return { tokens: p.groups.filter((h) => h !== g).flatMap((h) => h.toks), why: "missing argument" };
    }
    case "badValue": {
      if (termAt >= 0) return null;
      const gs = loose.filter((g) => g.leaf && ["opt", "arg"].includes(g.leaf.k) && vpInvalid(g.leaf.vp, new Tape([])) != null);
      if (!gs.length) return null;
      const g = tape.one(gs);
      const bad = vpInvalid(g.leaf.vp, tape);
      const name = g.toks[0];
      const toks = g.leaf.k === "arg" ? [bad]
        : g.toks.length === 2 ? [name, bad]
        : [name.slice(0, name.search(name.startsWith("/") ? /:/ : /=/) + 1) + bad];
      return { tokens: p.groups.flatMap((h) => (h === g ? toks : h.toks)), why: `invalid value ${show(bad)} for ${name}` };
    }
    case "surplus": {
      if (variableArgs(spec)) return null;
      const t = tape.one(["surplus", "s.txt", "日本", "a b"]);
      if (commandNames(spec).has(t)) return null;
      return { tokens: [...tokens, t], why: `surplus positional ${t}` };
    }
    case "surplusAfterTerminator": {
      if (variableArgs(spec) || termAt >= 0 || has(spec, "cond", "seq", "or", "lm")) return null;
      const t = tape.one(["surplus", "--help", "--", ...all.slice(0, 1)]);
      return { tokens: [...tokens, "--", t], why: `surplus ${t} after --` };
    }
    case "noValue": {
      const gs = loose.filter((g) => g.leaf?.k === "opt" && !underAny(spec, g.leaf, ["multiple"]));
      if (!gs.length || termAt >= 0) return null;
      const g = tape.one(gs);
      const name = tape.one(g.leaf.names);
      if (/^[/+]/.test(name) && has(spec, "arg")) return null;
      return { tokens: [...p.groups.filter((h) => h !== g).flatMap((h) => h.toks), name], why: `no value for ${name}` };
    }
    case "boolValue": {
      if (has(spec, "arg") || termAt >= 0) return null;
      const gs = loose.filter((g) => g.leaf && ["bool", "flag", "neg"].includes(g.leaf.k));
      if (!gs.length) return null;
      const g = tape.one(gs);
      const n = g.toks[0];
      const t = n.startsWith("/") ? `${n}:${tape.one(["x", "", "true"])}` : `${n}=${tape.one(["x", "", "true"])}`;
      return { tokens: p.groups.flatMap((h) => (h === g ? [t] : h.toks)), why: `value given to ${n}` };
    }
    case "bothBranches": {
      const ns = [...nodes(spec)].filter((n) => n.k === "or"); // longestMatch(): see the known finding
      if (ns.length !== 1 || termAt >= 0 || underAny(spec, ns[0], ["multiple"])) return null;
      const n = ns[0];
      // Which branch did the line use?  None when the node was optional and absent.
      const used = n.list.findIndex((b) => [...nodes(b)].some((m) => p.groups.some((g) => g.leaf === m)));
      if (used < 0) return null;
      const others = n.list.filter((_, i) => i !== used);
      const other = tape.one(others);
      const q = plan(other, { tape, wildOk: false, noJoin: true });
      if (!q || !q.groups.length) return null;
      return { tokens: [...tokens, ...q.groups.flatMap((g) => g.toks)], why: "two alternatives at once" };
    }
    case "otherBranch": {
      const ns = [...nodes(spec)].filter((n) => n.k === "cond");
      if (ns.length !== 1 || ns[0].branches.length < 2 || termAt >= 0) return null;
      const n = ns[0];
      const bodies = [...n.branches.map(([, b]) => b), ...(n.def ? [n.def] : [])];
      const usedDisc = p.groups.find((g) => g.leaf === n);
      if (!usedDisc) return null;
      const key = p.groups && usedDisc.toks[usedDisc.toks.length - 1].replace(/^.*[=:]/, "");
      const other = tape.one(n.branches.filter(([k]) => k !== key).map(([, b]) => b));
      const q = plan(other, { tape, wildOk: false, noJoin: true });
      if (!q || !q.groups.length) return null;
      return { tokens: [...tokens, ...q.groups.flatMap((g) => g.toks)], why: "an option of another branch" };
    }
  }
  return null;
}
const KINDS = ["unknown", "duplicate", "drop", "dropArg", "badValue", "surplus", "surplusAfterTerminator", "noValue", "boolValue", "bothBranches", "otherBranch"];

export default {
  id: "C02",
  title: "A command line the parser does not describe is refused, never half-read",
  statement: "A command line with an unknown option, a repeated single-use option, a missing required option, argument or command, an invalid value, a surplus positional (also after `--`), an option without its value, a value given to a Boolean option or options of two exclusive alternatives is refused with a non-empty error message, and never accepted by ignoring or losing a token. For a flat object or tuple of options and arguments, acceptance, refusal and the resulting value agree with the documented token-by-token rules on arbitrary command lines.",
  quantifier: [["programs", "inputs"], "all compositions of the combinators, and all command lines obtained by a violating edit of an accepted one"],
  why: "Rejections are tested for one parser and one line at a time; that no token is ever silently dropped is a statement about every composition and every position of the offending token.",
  files: ["packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/modifiers.ts", "packages/core/src/parser.ts"],
  mechanism: [["parse loop until the buffer is empty, then complete()", "packages/core/src/parser.ts"], ["duplicate and value checks of option()/flag()", "packages/core/src/primitives.ts"], ["exclusive branch tracking of or()/conditional()", "packages/core/src/constructs.ts"]],
  observe: ["the result of parse()/parseSync()"],
  rule: "part reject: a planned accepted line of a random grammar gets one violating edit of 11 kinds and must be refused. Part reference: a random edit script over the grammar's own vocabulary is applied to a line of a flat grammar and parse() must agree with the independent token-by-token interpreter lib/refparse.mjs. Non-trivial: an edit applied, resp. the line is in the interpreter's domain. The command lines of the known findings of C02 are not generated.",
  parts: [
    {
      name: "reject",
      runs: { quick: 20000, thorough: 500000 },
      arb: (fc) => fc.record({ c: caseArb(fc), kind: fc.nat(KINDS.length - 1), tape: tapeArb(fc, 12) }),
      check(k0, ctx) {
        if (isNamed(k0)) {
          const r = core.parse(build(k0.spec), k0.tokens);
          return assert(!r.success, () => `accepted ${show(k0.tokens)} as ${show(r.value)}`);
        }
        const { c, kind, tape } = k0;
        const p = planCase(c, { bundle: false });
        if (!p) return ctx.trivial("no plan");
        let m = null, k;
        for (let i = 0; i < KINDS.length && !m; i++) {
          k = kind === 0 ? KINDS[0] : KINDS[1 + (kind - 1 + i) % (KINDS.length - 1)];
          m = mutate(p, k, new Tape(tape));
        }
        if (!m) return ctx.trivial("no mutation applies");
        ctx.label(k);
        const parser = build(p.spec);
        const r = core.parse(parser, m.tokens);
        assert(!r.success, () => `accepted a line with ${m.why}: ${show(m.tokens)}\n  value ${show(r.value)}\n  spec ${show(p.spec)}`);
        const text = core.formatMessage(r.error);
        assert(typeof text === "string" && text.trim() !== "", () => `empty error for ${show(m.tokens)}`);
      },
    },
    {
      name: "reference",
      runs: { quick: 20000, thorough: 600000 },
      arb: (fc) => {
        const g = nodeArbs(fc);
        return fc.record({ c: caseArb(fc, fc.oneof({ weight: 5, arbitrary: g.flatObj }, { weight: 1, arbitrary: g.tup })), edits: editsArb(fc) });
      },
      check(k0, ctx) {
        if (isNamed(k0)) {
          const r = core.parse(build(k0.spec), k0.tokens);
          assert(r.success, () => `rejected ${show(k0.tokens)}: ${core.formatMessage(r.error)}`);
          return equal(r.value, k0.expect, `wrong value for ${show(k0.tokens)}`);
        }
        const { c, edits } = k0;
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const tokens = editTokens(p, edits);
        const ref = refFlat(p.spec, tokens);
        if (ref === null) return ctx.trivial("outside the reference's domain");
        ctx.label(ref.ok ? "accept" : `reject: ${ref.why}`);
        const r = core.parse(build(p.spec), tokens);
        assert(r.success === ref.ok, () => `${r.success ? `accepted as ${show(r.value)}` : `rejected: ${core.formatMessage(r.error)}`}, but the reference says ${show(ref)}\n  tokens ${show(tokens)}\n  spec ${show(p.spec)}`);
        if (ref.ok) equal(r.value, ref.value, `wrong value for ${show(tokens)} spec ${show(p.spec)}`);
      },
    },
  ],
};
