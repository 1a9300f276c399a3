import * as core from "@optique/core";
import { assert, equal, show } from "../lib/harness.mjs";

// A branch is a flat object over a small shared pool of names, so that branches
// overlap: { kind, name } fields with kind bool | flag | opt | multi | arg.
const POOL = ["--aa", "-b", "--cc", "-d", "--ee"];
const VALUES = ["v", "w.txt", "--aa", "x y", "7"];

function branchArb(fc, argOk = true) {
  const field = fc.record({
    t: fc.constantFrom("bool", "bool", "opt", "optopt", "flag", "optflag", "multi"),
    n: fc.constantFrom(...POOL),
  });
  return fc.record({
    fields: fc.uniqueArray(field, { minLength: 1, maxLength: 4, selector: (f) => f.n }),
    arg: argOk ? fc.constantFrom(null, null, null, "one", "opt", "many") : fc.constant(null),
  });
}
const lineArb = (fc) => fc.array(fc.oneof({ weight: 6, arbitrary: fc.constantFrom(...POOL) }, { weight: 3, arbitrary: fc.constantFrom(...VALUES) },
  { weight: 1, arbitrary: fc.constantFrom("--aa=1", "--cc=2", "-z", "--zz") }), { maxLength: 7 });

const str = (ctl) => {
  const s = core.string();
  if (!ctl?.async) return s;
  return { ...s, mode: "async", parse: (x) => Promise.resolve(s.parse(x)), suggest: undefined, validate: undefined };
};
function buildBranch(b, ctl, tag) {
  const o = {};
  b.fields.forEach((f, i) => {
    const v = str(ctl);
    o[`f${i}`] = f.t === "bool" ? core.option(f.n) : f.t === "flag" ? core.flag(f.n) : f.t === "optflag" ? core.optional(core.flag(f.n))
      : f.t === "opt" ? core.option(f.n, v) : f.t === "optopt" ? core.optional(core.option(f.n, v)) : core.multiple(core.option(f.n, v));
  });
  if (b.arg) {
    const a = core.argument(str(ctl));
    o.arg = b.arg === "one" ? a : b.arg === "opt" ? core.optional(a) : core.multiple(a);
  }
  if (tag !== undefined) o.tag = core.constant(tag);
  return core.object(o);
}

/** Tokens of `line` (from `from`) a fresh branch consumes greedily. */
function prefix(b, line) {
  const used = new Set();
  let i = 0, args = 0;
  while (i < line.length) {
    const t = line[i];
    const eq = t.startsWith("--") ? t.indexOf("=") : -1;
    const name = eq > 0 ? t.slice(0, eq) : t;
    const f = b.fields.find((f) => f.n === name);
    if (f) {
      const valued = ["opt", "optopt", "multi"].includes(f.t);
      if (valued ? (used.has(f) && f.t !== "multi") : (used.has(f) || eq > 0)) return { n: i, stuck: true, odd: eq > 0 && !!b.arg };
      if (valued && eq < 0) {
        if (i + 1 >= line.length) return { n: i, stuck: true };
        i += 2;
      } else i += 1;
      used.add(f);
      continue;
    }
    // A short option `-d` followed by more letters would bundle; the pool has none.
    if (b.arg && !/^--?[a-z0-9-]+$/i.test(t) && (b.arg === "many" || args === 0)) {
      if (eq > 0) return { n: i, stuck: true, odd: true }; // `--k=v` as a positional: a known finding elsewhere
      args++; i++;
      continue;
    }
    return { n: i, stuck: true, odd: false };
  }
  return { n: i, stuck: false };
}

const run = (p, line, ctl) => (ctl?.async ? core.parseAsync(p, line) : core.parseSync(p, line));
const text = (r) => core.formatMessage(r.error);

/** Puts the alternative somewhere in a bigger program. */
function place(alt, where, line) {
  switch (where) {
    case "bare": return { p: alt, line, get: (v) => v };
    case "group": return { p: core.group("G", alt), line, get: (v) => v };
    case "map": return { p: core.map(alt, (v) => [v]), line, get: (v) => v[0] };
    case "before": return { p: core.object({ top: core.option("--top", core.string()), alt }), line: ["--top", "1", ...line], get: (v) => v.alt };
    case "after": return { p: core.object({ top: core.option("--top"), alt }), line: [...line, "--top"], get: (v) => v.alt };
    case "command": return { p: core.command("go", alt), line: ["go", ...line], get: (v) => v };
    case "tuple": return { p: core.tuple([alt, core.option("--top")]), line, get: (v) => v[0] };
  }
}
const WHERE = ["bare", "bare", "group", "map", "before", "after", "command", "tuple"];

export default {
  id: "C07",
  title: "or(), longestMatch() and conditional() choose the branch the line says",
  statement: "longestMatch() yields exactly what the branch that matches the most tokens yields on its own (the first of several), and or() what the first branch that matches yields, wherever they are nested and whether synchronous or asynchronous; a token no branch can take after that is refused, not skipped. conditional() yields [value, branch] for the branch its discriminator names, parsed exactly as that branch alone would parse the rest of the line, [undefined, default] when the discriminator is absent and a default branch exists, and otherwise an error.",
  quantifier: [["programs", "inputs"], "all alternatives of flat branches over overlapping names, and all lines over those names"],
  why: "Which branch wins depends on every pair of overlapping branches and on the order of the tokens; tests fix a few pairs.",
  files: ["packages/core/src/constructs.ts"],
  mechanism: [["or()", "packages/core/src/constructs.ts"], ["longestMatch()", "packages/core/src/constructs.ts"], ["conditional()", "packages/core/src/constructs.ts"]],
  observe: ["result of parseSync()/parseAsync() of the alternative, compared with the branch alone"],
  rule: "2–4 branches with 1–4 options drawn from five shared names with different kinds (Boolean, required, optional, repeated) and an optional positional; lines of up to seven tokens over the same names. The branch each combinator must choose is computed by an independent greedy matcher; the oracle for the value is the chosen branch parsed alone. Lines on which the known findings (branch switches of longestMatch() and or(), `--k=v` positionals) can occur are skipped. Non-trivial: the chosen branch matches the whole line, or no branch can take the token at which it stops.",
  parts: [
    {
      name: "choice",
      runs: { quick: 30000, thorough: 800000 },
      async: true,
      arb: (fc) => fc.record({
        comb: fc.constantFrom("or", "lm"),
        branches: fc.array(branchArb(fc), { minLength: 2, maxLength: 4 }),
        line: lineArb(fc),
        extend: fc.nat(3),
        where: fc.constantFrom(...WHERE),
        async: fc.constantFrom(false, false, true),
      }),
      async check(c, ctx) {
        const { branches, comb } = c;
        let line = c.line;
        const pre0 = branches.map((b) => prefix(b, line));
        // Aim at consumable lines: cut at the longest prefix most of the time.
        const longest = Math.max(...pre0.map((p) => p.n));
        if (c.extend > 0) line = line.slice(0, longest);
        if (!line.length) return ctx.trivial("empty line");
        const pre = branches.map((b) => prefix(b, line));
        if (pre.some((p) => p.odd)) return ctx.trivial("--k=v positional");
        const ctl = { async: c.async };
        const pick = comb === "lm" ? pre.findIndex((p) => p.n === Math.max(...pre.map((q) => q.n))) : pre.findIndex((p) => p.n > 0);
        const best = pick < 0 ? 0 : pre[pick].n;
        const where = c.where === "after" && (best < line.length || branches.some((b) => b.arg || prefix(b, [...line, "--top"]).n !== prefix(b, line).n)) ? "bare" : c.where;
        const alt = (comb === "lm" ? core.longestMatch : core.or)(...branches.map((b, i) => buildBranch(b, ctl, i)));
        const placed = place(alt, where, line);
        if (pick < 0 || best === 0) {
          const r = await run(placed.p, placed.line, ctl);
          assert(!r.success, () => `no branch matches ${show(line)}, yet accepted as ${show(r.value)}\n  ${show(branches)}`);
          return ctx.label(`${comb}: nothing matches`);
        }
        if (best === line.length) {
          ctx.label(`${comb}: whole line${c.async ? " (async)" : ""}`);
          if (pre.filter((p) => p.n === best).length > 1) ctx.label("tie");
          const alone = await run(buildBranch(branches[pick], ctl, pick), line, ctl);
          const r = await run(placed.p, placed.line, ctl);
          if (alone.success) {
            assert(r.success, () => `rejected ${show(placed.line)} (${text(r)}), but branch ${pick} alone accepts\n  ${show(branches)} ${comb} ${where}`);
            equal(placed.get(r.value), alone.value, `wrong branch or value for ${show(placed.line)} of ${comb} ${where} ${show(branches)}`);
          } else {
            assert(!r.success, () => `accepted ${show(placed.line)} as ${show(r.value)}, but the chosen branch ${pick} refuses it: ${text(alone)}\n  ${comb} ${where} ${show(branches)}`);
            if (where === "bare") equal(text(r), text(alone), `error for ${show(line)} is not that of the chosen branch ${pick} (${comb}) ${show(branches)}`);
          }
          return;
        }
        const rest = line.slice(best);
        if (branches.some((b, i) => i !== pick && prefix(b, rest).n > 0 || prefix(b, rest).odd)) return ctx.trivial("another branch may take over");
        ctx.label(`${comb}: nobody takes ${"the rest"}`);
        const r = await run(placed.p, placed.line, ctl);
        assert(!r.success, () => `accepted ${show(placed.line)} as ${show(r.value)}, though no branch takes ${show(rest[0])}\n  ${comb} ${where} ${show(branches)}`);
      },
    },
    {
      name: "conditional",
      runs: { quick: 30000, thorough: 800000 },
      async: true,
      arb: (fc) => fc.record({
        branches: fc.array(branchArb(fc), { minLength: 1, maxLength: 3 }),
        def: fc.option(branchArb(fc), { nil: null }),
        key: fc.nat(4),
        form: fc.constantFrom("two", "join", "short"),
        disc: fc.constantFrom("plain", "default", "optionalDefault"),
        line: lineArb(fc),
        extend: fc.nat(3),
        where: fc.constantFrom(...WHERE),
        async: fc.constantFrom(false, false, true),
      }),
      async check(c, ctx) {
        const KEYS = ["json", "xml", "x-y"].slice(0, c.branches.length);
        const ctl = { async: c.async };
        const key = c.key < KEYS.length ? KEYS[c.key] : null;
        const target = key != null ? c.branches[c.key] : c.def;
        let line = c.line;
        if (target && c.extend > 0) line = line.slice(0, prefix(target, line).n);
        const all = [...c.branches, ...(c.def ? [c.def] : [])];
        if (all.some((b) => prefix(b, line).odd)) return ctx.trivial("--k=v positional");
        let disc = core.option("-k", "--kind", core.choice(KEYS));
        const withDef = c.disc === "default";
        if (withDef) disc = core.withDefault(disc, KEYS[KEYS.length - 1]);
        const br = Object.fromEntries(KEYS.map((k, i) => [k, buildBranch(c.branches[i], ctl, k)]));
        const cond = c.def && !withDef ? core.conditional(disc, br, buildBranch(c.def, ctl, "default")) : core.conditional(disc, br);
        const head = key == null ? [] : c.form === "join" ? [`--kind=${key}`] : [c.form === "two" ? "--kind" : "-k", key];
        const where = c.where === "after" && (all.some((b) => b.arg || prefix(b, [...line, "--top"]).n !== prefix(b, line).n) || (target && prefix(target, line).n < line.length)) ? "bare" : c.where;
        const placed = place(cond, where, [...head, ...line]);
        const r = await run(placed.p, placed.line, ctl);
        const info = () => `${show(placed.line)} of conditional ${where} disc=${c.disc} def=${show(c.def)} ${show(c.branches)}`;
        if (key == null && withDef) {
          // The default value of the discriminator names the last branch.
          const k = KEYS[KEYS.length - 1];
          const alone = await run(buildBranch(c.branches[KEYS.length - 1], ctl, k), line, ctl);
          ctx.label("discriminator by default");
          if (alone.success && line.length === 0) {
            assert(r.success, () => `rejected ${info()}: ${text(r)}`);
            equal(placed.get(r.value), [k, alone.value], `wrong value for ${info()}`);
          } else if (!alone.success) assert(!r.success, () => `accepted ${info()} as ${show(r.value)} though the default's branch refuses`);
          return;
        }
        if (key == null && !(c.def && !withDef)) {
          ctx.label("discriminator missing");
          assert(!r.success, () => `accepted ${info()} as ${show(r.value)} without its discriminator`);
          return;
        }
        const alone = await run(buildBranch(key != null ? target : c.def, ctl, key ?? "default"), line, ctl);
        ctx.label(`${key != null ? "named" : "default"}: ${alone.success ? "accepts" : "refuses"}${c.async ? " (async)" : ""}`);
        if (!line.length) ctx.label("no branch tokens");
        if (alone.success) {
          assert(r.success, () => `rejected ${info()}: ${text(r)}, but the branch alone accepts`);
          equal(placed.get(r.value), [key ?? undefined, alone.value], `wrong value for ${info()}`);
        } else {
          assert(!r.success, () => `accepted ${info()} as ${show(r.value)}, but the branch alone refuses: ${text(alone)}`);
        }
      },
    },
  ],
};
