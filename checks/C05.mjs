import * as core from "@optique/core";
import { DuplicateOptionError } from "@optique/core/constructs";
import { assert, equal, show } from "../lib/harness.mjs";

const NAMES = ["-a", "-b", "--aa", "--bb", "--cc", "/D", "+e", "--aa-b"];
const CMDS = ["add", "rm", "ls", "a", "--x"];

const nameList = (fc) => fc.uniqueArray(fc.nat(NAMES.length - 1), { minLength: 1, maxLength: 2 }).map((l) => l.map((i) => NAMES[i]));

function treeArb(fc) {
  const hidden = fc.constantFrom(undefined, undefined, true, "usage", "doc", "help");
  const leaf = fc.oneof(
    fc.record({ k: fc.constantFrom("opt", "bool", "flag"), names: nameList(fc), hidden }),
    fc.record({ k: fc.constant("neg"), names: fc.uniqueArray(fc.nat(NAMES.length - 1), { minLength: 2, maxLength: 3 }).map((l) => l.map((i) => NAMES[i])), hidden }),
    fc.record({ k: fc.constant("arg") }),
  );
  const cmdNames = fc.record({ name: fc.constantFrom(...CMDS), alias: fc.option(fc.constantFrom(...CMDS), { nil: undefined }), hidden });
  const { node } = fc.letrec((tie) => ({
    node: fc.oneof({ maxDepth: 4, depthSize: "medium" },
      { weight: 6, arbitrary: leaf },
      { weight: 2, arbitrary: fc.record({ k: fc.constantFrom("optional", "withDefault", "multiple", "map", "group", "nonEmpty"), p: tie("node") }) },
      { weight: 4, arbitrary: fc.record({ k: fc.constantFrom("obj", "tup", "merge", "or", "lm"), list: fc.array(tie("node"), { minLength: 1, maxLength: 3 }), allow: fc.constantFrom(false, false, false, true) }) },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("seq"), list: fc.array(leaf.chain((l) => fc.constantFrom(l, { k: "optional", p: l }, { k: "multiple", p: l }, { k: "map", p: l })), { minLength: 1, maxLength: 4 }), allow: fc.constantFrom(false, false, true) }) },
      { weight: 1, arbitrary: fc.record({ k: fc.constant("cond"), list: fc.array(tie("node"), { minLength: 1, maxLength: 3 }) }) },
      { weight: 2, arbitrary: fc.record({ k: fc.constant("cmd"), cmd: cmdNames, p: tie("node") }) },
    ),
  }));
  return fc.record({ k: fc.constantFrom("obj", "tup", "merge", "or"), list: fc.array(node, { minLength: 1, maxLength: 4 }), allow: fc.constantFrom(false, false, false, true) });
}

function build(n) {
  const h = n.hidden !== undefined ? { hidden: n.hidden } : {};
  const obj = (list, opts) => {
    const o = {};
    list.forEach((c, i) => { o[`f${i}`] = build(c); });
    return core.object(o, opts);
  };
  switch (n.k) {
    case "opt": return core.option(...n.names, core.string(), h);
    case "bool": return core.option(...n.names, h);
    case "flag": return core.flag(...n.names, h);
    case "neg": return core.negatableFlag({ positive: n.names.slice(0, -1), negative: n.names.slice(-1) }, h);
    case "arg": return core.argument(core.string());
    case "optional": return core.optional(build(n.p));
    case "withDefault": return core.withDefault(build(n.p), 0);
    case "multiple": return core.multiple(build(n.p));
    case "nonEmpty": return core.nonEmpty(build(n.p));
    case "map": return core.map(build(n.p), (x) => x);
    case "group": return core.group("G", build(n.p));
    case "obj": return n.allow ? obj(n.list, { allowDuplicates: true }) : obj(n.list);
    case "tup": return n.allow ? core.tuple(n.list.map(build), { allowDuplicates: true }) : core.tuple(n.list.map(build));
    case "seq": return n.allow ? core.seq(...n.list.map(build), { allowDuplicates: true }) : core.seq(...n.list.map(build));
    case "merge": {
      const ps = n.list.map((c) => core.object({ [`f${counter++}`]: build(c) }));
      return n.allow ? core.merge(...ps, { allowDuplicates: true }) : core.merge(...ps);
    }
    case "or": return core.or(...n.list.map(build));
    case "lm": return core.longestMatch(...n.list.map(build));
    case "cond": {
      const br = {};
      n.list.forEach((c, i) => { br[`k${i}`] = build(c); });
      return core.conditional(core.option(`--disc${counter++}`, core.choice(Object.keys(br))), br);
    }
    case "cmd": {
      const a = n.cmd.alias !== undefined ? { aliases: [n.cmd.alias] } : {};
      return core.command(n.cmd.name, build(n.p), { ...a, ...h, ...(n.cmd.hidden !== undefined ? { hidden: n.cmd.hidden } : {}) });
    }
  }
  throw new Error(n.k);
}
let counter = 0;

class Dup extends Error { constructor(names) { super("dup"); this.names = names; } }
class Cmd extends Error {}
const required = (n) => {
  switch (n.k) {
    case "bool": case "optional": case "multiple": case "withDefault": return false;
    case "map": return required(n.p);
    default: return true;
  }
};
/** All option names of a node; throws the first kind of conflict construction must report. */
function names(n) {
  switch (n.k) {
    case "opt": case "bool": case "flag": case "neg": return new Set(n.names);
    case "arg": return new Set();
    case "cmd": {
      const s = names(n.p);
      if (n.cmd.alias === n.cmd.name) throw new Cmd();
      return s;
    }
  }
  if (n.p) return names(n.p);
  const lists = n.list.map(names);
  if ((n.k === "obj" || n.k === "tup" || n.k === "merge") && !n.allow) {
    const seen = new Set(), dup = new Set();
    for (const l of lists) for (const x of l) (seen.has(x) ? dup : seen).add(x);
    if (dup.size) throw new Dup(dup);
  }
  if (n.k === "seq" && !n.allow) {
    let active = new Set();
    n.list.forEach((c, i) => {
      const dup = [...lists[i]].filter((x) => active.has(x));
      if (dup.length) throw new Dup(new Set(dup));
      for (const x of lists[i]) active.add(x);
      if (required(c)) active = new Set();
    });
  }
  return new Set(lists.flatMap((l) => [...l]));
}
/** Command words of direct siblings in a choice. */
const directCmds = (n) => n.k === "cmd" ? [n.cmd.name, ...(n.cmd.alias !== undefined ? [n.cmd.alias] : [])] : null;
const hasKind = (n, ...ks) => ks.includes(n.k) || (n.p && hasKind(n.p, ...ks)) || (n.list ?? []).some((c) => hasKind(c, ...ks));

const attempt = (f) => { try { return { v: f() }; } catch (e) { return { e }; } };

// Names as an independent reading of the documentation.
const CTRL = /[\u0000-\u001f\u007f-\u009f\u2028\u2029]/;
const goodOption = (s) => s !== "" && !CTRL.test(s) && !/\s/.test(s) && /^[-/+]/.test(s) && s !== "--";
const goodCommand = (s) => s !== "" && !CTRL.test(s) && !/\s/.test(s);

export default {
  id: "C05",
  title: "Ambiguous or malformed names are refused when a parser is built",
  statement: "Building an object, tuple or merge throws a DuplicateOptionError naming the offending option exactly when two of its parts share an option name (whatever modifiers, alternatives, commands or hidden settings they sit under) and duplicates are not allowed explicitly; a sequence does so when both are active at the same position, and alternatives of or(), longestMatch() and conditional() may share names. Sibling commands of an alternative that share a name or alias, and option or command names that are empty, contain whitespace or control characters or (options) lack a prefix, are refused with a TypeError.",
  quantifier: [["programs", "inputs"], "all compositions of parsers over a small pool of names, and all strings as names"],
  why: "The tests list a handful of colliding parsers; that no composition hides a collision (or reports one that is not there) is a statement over all trees of combinators.",
  files: ["packages/core/src/constructs.ts", "packages/core/src/usage.ts", "packages/core/src/validate.ts", "packages/core/src/primitives.ts"],
  mechanism: [["checkDuplicateOptionNames() and friends", "packages/core/src/constructs.ts"], ["validateOptionNames()/validateCommandNames()", "packages/core/src/validate.ts"]],
  observe: ["exceptions of the constructors"],
  rule: "part tree: random compositions over eight option names, built with the real combinators and judged by an independent set computation. Part commands: alternatives of commands with names and aliases from a small pool, nested and wrapped. Part names: arbitrary strings as names. Non-trivial: two leaves or more, respectively two commands or more, respectively any string.",
  parts: [
    {
      name: "tree",
      runs: { quick: 24000, thorough: 600000 },
      arb: treeArb,
      check(spec, ctx) {
        counter = 0;
        // Command collisions are the business of the next part.
        const cmds = [];
        (function walk(n) { if (n.k === "cmd") cmds.push(...directCmds(n)); if (n.p) walk(n.p); (n.list ?? []).forEach(walk); })(spec);
        if (new Set(cmds).size !== cmds.length) return ctx.trivial("commands share a name");
        const want = attempt(() => names(spec));
        const got = attempt(() => build(spec));
        if (!want.e) {
          ctx.label("no conflict");
          assert(!got.e, () => `construction threw ${got.e} for ${show(spec)}`);
        } else {
          ctx.label("conflict");
          assert(got.e instanceof DuplicateOptionError, () => `expected a DuplicateOptionError for one of ${show([...want.e.names])}, got ${got.e ?? "no error"}\n  spec ${show(spec)}`);
          assert(NAMES.includes(got.e.optionName) && got.e.message.includes(got.e.optionName), () => `error names ${got.e.optionName}`);
        }
        if (spec.list.length < 2 && !hasKind(spec.list[0], "obj", "tup", "merge", "seq")) ctx.trivial("one leaf");
      },
    },
    {
      name: "commands",
      runs: { quick: 8000, thorough: 200000 },
      arb: (fc) => {
        const cmd = fc.record({ name: fc.constantFrom(...CMDS), aliases: fc.uniqueArray(fc.constantFrom(...CMDS), { maxLength: 2 }), hidden: fc.constantFrom(undefined, true, "usage", "doc", "help"), inner: fc.boolean() });
        return fc.record({ groups: fc.array(fc.array(cmd, { minLength: 1, maxLength: 2 }), { minLength: 1, maxLength: 3 }), how: fc.nat(3), wrap: fc.array(fc.nat(3), { maxLength: 3 }) });
      },
      check({ groups, how, wrap }, ctx) {
        const mk = (c) => core.command(c.name, c.inner ? core.object({ x: core.option("--x", core.string()) }) : core.object({}), {
          ...(c.aliases.length ? { aliases: c.aliases } : {}),
          ...(c.hidden !== undefined ? { hidden: c.hidden } : {}),
        });
        const words = (c) => [c.name, ...c.aliases];
        const all = groups.flat().flatMap(words);
        const clash = new Set(all).size !== all.length;
        const wrapped = (p, i) => [(x) => x, (x) => core.map(x, (v) => v), (x) => core.group("G", x), (x) => core.optional(x)][wrap[i] ?? 0](p);
        const got = attempt(() => {
          const parts = groups.map((g, i) => wrapped(g.length === 1 ? mk(g[0]) : core.or(...g.map(mk)), i));
          if (how === 0) return core.or(...parts);
          if (how === 1) return core.or(...parts.toReversed());
          if (how === 2) return core.object(Object.fromEntries(parts.map((p, i) => [`c${i}`, core.optional(p)])), { allowDuplicates: true });
          return core.merge(...parts.map((p, i) => core.object({ [`c${i}`]: p })), { allowDuplicates: true });
        });
        ctx.label(clash ? "clash" : "distinct");
        if (clash) assert(got.e instanceof TypeError, () => `commands share a name but construction ${got.e ? `threw ${got.e.name}` : "succeeded"}`);
        else assert(!got.e, () => `construction threw ${got.e}`);
        if (groups.flat().length < 2) ctx.trivial("one command");
      },
    },
    {
      name: "names",
      runs: { quick: 6000, thorough: 200000 },
      arb: (fc) => fc.record({
        kind: fc.nat(5),
        s: fc.oneof(fc.string({ unit: "binary", maxLength: 5 }), fc.string({ unit: fc.constantFrom("-", "/", "+", "a", " ", "\t", "\n", "\u00a0", "\u2028", "\u0085", "\u3000", "\u200b", "\0", "\x7f", "="), maxLength: 5 }),
          fc.tuple(fc.constantFrom("-", "--", "/", "+"), fc.string({ unit: "grapheme", maxLength: 5 })).map(([a, b]) => a + b)),
        other: fc.boolean(),
      }),
      check({ kind, s, other }, ctx) {
        const option = kind < 4;
        const good = option ? goodOption(s) : goodCommand(s);
        ctx.label(good ? "valid" : "invalid");
        const list = option ? (other ? ["--zz", s] : [s]) : [s];
        if (other && s === "--zz") return ctx.trivial("same name twice");
        const got = attempt(() => {
          switch (kind) {
            case 0: return core.option(...list, core.string());
            case 1: return core.flag(...list);
            case 2: return core.negatableFlag({ positive: list, negative: "--no-yy" });
            case 3: return core.negatableFlag({ positive: "--yy", negative: list });
            case 4: return core.command(s, core.object({}));
            default: return core.command("xx", core.object({}), { aliases: [s] });
          }
        });
        if ((kind === 2 && list.includes("--no-yy")) || (kind === 3 && list.includes("--yy")) || (kind === 5 && s === "xx")) return ctx.trivial("collision");
        if (good) assert(!got.e, () => `${show(list)} refused: ${got.e}`);
        else assert(got.e instanceof TypeError, () => `${show(list)} ${got.e ? `threw ${got.e}` : "accepted"}`);
      },
    },
  ],
};
