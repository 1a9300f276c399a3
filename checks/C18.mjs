import { inspect } from "node:util";
import * as core from "@optique/core";
import { extractArgumentMetavars, extractCommandNames, extractLiteralValues, extractOptionNames, formatUsage, formatUsageTerm, normalizeUsage } from "@optique/core/usage";
import { assert, equal, show } from "../lib/harness.mjs";
import { assignNames, build, caseArb, has, nodeArbs, nodes, planCase, Tape, tapeArb, vpValid } from "../lib/grammar.mjs";

/** Columns of a text in the alphabet the generators use. */
const getDisplayWidth = (s) => [...s].reduce((w, c) => w + (/\p{M}/u.test(c) ? 0 : /[\u2e80-\ua4cf]|\p{Extended_Pictographic}/u.test(c) ? 2 : 1), 0);
const strip = (s) => s.replace(/\x1b\[[0-9;]*m/g, "");
const solid = (s) => s.replace(/\s+/g, "");

/** Follows the usage line: tokens of one command line it describes, or null. */
function follow(usage, cx) {
  const { tape } = cx;
  const out = [];
  const option = (names) => {
    const name = tape.one(names);
    const leaf = cx.leaf.get(name);
    if (leaf == null) throw new Error(`the usage has an option ${name} the grammar lacks`);
    if (!leaf.vp) { if (leaf.branches) return null; out.push(name); return true; }
    const [raw] = vpValid(leaf.vp, tape, false);
    out.push(name, raw);
    return true;
  };
  const walk = (terms) => {
    for (let i = 0; i < terms.length; i++) {
      const t = terms[i];
      switch (t.type) {
        case "option": {
          const leaf = cx.leaf.get(t.names[0]);
          // discriminator of conditional(): the value follows as a literal
          if (leaf?.branches && terms[i + 1]?.type === "literal") { out.push(tape.one(t.names), terms[++i].value); break; }
          if (leaf?.branches) { cx.odd = true; return; }
          option(t.names);
          break;
        }
        case "argument": if (cx.gap) cx.odd = true; out.push(tape.one(["x", "y.txt", "", "a b"])); break;
        case "command": out.push(t.name); break;
        case "optional":
          if (tape.bool()) walk(t.terms);
          else if (JSON.stringify(t.terms).includes('"argument"')) cx.gap = true;
          break;
        case "multiple": {
          const times = t.min === 0 ? (tape.bool() ? 1 : 0) : t.min;
          if (times === 0 && JSON.stringify(t.terms).includes('"argument"')) cx.gap = true;
          for (let k = 0; k < times; k++) walk(t.terms);
          if (JSON.stringify(t.terms).includes('"argument"')) cx.gap = true;
          break;
        }
        case "exclusive": walk(tape.one(t.terms)); break;
        case "sequence": walk(t.terms); break;
        case "literal": out.push(t.value); break;
        default: cx.odd = true;
      }
    }
  };
  walk(usage);
  return out;
}
const plainArgs = (n) => {
  const go = (m) => {
    const c = { ...m };
    if (c.k === "arg") c.vp = { t: "str" };
    if (c.p) c.p = go(c.p);
    if (c.list) c.list = c.k === "cmds" ? c.list.map((q) => ({ ...q, p: go(q.p) })) : c.list.map(go);
    if (c.fields) c.fields = c.fields.map(go);
    if (c.branches) c.branches = c.branches.map(go);
    if (c.def) c.def = go(c.def);
    return c;
  };
  return go(n);
};

/** Leaves a line cannot do without: options and commands outside any optional part. */
function mandatory(usage) {
  const out = [];
  for (const t of usage) {
    if (t.type === "option") out.push(t.names);
    else if (t.type === "command") out.push([t.name, ...(t.aliases ?? []), ...(t.hiddenAliases ?? [])]);
    else if (t.type === "sequence" || (t.type === "multiple" && t.min > 0)) out.push(...mandatory(t.terms));
  }
  return out;
}

// ---- free-form usages for the layout
const usageArb = (fc) => {
  const word = fc.constantFrom("FILE", "N", "URL...", "\u65e5\u672c\u8a9e", "a-very-long-metavariable-name", "\ud83d\ude00", "e\u0301", "X");
  const hidden = fc.constantFrom(undefined, undefined, undefined, undefined, true, false, "usage", "doc", "help");
  const name = fc.constantFrom("--verbose", "-v", "--output", "-o", "/x", "--a-long-option-name", "+q", "--\u00fcn\u00ef");
  const { u } = fc.letrec((tie) => ({
    term: fc.oneof({ maxDepth: 3, depthSize: "small" },
      fc.record({ type: fc.constant("argument"), metavar: word, hidden }),
      fc.record({ type: fc.constant("option"), names: fc.uniqueArray(name, { minLength: 1, maxLength: 3 }), metavar: fc.option(word, { nil: undefined }), hidden }),
      fc.record({ type: fc.constant("command"), name: fc.constantFrom("add", "remove", "\u65e5\u672c", "ls"), hidden }),
      fc.record({ type: fc.constant("literal"), value: fc.constantFrom("json", "x", "") }),
      fc.record({ type: fc.constant("passthrough"), hidden }), fc.constant({ type: "ellipsis" }),
      fc.record({ type: fc.constant("optional"), terms: tie("u") }),
      fc.record({ type: fc.constant("multiple"), terms: tie("u"), min: fc.oneof({ weight: 8, arbitrary: fc.nat(2) }, { weight: 1, arbitrary: fc.integer({ min: 3, max: 6 }) }) }),
      fc.record({ type: fc.constant("sequence"), terms: tie("u") }),
      fc.record({ type: fc.constant("exclusive"), terms: fc.array(tie("u"), { maxLength: 3 }) })),
    u: fc.array(tie("term"), { maxLength: 4 }),
  }));
  return u;
};
const tidy = (x) => Array.isArray(x) ? x.map(tidy) : x && typeof x === "object" ? Object.fromEntries(Object.entries(x).filter(([, v]) => v !== undefined).map(([k, v]) => [k, tidy(v)])) : x;
const hiddenInUsage = (h) => h === true || h === "usage" || h === "help";
const hiddenInDocs = (h) => h === true || h === "doc" || h === "help";
/** The documented rendering of a usage, without wrapping: the reference printer. */
function reference(usage, { shortest, asBuilt, sep = "/", gone = hiddenInUsage, expand }) {
  const vis = (terms) => terms.flatMap((t) => {
    if (gone(t.hidden)) return [];
    if (t.type === "literal" && t.value === "") return [];
    if (t.type === "optional" || t.type === "multiple" || t.type === "sequence") { const k = vis(t.terms); return k.length ? [{ ...t, terms: k }] : []; }
    if (t.type === "exclusive") {
      const k = t.terms.map((b) => b[0]?.type === "command" && gone(b[0].hidden) ? [] : vis(b)).filter((b) => b.length);
      return k.length ? [{ ...t, terms: k }] : [];
    }
    return [t];
  });
  const rank = (t) => {
    if (t.type === "command") return 0;
    const positional = (x) => x?.type === "argument" || ((x?.type === "optional" || x?.type === "multiple") && positional(x.terms.at(-1)));
    return positional(t) ? 2 : 1;
  };
  // stable order: commands, then options and the rest, then positionals; alternatives within alternatives joined
  const norm = (terms, keepOrder) => {
    const k = terms.map((t) => {
      if (t.type === "optional") { const k = norm(t.terms); return k.length === 1 && k[0].type === "optional" ? k[0] : { ...t, terms: k }; }
      if (t.type === "multiple") return { ...t, terms: norm(t.terms) };
      if (t.type === "sequence") return { ...t, terms: norm(t.terms, true) };
      if (t.type === "exclusive") return { ...t, terms: t.terms.flatMap((b) => { const k = norm(b); return k[0]?.type === "exclusive" ? k[0].terms.map((x) => [...x, ...k.slice(1)]) : [k]; }) };
      return t;
    });
    return keepOrder ? k : k.map((t, i) => [rank(t), i, t]).sort((a, b) => a[0] - b[0] || a[1] - b[1]).map((x) => x[2]);
  };
  const print = (terms) => terms.map((t) => {
    switch (t.type) {
      case "argument": return t.metavar;
      case "option": return shortest ? t.names.reduce((a, b) => getDisplayWidth(b) < getDisplayWidth(a) ? b : a) : t.names.join(sep) + (t.metavar == null ? "" : ` ${t.metavar}`);
      case "command": return t.name;
      case "literal": return t.value;
      case "passthrough": return "[...]";
      case "ellipsis": return "...";
      case "sequence": return print(t.terms);
      case "optional": return `[${print(t.terms)}]`;
      case "exclusive": return `(${t.terms.map(print).join(" | ")})`;
      case "multiple": { const s = `${Array(Math.max(1, t.min)).fill(print(t.terms)).join(" ")}...`; return t.min < 1 ? `[${s}]` : s; }
    }
  }).join(" ");
  // one line for each alternative of what follows the commands
  const lines = (terms) => {
    const k = norm(vis(terms)), last = k.at(-1), plain = (t) => ["command", "option", "argument"].includes(t.type);
    const each = last?.type === "exclusive" && k.slice(0, -1).every((t) => t.type === "command") && last.terms.every((b) => b.length > 0 && (plain(b[0]) || b[0].type === "optional" && b[0].terms.length === 1 && plain(b[0].terms[0])));
    return each ? last.terms.flatMap((b) => lines([...k.slice(0, -1), ...b])) : [print(k)];
  };
  if (expand) return lines(usage);
  return print(asBuilt ? vis(usage) : norm(vis(usage)));
}
/** The documented normal form of a usage. */
function normal(usage, keepOrder) {
  const malformed = (t) => t.type === "option" ? t.names.length === 0 : t.type === "command" ? t.name === "" : t.type === "argument" ? t.metavar === "" : t.type === "exclusive" ? t.terms.some((b) => b.some(malformed)) : t.terms ? t.terms.some(malformed) : false;
  const useless = (t) => t.terms ? t.terms.length === 0 : malformed(t);
  const positional = (t) => t?.type === "argument" || ((t?.type === "optional" || t?.type === "multiple") && positional(t.terms.at(-1)));
  const one = (t) => {
    if (t.type === "optional") { const k = normal(t.terms); return k.length === 1 && k[0].type === "optional" ? k[0] : { type: t.type, terms: k }; }
    if (t.type === "multiple") return { type: t.type, min: t.min, terms: normal(t.terms) };
    if (t.type === "sequence") return { type: t.type, terms: normal(t.terms, true) };
    if (t.type === "exclusive") return { type: t.type, terms: t.terms.flatMap((b) => { const k = normal(b); return k[0]?.type === "exclusive" ? k[0].terms.map((x) => [...x, ...k.slice(1)]) : k.length || !b.some(malformed) ? [k] : []; }) };
    return t;
  };
  const k = usage.map(one).filter((t) => !useless(t));
  return keepOrder ? k : [...k.filter((t) => t.type === "command"), ...k.filter((t) => t.type !== "command" && !positional(t)), ...k.filter((t) => positional(t))];
}
/** Everything found in a usage, at any depth. */
const leaves = (usage) => usage.flatMap((t) => t.type === "exclusive" ? t.terms.flatMap(leaves) : t.terms ? leaves(t.terms) : [t]);
/** Empties some of the leaves, dresses commands with what cloning has to keep. */
function spoil(usage, bits) {
  let i = 0;
  const take = () => bits[i++ % bits.length];
  const go = (ts) => ts.map((t) => {
    if (t.type === "exclusive") return { ...t, terms: t.terms.map(go) };
    if (t.terms) return { ...t, terms: go(t.terms) };
    const b = take();
    if (t.type === "command") return b === 0 ? { ...t, name: "" } : b === 1 ? { ...t, aliases: [`${t.name}1`, `${t.name}2`] } : b === 2 ? { ...t, hiddenAliases: [`${t.name}3`, `${t.name}4`] } : b === 3 ? { ...t, usageLine: [{ type: "option", names: ["--in", "-i"] }, { type: "ellipsis" }] } : b === 4 ? { ...t, usageLine: USAGE_LINE } : t;
    if (b !== 0) return t;
    return t.type === "option" ? { ...t, names: [] } : t.type === "argument" ? { ...t, metavar: "" } : t;
  });
  return go(usage);
}
const USAGE_LINE = (u) => u;
/** Every object and list within a value. */
const inside = (x) => x && typeof x === "object" ? [x, ...Object.values(x).flatMap(inside)] : [];
/** The pieces a line may not be broken within. */
function atoms(usage) {
  const s = [];
  const go = (ts) => { for (const t of ts) { s.push(t.metavar ?? "", t.name ?? "", t.value ?? "", ...(t.names ?? [])); if (t.terms) for (const k of t.terms) go(Array.isArray(k) ? k : [k]); } };
  go(usage);
  return Math.max(5, ...s.map(getDisplayWidth));
}

export default {
  id: "C18",
  title: "The usage line describes the command lines that are accepted",
  statement: "Every command line obtained by following a parser's usage (each `[x]` left out or given, one of each `(a | b)`, as many of `x...` as shown, any of an option's names) is accepted, and every accepted command line uses only names its usage has and every mandatory part of it. The printed usage line says exactly what the usage holds, without hidden parts; colors and wrapping to a width change the escape sequences and the places of line breaks only, and no line exceeds the width unless a single word does; with expandCommands there is one such line for every alternative of what follows the commands. Copying and normalizing a usage keep what it says, and the names extracted from it are those in it.",
  quantifier: [["programs", "inputs"], "random grammars of every combinator, all derivations of their usage, free-form usage trees, all widths and formatting options"],
  why: "The usage is built by each combinator separately from its parse code and rearranged before printing; examples compare a few strings, and never check a usage against what the parser does.",
  files: ["packages/core/src/usage.ts", "packages/core/src/constructs.ts", "packages/core/src/modifiers.ts", "packages/core/src/primitives.ts"],
  mechanism: [["usage of every parser", "packages/core/src/constructs.ts"], ["normalizeUsage() and formatUsage()", "packages/core/src/usage.ts"]],
  observe: ["parser.usage", "formatUsage() text", "acceptance of lines"],
  rule: "follow: the usage yields a line of at least one token (no optional positional left out before a later one); planned: the accepted line has a token; layout: the usage prints something besides the program name; expand: more than one line; pieces: at least two leaves.",
  assumptions: ["Values put in for metavariables are valid values of that option; positionals take any text.", "Upper bounds of repetition and nonEmpty() are not part of a usage, so derivations repeat no more than shown and avoid nonEmpty()."],
  parts: [
    {
      name: "follow", runs: { quick: 25000, thorough: 600000 },
      arb: (fc) => fc.record({ spec: nodeArbs(fc).root, salt: fc.nat(31), tape: tapeArb(fc, 60), norm: fc.boolean() }),
      check({ spec: s0, salt, tape: tp, norm }, ctx) {
        const spec = assignNames(plainArgs(s0), salt);
        if (has(spec, "nonEmpty")) return ctx.trivial("nonEmpty");
        const parser = build(spec);
        const leaf = new Map();
        for (const n of nodes(spec)) for (const name of [...(n.names ?? []), ...(n.pos ?? []), ...(n.neg ?? [])]) leaf.set(name, n);
        const cx = { tape: new Tape(tp), leaf, gap: false, odd: false };
        const line = follow(norm ? normalizeUsage(parser.usage) : parser.usage, cx);
        if (cx.odd) return ctx.trivial("optional positional before another");
        if (!line.length) ctx.trivial("empty line");
        ctx.label(norm ? "normalized" : "as built", spec.k);
        const r = core.parseSync(parser, line);
        assert(r.success, () => `the usage ${formatUsage("p", parser.usage)} describes ${show(line)}, which is refused: ${core.formatMessage(r.error)}\n  spec ${show(spec)}`);
      },
    },
    {
      name: "planned", runs: { quick: 10000, thorough: 300000 },
      arb: (fc) => caseArb(fc),
      check(c, ctx) {
        const p = planCase(c, { bundleOk: false });
        if (!p || !p.tokens.length) return ctx.trivial("empty line");
        const parser = build(p.spec);
        const opts = extractOptionNames(parser.usage), cmds = extractCommandNames(parser.usage, true);
        p.tokens.forEach((t, i) => {
          const role = p.roles[i];
          if (!role?.name) return;
          if (role.leaf.k === "cmds") return assert(cmds.has(t), () => `command ${t} is not in the usage ${formatUsage("p", parser.usage)}`);
          const name = [...opts].some((n) => t === n || t.startsWith(`${n}=`) || t.startsWith(`${n}:`));
          assert(name, () => `option ${t} is not in the usage ${formatUsage("p", parser.usage)}`);
        });
        for (const names of mandatory(parser.usage)) {
          assert(p.tokens.some((t) => names.some((n) => t === n || t.startsWith(`${n}=`) || t.startsWith(`${n}:`))), () => `${show(p.tokens)} is accepted without ${names.join("/")}, which the usage ${formatUsage("p", parser.usage)} makes mandatory\n  spec ${show(p.spec)}`);
        }
        equal([...extractArgumentMetavars(parser.usage)].length > 0, has(p.spec, "arg"), "whether the usage has positionals");
      },
    },
    {
      name: "layout", runs: { quick: 15000, thorough: 400000 },
      arb: (fc) => fc.record({ u: usageArb(fc), prog: fc.constantFrom("p", "my-program", "\u65e5\u672c", "prog sub"), width: fc.option(fc.integer({ min: 1, max: 60 }), { nil: undefined }), colors: fc.boolean(), shortest: fc.boolean() }),
      check({ u, prog, width, colors, shortest }, ctx) {
        const usage = tidy(u);
        const want = reference(usage, { shortest });
        const whole = want === "" ? prog : `${prog} ${want}`;
        if (want === "") ctx.trivial("nothing shown");
        ctx.label(colors ? "colors" : "plain", width ? "wrapped" : "one line");
        const opt = { onlyShortestOptions: shortest };
        const plain = formatUsage(prog, usage, opt);
        assert(plain.trimEnd() === whole, () => `formatUsage printed\n  ${show(plain)}, not\n  ${show(whole)}\n  usage ${show(usage)}`);
        const got = formatUsage(prog, usage, { ...opt, colors, ...(width ? { maxWidth: width } : {}) });
        const bare = strip(got);
        equal(solid(bare), solid(whole), "text apart from white space");
        if (!colors) assert(!got.includes("\x1b"), "escape sequences without colors");
        if (width) {
          const limit = Math.max(width, atoms(usage), getDisplayWidth(prog));
          for (const l of bare.split("\n")) assert(getDisplayWidth(l.trimEnd()) <= limit, () => `the line ${show(l)} is wider than ${width}`);
          equal(bare, formatUsage(prog, usage, { ...opt, maxWidth: width }), "layout with colors");
          // words are not glued together or cut
          equal(bare.split(/\s+/).filter(Boolean).join(""), whole.split(/\s+/).join(""), "words");
        }
        const t = usage.length === 1 ? formatUsageTerm(usage[0], opt) : null;
        if (t != null) equal(t, reference(usage, { shortest, asBuilt: true }), "formatUsageTerm");
      },
    },
    {
      name: "expand", runs: { quick: 8000, thorough: 200000 },
      arb: (fc) => {
        const u = usageArb(fc), command = fc.record({ type: fc.constant("command"), name: fc.constantFrom("add", "rm", "ls"), hidden: fc.constantFrom(undefined, undefined, undefined, true, "usage", "doc") });
        const start = fc.oneof({ weight: 12, arbitrary: command }, { weight: 4, arbitrary: fc.record({ type: fc.constantFrom("optional", "optional", "multiple"), terms: fc.oneof(fc.tuple(command), u), min: fc.nat(1) }).map((t) => t.type === "optional" ? { type: t.type, terms: t.terms } : t) }, { weight: 1, arbitrary: u.filter((x) => x.length > 0).map((x) => x[0]) });
        const branch = fc.tuple(start, u.map((x) => x.slice(0, 2))).map(([a, b]) => [a, ...b]);
        const alternatives = (b) => fc.array(b, { minLength: 1, maxLength: 3 }).map((terms) => ({ type: "exclusive", terms }));
        const nested = fc.tuple(start, alternatives(branch)).map(([a, b]) => [a, b]);
        return fc.record({ prefix: fc.array(command, { maxLength: 2 }), top: alternatives(fc.oneof({ weight: 3, arbitrary: branch }, { weight: 1, arbitrary: nested })), suffix: fc.oneof({ weight: 5, arbitrary: fc.constant([]) }, { weight: 1, arbitrary: u }), shortest: fc.boolean(), width: fc.option(fc.integer({ min: 5, max: 60 }), { nil: undefined }) });
      },
      check({ prefix, top, suffix, shortest, width }, ctx) {
        const usage = tidy([...prefix, top, ...suffix]);
        const want = reference(usage, { shortest, expand: true });
        ctx.label(`${Math.min(want.length, 4)} lines`);
        if (want.length < 2) ctx.trivial("one line");
        const opt = { onlyShortestOptions: shortest, expandCommands: true };
        const got = formatUsage("prog", usage, opt);
        equal(got.split("\n").map((l) => l.trimEnd()), want.map((l) => `prog ${l}`.trimEnd()), "a line for every alternative");
        equal(solid(strip(formatUsage("prog", usage, { ...opt, colors: true, ...(width ? { maxWidth: width } : {}) }))), solid(got), "text apart from white space");
      },
    },
    {
      name: "pieces", runs: { quick: 10000, thorough: 250000 },
      arb: (fc) => fc.record({ u: usageArb(fc), bits: fc.array(fc.nat(8), { minLength: 1, maxLength: 12 }), sep: fc.constantFrom("/", ", ", " | ", "\u3001", ""), context: fc.constantFrom("usage", "doc"), width: fc.integer({ min: 1, max: 50 }), all: fc.boolean() }),
      check({ u, bits, sep, context, width, all }, ctx) {
        const usage = spoil(tidy(u), bits);
        const before = inspect(usage, { depth: 99 });
        const flat = leaves(usage);
        if (flat.length < 2) ctx.trivial("less than two leaves");
        // a copy is the same, and shares nothing
        const copy = core.cloneUsage(usage);
        equal(inspect(copy, { depth: 99 }), before, "cloneUsage()");
        const mine = new Set(inside(usage));
        assert(inside(copy).every((x) => !mine.has(x)), "cloneUsage() shares a part with the original");
        // the normal form
        const n = core.normalizeUsage(usage);
        equal(tidy(n), tidy(normal(usage)), "normalizeUsage()");
        assert(inside(n).every((x) => !mine.has(x) || Array.isArray(x) && ["aliases", "hiddenAliases"].some((k) => flat.some((t) => t[k] === x))), "normalizeUsage() shares a part with the original");
        // the names in it
        const seen = (t) => all || t.hidden !== true, by = (f) => [...new Set(flat.flatMap(f))].sort();
        equal([...core.extractOptionNames(usage, all)].sort(), by((t) => t.type === "option" && seen(t) ? t.names : []), "extractOptionNames()");
        equal([...core.extractCommandNames(usage, all)].sort(), by((t) => t.type === "command" && seen(t) ? [t.name, ...t.aliases ?? [], ...(all ? t.hiddenAliases ?? [] : [])] : []), "extractCommandNames()");
        equal([...core.extractArgumentMetavars(usage)].sort(), by((t) => t.type === "argument" && t.hidden !== true ? [t.metavar] : []), "extractArgumentMetavars()");
        equal([...extractLiteralValues(usage)].sort(), by((t) => t.type === "literal" ? [t.value] : []), "extractLiteralValues()");
        equal(inspect(usage, { depth: 99 }), before, "the usage given");
        // one term, as help writes it
        for (const t of tidy(u)) {
          const gone = context === "doc" ? hiddenInDocs : hiddenInUsage;
          const want = reference([t], { asBuilt: true, sep, gone });
          equal(formatUsageTerm(t, { optionsSeparator: sep, context }), want, "formatUsageTerm()");
          const got = formatUsageTerm(t, { optionsSeparator: sep, context, maxWidth: width });
          equal(solid(got), solid(want), "formatUsageTerm() with a width, apart from white space");
          const limit = Math.max(width, atoms([t]), getDisplayWidth(sep));
          for (const l of got.split("\n")) assert(getDisplayWidth(l.trimEnd()) <= limit, () => `the line ${show(l)} of ${show(want)} is wider than ${width}`);
          const bare = (x) => x.split("\n").map((l) => l.trimEnd());
          equal(bare(strip(formatUsageTerm(t, { optionsSeparator: sep, context, maxWidth: width, colors: true }))), bare(got), "formatUsageTerm() with colors");
        }
      },
    },
  ],
};
