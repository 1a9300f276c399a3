import * as core from "@optique/core";
import { cloneDocEntry, deduplicateDocEntries, deduplicateDocFragments, formatDocPage } from "@optique/core/doc";
import { suggestSync } from "@optique/core/parser";
import { bindConfig, createConfigContext } from "@optique/config";
import { bindDerivedDefault, createDerivedDefaults } from "@optique/derived-defaults";
import { bindEnv, createEnvContext } from "@optique/env";
import { prompt as inquirerPrompt } from "@optique/inquirer";
import { formatUsage } from "@optique/core/usage";
import { assert, equal, show } from "../lib/harness.mjs";
import { dress, HIDDEN } from "../lib/dress.mjs";
import { assignNames, build, caseArb, kids, nodeArbs, planCase } from "../lib/grammar.mjs";

const strip = (s) => s.replace(/\x1b\[[0-9;]*m/g, "");
const solid = (s) => s.replace(/\s+/g, "");
const columns = (s) => [...s].reduce((w, c) => w + (/\p{M}/u.test(c) ? 0 : /[\u2e80-\ua4cf]|\p{Extended_Pictographic}/u.test(c) ? 2 : 1), 0);
const docHidden = (h) => h === true || h === "doc" || h === "help";
const usageHidden = (h) => h === true || h === "usage" || h === "help";

/** The parts one sees without entering a command. */
function leaves(n, out = []) {
  if (n.k === "cmds") { for (const q of n.list) out.push({ key: `command ${q.name}`, desc: q.desc, hidden: q.hidden, suggest: q.name, q }); return out; }
  if (n.k === "arg") out.push({ key: "argument", desc: n.desc, hidden: n.hidden });
  if (n.names) out.push({ key: `option ${n.names.join(",")}`, desc: n.desc, hidden: n.hidden, suggest: n.names[0], n });
  if (n.pos) out.push({ key: `option ${[...n.pos, ...n.neg].join(",")}`, desc: n.desc, hidden: n.hidden, suggest: n.pos[0], n });
  for (const c of kids(n)) { const at = out.length; leaves(c, out); if (n.k === "cond") for (const l of out.slice(at)) l.later = true; }
  return out;
}
/** A parser that is nothing but one command shows that command's own page. */
const lone = (n) => n.k === "cmds" && n.list.length === 1;
const entryKey = (e) => `${e.term.type === "command" ? `command ${e.term.name}` : e.term.type === "option" ? `option ${e.term.names.join(",")}` : e.term.type} | ${e.description == null ? "" : core.formatMessage(e.description, { quotes: false })}`;
const entriesOf = (page) => page.sections.flatMap((s) => s.entries).map(entryKey).sort();

// ---- free-form pages
const pageArb = (fc) => {
  const words = fc.array(fc.constantFrom("alpha", "a", "of", "the", "\u65e5\u672c\u8a9e", "extraordinarily", "x.", "\ud83d\ude00", "1,000", "a/b/c"), { minLength: 1, maxLength: 14 }).map((w) => w.join(" "));
  const msg = fc.option(words, { nil: null });
  const term = fc.oneof(
    fc.record({ type: fc.constant("option"), names: fc.uniqueArray(fc.constantFrom("-v", "--verbose", "--a-really-long-option-name", "-o"), { minLength: 1, maxLength: 3 }), metavar: fc.option(fc.constantFrom("FILE", "\u65e5\u672c"), { nil: null }) }),
    fc.record({ type: fc.constant("argument"), metavar: fc.constantFrom("FILE", "A-LONG-METAVARIABLE-NAME") }),
    fc.record({ type: fc.constant("command"), name: fc.constantFrom("add", "remove-everything-from-it") }));
  const entry = fc.record({ term, hidden: fc.constantFrom(...HIDDEN), description: msg, default: msg, choices: fc.option(fc.array(fc.constantFrom("a", "bb", "ccc"), { minLength: 1, maxLength: 12 }), { nil: null }) });
  return fc.record({
    brief: msg, description: msg, examples: msg, author: msg, bugs: msg, footer: msg,
    usage: fc.option(fc.array(term, { maxLength: 4 }), { nil: null }),
    sections: fc.array(fc.record({ title: fc.option(fc.constantFrom("Options", "Commands", "Other things"), { nil: null }), entries: fc.array(entry, { maxLength: 4 }) }), { maxLength: 3 }),
  });
};
const T = (s) => s == null ? undefined : [{ type: "text", text: s }];
const clean = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v != null));
const realPage = (p) => clean({
  brief: T(p.brief), description: T(p.description), examples: T(p.examples), author: T(p.author), bugs: T(p.bugs), footer: T(p.footer),
  usage: p.usage?.map(clean),
  sections: p.sections.map((s) => clean({ title: s.title, entries: s.entries.map((e) => clean({ term: clean({ ...e.term, hidden: e.hidden }), description: T(e.description), default: T(e.default), choices: e.choices?.flatMap((c, i) => [...(i ? [{ type: "text", text: ", " }] : []), { type: "value", value: c }]) })) })),
});

// ---- the layout, written down
/** A text whose "x." words stand for line breaks. */
const lines = (s) => s == null ? undefined : s.split(/ ?x\. ?/).flatMap((t, i) => [...(i ? [{ type: "lineBreak" }] : []), ...(t ? [{ type: "text", text: t }] : [])]);
const plainText = (s) => s == null ? "" : s.split(/ ?x\. ?/).join("\n");
const termText = (t) => t.type === "option" ? t.names.join(", ") + (t.metavar ? ` ${t.metavar}` : "") : t.metavar ?? t.name;
const layoutPage = (p) => clean({
  ...Object.fromEntries(["brief", "description", "examples", "author", "bugs", "footer"].map((k) => [k, lines(p[k])])),
  usage: p.usage?.map(clean),
  sections: p.sections.map((s) => clean({ title: s.title, entries: s.entries.map((e) => clean({ term: clean({ ...e.term, hidden: e.hidden }), description: lines(e.description), default: lines(e.default), choices: e.choices?.flatMap((c, i) => [...(i ? [{ type: "text", text: ", " }] : []), { type: "value", value: c }]) })) })),
});
const indented = (s, n) => s.split("\n").join(`\n${" ".repeat(n)}`);
const lastColumns = (s) => columns(s.slice(s.lastIndexOf("\n") + 1));
function expected(p, page, o) {
  const indent = o.termIndent ?? 2, tw = o.termWidth ?? 26, pre = (x, k, d) => (typeof x === "object" ? x[k] : undefined) ?? d;
  let out = p.brief ? `${plainText(p.brief)}\n` : "";
  if (page.usage && o.showUsage !== false) out += `Usage: ${indented(formatUsage("prog", page.usage, { expandCommands: true }), 7)}\n`;
  if (p.description) out += `\n${plainText(p.description)}\n`;
  const visible = p.sections.map((s) => ({ ...s, entries: s.entries.filter((e) => !docHidden(e.hidden)) }));
  const score = (s) => { const c = s.entries.filter((e) => e.term.type === "command").length; return (c === 0 ? 2 : c === s.entries.length ? 0 : 1) - (s.title ? 0 : 1); };
  for (const s of o.sectionOrder ? visible.map((v, i) => [v, i]).sort(([a, i], [b, j]) => o.sectionOrder(a, b) || i - j).map(([v]) => v) : [-1, 0, 1, 2].flatMap((n) => visible.filter((v) => score(v) === n))) {
    if (!s.entries.length) continue;
    out += `\n${s.title ? `${s.title}:\n` : ""}`;
    for (const e of s.entries) {
      const term = termText(e.term), max = pre(o.showChoices, "maxItems", 8);
      let d = plainText(e.description);
      if (o.showDefault && e.default) d += pre(o.showDefault, "prefix", " [") + plainText(e.default) + pre(o.showDefault, "suffix", "]");
      if (o.showChoices && e.choices?.length) d += pre(o.showChoices, "prefix", " (") + pre(o.showChoices, "label", "choices: ") + [...e.choices.slice(0, max), ...(e.choices.length > max ? ["..."] : [])].join(", ") + pre(o.showChoices, "suffix", ")");
      const padded = term + " ".repeat(Math.max(0, tw - columns(term)));
      out += `${" ".repeat(indent)}${padded}${d ? `  ${indented(d, indent + tw + 2)}` : ""}\n`;
    }
  }
  for (const k of ["examples", "author", "bugs"]) if (p[k]) out += `\n${k[0].toUpperCase()}${k.slice(1)}:\n  ${indented(plainText(p[k]), 2)}\n`;
  return out + (p.footer ? `\n${plainText(p.footer)}` : "");
}

// ---- collecting entries
const docTermArb = (fc) => fc.oneof(
  fc.record({ type: fc.constant("option"), names: fc.uniqueArray(fc.constantFrom("-a", "--all", "-b"), { minLength: 1, maxLength: 2 }), metavar: fc.constantFrom(null, "X", "Y") }),
  fc.record({ type: fc.constant("argument"), metavar: fc.constantFrom("X", "Y") }),
  fc.record({ type: fc.constant("command"), name: fc.constantFrom("add", "rm"), aliases: fc.constantFrom(null, ["a"], ["b", "c"]) }),
  fc.record({ type: fc.constant("literal"), value: fc.constantFrom("l", "m") }), fc.record({ type: fc.constant("passthrough") }));
const docEntryArb = (fc) => fc.record({ term: docTermArb(fc), hidden: fc.constantFrom(null, null, null, ...HIDDEN), n: fc.nat(99), d: fc.boolean(), c: fc.boolean() });
const realEntry = (e) => clean({ term: clean({ ...e.term, hidden: e.term.type === "literal" ? null : e.hidden }), description: T(`text ${e.n}`), default: e.d ? T(`default ${e.n}`) : null, choices: e.c ? [{ type: "value", value: `choice ${e.n}` }] : null });
/** What two entries have in common when they are the same part. */
const same = (e) => { const t = e.term; return t.type === "option" ? `option ${[...t.names].sort().join(",")} ${t.metavar ?? ""}` : t.type === "command" ? `command ${t.name}` : show(t); };
const shown = (e) => e.term.type === "literal" || !docHidden(e.term.hidden);
const firsts = (list, seen = new Set()) => list.filter((e) => { if (!shown(e)) return false; if (e.term.type === "argument") return true; const k = same(e); if (seen.has(k)) return false; seen.add(k); return true; });

export default {
  id: "C19",
  title: "Help shows every visible part exactly once, and nothing hidden",
  statement: "The help page of a parser, and of each command it contains, has exactly one entry with its description for every option, positional and command available there and not hidden from help. A field bound to an environment variable, configuration, derived default or prompt shows the default that holds for it. A part hidden from usage, help or everything is missing from exactly those places and from completion only if hidden from everything, and is still parsed as before. Printing a page keeps all its text whatever the width, colors and column settings; colors change escape sequences only, and no line is wider than the maximum except by a word that does not fit a column.",
  quantifier: [["programs", "inputs"], "random grammars with random visibility of every part, at the root and inside each command; random free-form pages with all formatting options"],
  why: "Every combinator collects help entries on its own, depending on parse state; tests check a few pages, and width handling has many interacting columns.",
  files: ["packages/core/src/doc.ts", "packages/core/src/constructs.ts", "packages/core/src/primitives.ts", "packages/core/src/internal/parser.ts", "packages/core/src/usage.ts"],
  mechanism: [["getDocFragments() of every combinator and getDocPage()", "packages/core/src/internal/parser.ts"], ["formatDocPage()", "packages/core/src/doc.ts"]],
  observe: ["getDocPage() result", "formatDocPage() text", "suggestSync() and formatUsage() for hidden parts"],
  rule: "entries/inside: the grammar has at least two parts there; hidden: some part is hidden; format: the page has an entry or text.",
  assumptions: ["Grammars give every part distinct names and descriptions, so merging of duplicate entries does not interfere."],
  parts: [
    {
      name: "entries", runs: { quick: 12000, thorough: 300000 },
      arb: (fc) => fc.record({ spec: nodeArbs(fc).root, salt: fc.nat(31), hid: fc.array(fc.nat(7), { maxLength: 8 }) }),
      check({ spec: s0, salt, hid }, ctx) {
        const spec = dress(assignNames(s0, salt), hid);
        const parser = build(spec);
        const ls = leaves(spec);
        if (lone(spec)) return ctx.trivial("nothing but one command");
        if (ls.length < 2) ctx.trivial("fewer than two parts");
        if (ls.some((l) => l.hidden)) ctx.label("hidden parts");
        const page = core.getDocPageSync(parser);
        if (!page) return assert(!ls.some((l) => !docHidden(l.hidden)), () => `no page for ${show(spec)}`);
        equal(entriesOf(page), ls.filter((l) => !docHidden(l.hidden)).map((l) => `${l.key} | ${l.desc}`).sort(), "entries of the help page");
        // visibility elsewhere
        const usage = formatUsage("p", parser.usage);
        const words = new Set(usage.split(/[\s/|()[\]]+|\.\.\.\s?/));
        for (const l of ls) {
          if (!l.suggest) continue;
          const offered = suggestSync(parser, [l.suggest]).some((s) => s.text === l.suggest);
          if (spec.k !== "seq" && !l.later) assert(offered === (l.hidden !== true), () => `${l.key} with hidden=${show(l.hidden)} is ${offered ? "" : "not "}offered\n  spec ${show(spec)}`);
          if (l.suggest.includes("/")) continue;
          assert(words.has(l.suggest) === !usageHidden(l.hidden), () => `${l.key} with hidden=${show(l.hidden)} is ${words.has(l.suggest) ? "" : "not "}in the usage ${usage}\n  spec ${show(spec)}`);
        }
      },
    },
    {
      name: "inside", runs: { quick: 8000, thorough: 200000 },
      arb: (fc) => fc.record({ c: caseArb(fc, nodeArbs(fc).cmdRoot), hid: fc.array(fc.nat(7), { maxLength: 8 }), at: fc.nat(3) }),
      check({ c, hid, at }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const cmdAt = p.roles.flatMap((r, i) => r?.name && r.leaf.k === "cmds" ? [i] : []);
        if (!cmdAt.length) return ctx.trivial("no command");
        const upto = cmdAt[at % cmdAt.length];
        const spec = dress(p.spec, hid);
        const parser = build(spec);
        // the path of commands named by the line
        let body = spec, path = [], levels = [];
        for (const i of cmdAt.filter((i) => i <= upto)) {
          const q = leaves(body).find((l) => l.q && (l.q.name === p.tokens[i] || l.q.aliases?.includes(p.tokens[i])))?.q;
          if (!q) return ctx.trivial("not a path");
          levels.push(body); body = q.p; path.push(q.name);
        }
        if (lone(body)) return ctx.trivial("nothing but one command");
        const page = core.getDocPageSync(parser, p.tokens.slice(0, upto + 1));
        const want = leaves(body).filter((l) => !docHidden(l.hidden)).map((l) => `${l.key} | ${l.desc}`);
        if (want.length < 2) ctx.trivial("fewer than two parts");
        ctx.label(`${path.length} commands`);
        const got = page ? entriesOf(page) : [];
        const outer = levels.flatMap((n) => leaves(n)).filter((l) => !l.q && !docHidden(l.hidden)).map((l) => `${l.key} | ${l.desc}`);
        for (const g of got) assert(want.includes(g) || outer.includes(g), () => `help of ${path.join(" ")} shows ${g}, which is not available there\n  spec ${show(spec)}`);
        for (const w of want) assert(got.filter((g) => g === w).length === 1, () => `help of ${path.join(" ")} after ${show(p.tokens.slice(0, upto + 1))} shows ${w} ${got.filter((g) => g === w).length} times: ${show(got)}\n  spec ${show(spec)}`);
      },
    },
    {
      name: "layout", runs: { quick: 12000, thorough: 300000 },
      arb: (fc) => fc.record({ page: pageArb(fc), maxWidth: fc.integer({ min: 4, max: 120 }), termIndent: fc.option(fc.nat(6), { nil: null }), termWidth: fc.option(fc.integer({ min: 1, max: 30 }), { nil: null }), showDefault: fc.constantFrom(false, true, { prefix: " (default ", suffix: ")" }, { prefix: " = " }, { suffix: "" }), showChoices: fc.constantFrom(false, true, { maxItems: 3 }, { maxItems: 1, label: "" }, { prefix: " {", suffix: "}" }), showUsage: fc.option(fc.boolean(), { nil: null }), order: fc.nat(3) }),
      check({ page: p0, maxWidth, order, ...o0 }, ctx) {
        const tidy = (s) => s == null || !s.replace(/ ?x\. ?/g, "") || /^x\.|x\.$|x\. x\./.test(s) ? null : s;
        const p = { ...p0, ...Object.fromEntries(["brief", "description", "examples", "author", "bugs", "footer"].map((k) => [k, tidy(p0[k])])), sections: p0.sections.map((s) => ({ ...s, entries: s.entries.map((e) => ({ ...e, description: tidy(e.description), default: tidy(e.default) })) })) };
        const o = { ...clean(o0), ...(order === 1 ? { sectionOrder: (a, b) => (a.title ?? "").localeCompare(b.title ?? "") } : order === 2 ? { sectionOrder: () => 0 } : {}) }, page = layoutPage(p), what = `page with ${show(o)}`;
        const free = formatDocPage("prog", page, o);
        if (!free.trim()) return ctx.trivial("empty");
        const trim = (s) => s.split("\n").map((l) => l.trimEnd()).join("\n");
        equal(trim(free), trim(expected(p, page, o)), what);
        equal(strip(formatDocPage("prog", page, { ...o, colors: true })).replace(/"/g, ""), free.replace(/"/g, ""), `${what} in colors`);
        const at = (w, q = page, r = o) => { try { return { text: formatDocPage("prog", q, { ...r, maxWidth: w }) }; } catch (e) { assert(e instanceof RangeError, () => `formatDocPage throws ${e}`); return { least: Number(/at least (\d+)/.exec(e.message)?.[1]) }; } };
        const got = at(maxWidth);
        if (got.least !== undefined) {
          ctx.label("too narrow");
          assert(got.least > maxWidth, () => `${what} needs ${got.least} columns, but not ${maxWidth}`);
          // Narrow pages share the columns out, wide ones do not, and there may be a gap between.
          const again = at(got.least);
          assert(again.text !== undefined || (again.least > got.least && at(again.least).text !== undefined), () => `${what} needs ${got.least} columns, and then ${again.least}, and that is not enough`);
        } else ctx.label("wrapped");
        // What is not shown does not matter.
        const bare = { ...page, sections: page.sections.map((s) => ({ ...s, entries: s.entries.filter((e) => !docHidden(e.term.hidden)).map((e) => { const q = { ...e }; if (!o.showDefault) delete q.default; if (!o.showChoices) delete q.choices; return q; }) })) };
        if (o.showUsage === false) delete bare.usage;
        equal(at(maxWidth, bare), got, `${what} and what it does not show in ${maxWidth} columns`);
        if (got.text === undefined) return;
        // A page that fits is printed as if there were no limit.
        const indent = o.termIndent ?? 2, tw = o.termWidth ?? 26, usual = maxWidth - indent - 2 >= tw + 1;
        if (usual && free.split("\n").every((l) => columns(l) + (o.showDefault || o.showChoices ? 1 : 0) <= maxWidth)) // room for a closing bracket is kept on every line
          { ctx.label("fits"); equal(got.text, free, `${what} in ${maxWidth} columns, where it fits`); }
        // Labels and single words apart, nothing sticks out.
        // the rest of a term that is broken itself may stand before a description
        const terms = page.sections.flatMap((s) => s.entries.map((e) => termText(e.term))).flatMap((t) => columns(t) + indent <= maxWidth ? [t] : [...t].map((_, i) => t.slice(i)));
        const titles = new Set(page.sections.map((s) => `${s.title}:`)), usage = new Set(page.usage && o.showUsage !== false ? indented(`Usage: ${formatUsage("prog", page.usage, { expandCommands: true, maxWidth: maxWidth - 7 })}`, 7).split("\n") : []);
        for (const l of got.text.split("\n")) {
          if (columns(l.trimEnd()) <= maxWidth || usage.has(l) || titles.has(l)) continue;
          let rest = l.trim();
          for (const t of terms.sort((a, b) => b.length - a.length)) if (rest.startsWith(t)) { rest = rest.slice(t.length).trim(); break; }
          assert(!rest.includes(" "), () => `${what}: the line ${show(l)} is over ${maxWidth} columns and could be broken\n${got.text}`);
        }
      },
    },
    {
      // A field bound to a source has the page of the field with the source's default for one.
      name: "sources", runs: { quick: 6000, thorough: 150000 }, async: true,
      arb: (fc) => fc.record({
        fields: fc.array(fc.record({ shape: fc.constantFrom("option", "option", "argument", "two", "group", "titled", "later"), value: fc.constantFrom("x", "", "two words", "0"), wraps: fc.array(fc.record({ kind: fc.constantFrom("env", "config", "derived", "prompt", "plain"), value: fc.constantFrom(null, "d", "", "other words", "0"), text: fc.constantFrom(null, null, "computed", "see below") }), { minLength: 1, maxLength: 3 }) }), { minLength: 1, maxLength: 3 }),
        args: fc.nat(3),
      }),
      async check({ fields, args }, ctx) {
        const envContext = createEnvContext({ source: () => undefined });
        const configContext = createConfigContext({ schema: { "~standard": { version: 1, vendor: "test", validate: (value) => ({ value }) } } });
        const derived = createDerivedDefaults({});
        const make = (bound) => core.object(Object.fromEntries(fields.map((f, i) => {
          const description = core.message`Description ${core.text(String(i))}.`;
          const option = (name) => core.option(name, core.string({ metavar: "TEXT" }), { description });
          let p = f.shape === "argument" ? core.argument(core.string({ metavar: `TEXT${i}` }), { description })
            : f.shape === "two" ? core.or(option(`--f${i}`), option(`--g${i}`))
            : f.shape === "group" ? core.group(`Group ${i}`, option(`--f${i}`))
            : f.shape === "titled" ? core.object(`Titled ${i}`, { f: option(`--f${i}`), g: option(`--g${i}`) })
            : option(`--f${i}`);
          const titled = f.shape === "titled";
          const give = (v) => titled ? { f: v, g: v } : v;
          for (const [j, w0] of f.wraps.entries()) {
            // The outermost default is the one that is shown.
            const w = w0.text && (!bound && f.wraps.slice(j + 1).some((x) => x.value !== null)) ? { ...w0, text: null } : w0;
            const given = w.value === null ? {} : { default: give(w.value) };
            if (w0.kind === "plain" && w0.value === null) continue;
            if (bound && w.kind === "env") p = bindEnv(p, { context: envContext, key: `F${i}_${j}`, parser: core.string(), ...given });
            else if (bound && w.kind === "config") p = bindConfig(p, { context: configContext, key: `f${i}_${j}`, ...given });
            else if (bound && w.kind === "derived") p = bindDerivedDefault(p, { context: derived.context, key: `f${i}_${j}`, ...given, ...(w.text ? { defaultDescription: core.message`${core.text(w.text)}` } : {}) });
            else if (bound && w.kind === "prompt") p = inquirerPrompt(p, { type: "input", message: "?", prompter: () => Promise.resolve("a"), ...given });
            else if (w.kind === "derived" && w.text) p = core.withDefault(p, give("hidden"), { message: core.message`${core.text(w.text)}` });
            else if (w.value !== null) p = core.withDefault(p, give(w.value));
          }
          if (f.shape === "later") p = core.command(`run${i}`, p, { description });
          return [`f${i}`, p];
        })));
        const line = args % 2 ? fields.flatMap((f, i) => f.shape === "later" ? [`run${i}`] : []).slice(0, 1) : [];
        if (fields.every((f) => f.wraps.every((w) => w.kind === "plain"))) ctx.trivial("no source");
        else ctx.label(...new Set(fields.flatMap((f) => [f.shape, ...f.wraps.map((w) => w.kind)])));
        const page = async (p) => { const d = await core.getDocPage(p, line); return { sections: d?.sections }; };
        equal(await page(make(true)), await page(make(false)), `page of ${show(fields)} at ${show(line)}`);
        // Only a value that can be left out is optional in the usage.
        const plain = (f) => f.wraps.every((w) => w.kind !== "prompt" && !(w.kind === "derived" && w.text));
        if (fields.every(plain)) equal(formatUsage("prog", make(true).usage), formatUsage("prog", make(false).usage), `usage of ${show(fields)}`);
      },
    },
    {
      name: "collect", runs: { quick: 12000, thorough: 300000 },
      arb: (fc) => fc.record({ list: fc.array(fc.oneof(docEntryArb(fc), fc.record({ title: fc.constantFrom(null, "A", "B"), entries: fc.array(docEntryArb(fc), { maxLength: 4 }) })), { maxLength: 7 }) }),
      check({ list }, ctx) {
        let n = 0;
        const number = (e) => realEntry({ ...e, n: n++ });
        const fragments = list.map((x) => x.entries ? clean({ type: "section", title: x.title, entries: x.entries.map(number) }) : { type: "entry", ...number(x) });
        const entries = fragments.flatMap((f) => f.entries ?? [f]);
        if (entries.length < 2) ctx.trivial("fewer than two entries");
        equal(deduplicateDocEntries(entries), firsts(entries), "entries");
        // Entries and sections without a title are one scope, every title is another.
        const untitled = new Set(), done = new Set(), want = [];
        for (const f of fragments) {
          if (f.type === "entry") { want.push(...firsts([f], untitled)); continue; }
          if (f.title == null) { const kept = firsts(f.entries, untitled); if (kept.length) want.push({ ...f, entries: kept }); continue; }
          if (done.has(f.title) || !f.entries.some(shown)) continue;
          done.add(f.title);
          want.push({ type: "section", title: f.title, entries: firsts(fragments.filter((g) => g.title === f.title).flatMap((g) => g.entries)) });
        }
        equal(deduplicateDocFragments(fragments), want, "fragments");
        for (const e of entries) { const { type: _, ...q } = e, copy = cloneDocEntry(q); equal(copy, q, "copy"); assert(copy.term !== q.term && copy.description !== q.description, "a copy shares parts"); }
      },
    },
    {
      name: "format", runs: { quick: 10000, thorough: 300000 },
      arb: (fc) => fc.record({ page: pageArb(fc), colors: fc.boolean(), maxWidth: fc.option(fc.integer({ min: 10, max: 100 }), { nil: null }), termIndent: fc.option(fc.nat(6), { nil: null }), termWidth: fc.option(fc.integer({ min: 1, max: 30 }), { nil: null }), showDefault: fc.constantFrom(false, true, { prefix: " (default ", suffix: ")" }), showChoices: fc.constantFrom(false, true, { maxItems: 3 }), showUsage: fc.option(fc.boolean(), { nil: null }) }),
      check({ page: p0, colors, ...o0 }, ctx) {
        const page = realPage(p0), o = clean(o0);
        const { maxWidth, ...wide } = o;
        const whole = formatDocPage("prog", page, wide);
        if (!whole.trim()) return ctx.trivial("empty");
        let got;
        try { got = formatDocPage("prog", page, { ...o, colors }); } catch (e) {
          assert(e instanceof RangeError && maxWidth != null, () => `formatDocPage throws ${e}`);
          return ctx.trivial("width refused");
        }
        ctx.label(colors ? "colors" : "plain", maxWidth ? "wrapped" : "free");
        const bare = strip(got);
        const quoteless = (s) => solid(s).replace(/"/g, "");
        equal(quoteless(bare), quoteless(whole), "text apart from white space");
        if (!colors) assert(!got.includes("\x1b"), "escape sequences without colors");
        if (colors) {
          // every line ends with its colors closed
          assert(!/\x1b\[[1-9][0-9;]*m(?!.*\x1b\[0m)/s.test(got.slice(got.lastIndexOf("\x1b["))), "colors left open at the end");
        }
        for (const s of page.sections) for (const e of s.entries) {
          const names = e.term.names ?? [e.term.name ?? e.term.metavar];
          if (!docHidden(e.term.hidden)) for (const n of names) assert(bare.includes(n), () => `${n} is missing from\n${bare}`);
        }
        if (maxWidth != null) {
          const indent = o.termIndent ?? 2, tw = o.termWidth ?? 26, avail = maxWidth - indent - 2;
          const col = avail - (avail >= tw + 1 ? tw : Math.max(1, Math.floor(avail / 2)));
          const longest = Math.max(...bare.split(/\s+/).map(columns));
          for (const l of bare.split("\n")) {
            const w = columns(l.trimEnd());
            if (w <= maxWidth) continue;
            // a word too long for its column (or for the line) may stick out
            assert(longest > Math.min(col, maxWidth - 7) , () => `the line ${show(l)} is ${w} wide, over ${maxWidth}\n${bare}`);
          }
        }
      },
    },
  ],
};
