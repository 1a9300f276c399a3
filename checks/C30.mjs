import { spawnSync } from "node:child_process";
import * as core from "@optique/core";
import { getDocPage } from "@optique/core/parser";
import { generateManPage, generateManPageAsync, generateManPageSync } from "@optique/man";
import { formatDocPageAsMan } from "@optique/man/man";
import { assert, equal, show } from "../lib/harness.mjs";
import { dress, HIDDEN } from "../lib/dress.mjs";
import { assignNames, build, nodeArbs } from "../lib/grammar.mjs";

// ---------------------------------------------------------------- what a man page reader shows
const run = (cmd, args, input) => {
  const r = spawnSync(cmd, args, { input, encoding: "utf8", maxBuffer: 1 << 26 });
  if (r.error || r.status !== 0 && !r.stdout) throw new Error(`${cmd} failed: ${r.error ?? r.stderr}`);
  return r;
};
/** Text with overstrikes to styled characters: [style, char] per line. */
function styled(line) {
  const out = [];
  const cs = [...line];
  for (let i = 0; i < cs.length; i++) {
    if (cs[i + 1] === "\b") {
      let j = i, last = cs[i], under = false, bold = false;
      while (cs[j + 1] === "\b" && j + 2 < cs.length) { if (last === "_" && cs[j + 2] !== "_") under = true; else if (cs[j + 2] === last) bold = true; last = cs[j + 2]; j += 2; }
      out.push([bold ? "b" : under ? "i" : "", last]); i = j;
    } else out.push(["", cs[i]]);
  }
  return out;
}
const UNFANCY = { "\u2010": "-", "\u2212": "-", "\u2019": "'", "\u2018": "`", "\u02c6": "^", "\u02dc": "~", "\u00a0": " " };
/** Words of styled characters: runs of bold are written «b…», of italics «i…». */
function words(chars) {
  let out = "", cur = "";
  const close = () => { if (cur) out += "\u00bb"; cur = ""; };
  for (const [s0, c] of chars) {
    if (/\s/u.test(c)) { close(); if (!out.endsWith(" ")) out += " "; continue; }
    const s = c === "_" || c === "\u00ab" || c === "\u00bb" ? cur : s0;   // a bold "_" looks like an italic one
    if (s !== cur) { close(); if (s) out += `\u00ab${s}:`; cur = s; }
    out += c;
  }
  close();
  return out.trim();
}
function sections(text, plainHeads) {
  const lines = text.split("\n");
  while (lines.length && lines.at(-1).trim() === "") lines.pop();
  while (lines.length && lines[0].trim() === "") lines.shift();
  const top = lines.shift() ?? "", bottom = lines.pop() ?? "";
  const out = [];
  for (const l of lines) {
    if (l.trim() === "") { if (out.length) out.at(-1).body.push(["", " "]); continue; }
    const cs = styled(l).map(([s, c]) => [s, plainHeads ? UNFANCY[c] ?? c : c]);
    if (!/^\s/.test(l)) out.push({ title: cs.map(([, c]) => c).join(""), body: [] });
    else if (!out.length) out.push({ title: null, body: cs });
    else out.at(-1).body.push(["", " "], ...cs);
  }
  const flat = (s) => styled(s).map(([, c]) => plainHeads ? UNFANCY[c] ?? c : c).join("").replace(/\s+/g, " ").trim();
  return { top: flat(top), bottom: flat(bottom), sections: out.map((s) => [s.title, s.body]) };
}
const mandoc = (roff) => sections(run("mandoc", ["-T", "utf8", "-O", "width=900"], roff).stdout, false);
const groff = (roff) => { const r = run("groff", ["-K", "utf8", "-man", "-Tutf8", "-P-c", "-rLL=900n", "-rHY=0"], roff); return sections(r.stdout, true); };

// ---------------------------------------------------------------- what should be there
const chars = (style, s) => [...s].map((c) => [style, c]);
const M = {
  text: (t) => chars("", t.text), optionName: (t) => chars("b", t.optionName),
  optionNames: (t) => t.optionNames.flatMap((n, i) => [...(i ? chars("", ", ") : []), ...chars("b", n)]),
  metavar: (t) => chars("i", t.metavar), value: (t, q) => chars("", q ? `"${t.value}"` : t.value),
  values: (t, q) => t.values.flatMap((v, i) => [...(i ? chars("", " ") : []), ...chars("", q ? `"${v}"` : v)]),
  envVar: (t) => chars("b", t.envVar), commandLine: (t) => chars("b", t.commandLine), lineBreak: () => [["", " "]], url: (t) => chars("i", t.url.href),
};
const msg = (m, quotes = true) => m.flatMap((t) => M[t.type](t, quotes));
const docHidden = (h) => h === true || h === "doc" || h === "help";
const usageHidden = (h) => h === true || h === "usage" || h === "help";
const SP = ["", " "];
function termDoc(t) {
  if (docHidden(t.hidden)) return [];
  if (t.type === "option") return [...t.names.flatMap((n, i) => [...(i ? chars("", ", ") : []), ...chars("b", n)]), ...(t.metavar ? [SP, ...chars("i", t.metavar)] : [])];
  if (t.type === "argument") return chars("i", t.metavar);
  if (t.type === "command") return chars("b", t.name);
  if (t.type === "literal") return chars("", t.value);
  if (t.type === "passthrough") return chars("", "[...]");
  if (t.type === "ellipsis") return chars("", "...");
  const each = t.type === "exclusive" ? t.terms.map((u) => usageDoc(u)).filter((x) => x.length) : [usageDoc(t.terms)].filter((x) => x.length);
  if (!each.length) return [];
  if (t.type === "exclusive") return each.length === 1 ? each[0] : [...chars("", "("), ...each.flatMap((e, i) => [...(i ? chars("", " | ") : []), ...e]), ...chars("", ")")];
  if (t.type === "optional") return [...chars("", "["), ...each[0], ...chars("", "]")];
  if (t.type === "multiple") return t.min < 1 ? [...chars("", "["), ...each[0], ...chars("", " ...]")] : [...each[0], ...chars("", " ...")];
  return each[0];
}
const usageDoc = (u) => u.map(termDoc).filter((x) => x.length).flatMap((x, i) => [...(i ? [SP] : []), ...x]);
function entries(list) {
  return list.flatMap((e) => {
    const term = termDoc(e.term);
    if (!term.length) return [];
    const out = [...term, SP];
    if (e.description) out.push(...msg(e.description));
    if (e.default) out.push(SP, ...chars("", "["), ...msg(e.default), ...chars("", "]"));
    if (e.choices) out.push(SP, ...chars("", "(choices: "), ...msg(e.choices, false), ...chars("", ")"));
    out.push(SP);
    return out;
  });
}
function inferred(list) {
  const kinds = new Set(list.filter((e) => !docHidden(e.term.hidden)).map((e) => e.term.type));
  return kinds.size === 1 && kinds.has("command") ? "COMMANDS" : kinds.size === 1 && kinds.has("argument") ? "ARGUMENTS" : "OPTIONS";
}
/** The pieces of a usage line in order, each with whether it may be left out. */
function pieces(terms, opt = false, out = { atoms: [], dots: 0, bars: 0 }) {
  const put = (style, s, o) => { for (const text of words(chars(style, s)).match(/\u00ab[^\u00bb]*\u00bb|[^\s\u00ab]+/gu) ?? []) out.atoms.push({ text, opt: o }); };
  for (const t of terms) {
    if (usageHidden(t.hidden)) continue;
    const size = () => out.atoms.length + out.dots;
    switch (t.type) {
      case "option": out.bars += t.names.length - 1; for (const n of t.names) put("b", n, true); if (t.metavar) put("i", t.metavar, true); break;
      case "argument": put("i", t.metavar, opt); break;
      case "command": put("b", t.name, opt); break;
      case "literal": put("", t.value, opt); break;
      case "ellipsis": case "passthrough": out.dots++; break;
      case "optional": pieces(t.terms, true, out); break;
      case "sequence": pieces(t.terms, opt, out); break;
      case "multiple": { const n = size(); pieces(t.terms, opt || t.min < 1, out); if (size() > n) out.dots++; break; }
      case "exclusive": { let seen = 0; for (const u of t.terms) { const n = size(); pieces(u, opt, out); if (size() > n) seen++; } if (seen > 1) out.bars += seen - 1; break; }
    }
  }
  return out;
}
/** A usage as nested brackets and parentheses. */
function groups(terms) {
  const put = (style, s) => words(chars(style, s)).match(/\u00ab[^\u00bb]*\u00bb|[^\s\u00ab]+/gu) ?? [];
  return terms.flatMap((t) => {
    if (usageHidden(t.hidden)) return [];
    const inner = t.type === "exclusive" ? null : t.terms && groups(t.terms);
    switch (t.type) {
      case "option": return [["[", ...t.names.flatMap((n, i) => [...(i ? ["|"] : []), ...put("b", n)]), ...(t.metavar ? put("i", t.metavar) : [])]];
      case "argument": return put("i", t.metavar);
      case "command": return put("b", t.name);
      case "literal": return put("", t.value);
      case "ellipsis": return ["..."];
      case "passthrough": return [["[", "..."]];
      case "optional": return inner.length ? [["[", ...inner]] : [];
      case "sequence": return inner;
      case "multiple": return !inner.length ? [] : t.min < 1 ? [["[", ...inner, "..."]] : [...inner, "..."];
      case "exclusive": { const e = t.terms.map((u) => groups(u)).filter((x) => x.length); return e.length < 2 ? e.flat() : [["(", ...e.flatMap((x, i) => [...(i ? ["|"] : []), ...x])]]; }
    }
  });
}
/** Brackets right within brackets say nothing more; those around something repeated do. */
function simple(list) {
  return list.map((x) => {
    if (!Array.isArray(x)) return x;
    const [kind, ...rest] = [x[0], ...simple(x.slice(1))];
    const dots = rest.slice(1).every((y) => y === "...") ? rest.length - 1 : -1;
    if (kind === "[" && Array.isArray(rest[0]) && rest[0][0] === "[" && (dots === 0 || dots > 0 && rest[0].at(-1) !== "...")) return [...rest[0], ...rest.slice(1)];
    return [kind, ...rest];
  });
}
function readGroups(text) {
  const stack = [[]];
  for (const m of text.matchAll(/\u00ab([bi]):([^\u00bb]*)\u00bb|(\.\.\.)|([[\]()|])|([^\s\u00ab[\]()|]+)/gu)) {
    if (m[4] === "[" || m[4] === "(") { const g = [m[4]]; stack.at(-1).push(g); stack.push(g); }
    else if (m[4] === "]" || m[4] === ")") stack.pop();
    else stack.at(-1).push(m[0]);
  }
  return stack[0];
}
function readUsage(text) {
  const out = { atoms: [], dots: 0, bars: 0 };
  let depth = 0, parens = 0;
  const re = /\u00ab([bi]):([^\u00bb]*)\u00bb|(\.\.\.)|([[\]()|])|([^\s\u00ab[\]()|]+)/gu;
  for (const m of text.matchAll(re)) {
    if (m[3]) out.dots++;
    else if (m[4]) { if (m[4] === "|") out.bars++; else if (m[4] === "[") depth++; else if (m[4] === "]") depth--; else if (m[4] === "(") parens++; else parens--; assert(depth >= 0 && parens >= 0, () => `unbalanced usage ${show(text)}`); }
    else out.atoms.push({ text: m[0], opt: depth > 0 });
  }
  assert(depth === 0 && parens === 0, () => `unbalanced usage ${show(text)}`);
  return out;
}
function expected(page, o) {
  const out = [];
  const pick = (k) => o[k] ?? page[k];
  out.push(["NAME", [...chars("", o.name), ...(pick("brief") ? [...chars("", " - "), ...msg(pick("brief"))] : [])]]);
  if (page.usage) out.push(["SYNOPSIS", page.usage]);
  const add = (t, m) => { if (m) out.push([t, msg(m)]); };
  const list = (t, s) => { if (!s) return; const b = entries(s.entries); if (words(b)) out.push([t, b]); };
  add("DESCRIPTION", pick("description"));
  for (const s of page.sections) list(s.title?.toUpperCase() ?? inferred(s.entries), s);
  list("ENVIRONMENT", o.environment); list("FILES", o.files); list("EXIT STATUS", o.exitStatus);
  add("EXAMPLES", pick("examples")); add("BUGS", pick("bugs"));
  if (o.seeAlso?.length) out.push(["SEE ALSO", o.seeAlso.flatMap((r, i) => [...(i ? chars("", ", ") : []), ...chars("b", r.name), ...chars("", `(${r.section})`)])]);
  add("AUTHOR", pick("author"));
  if (pick("footer")) out.at(-1)[1] = Object.assign([...out.at(-1)[1], SP, ...msg(pick("footer"))], { usage: page.usage, foot: out.at(-1)[0] === "SYNOPSIS" });
  return out;
}
function compare(seen, page, o, who, roff, skipStyle) {
  const at = (what) => `${who}: ${what}\n${roff}`;
  const want = expected(page, o);
  equal(seen.sections.map(([t]) => t?.trim().replace(/\s+/g, " ")), want.map(([t]) => t.trim().replace(/\s+/g, " ")), at("sections"));
  for (const [i, [title, body]] of want.entries()) {
    const got = words(seen.sections[i][1]);
    if (title === "SYNOPSIS") {
      const lead = words(chars("b", o.name));
      assert(got.startsWith(lead), () => at(`SYNOPSIS ${show(got)} does not start with the program's name`));
      let rest = got.slice(lead.length);
      if (body.foot) { const foot = words(body.slice(page.usage.length)); assert(rest.endsWith(foot), () => at(`${show(got)} does not end with the footer ${show(foot)}`)); rest = rest.slice(0, rest.length - foot.length); }
      equal(readUsage(rest), pieces(page.usage), at("SYNOPSIS"));
      equal(simple(readGroups(rest)), simple(groups(page.usage)), at("brackets of the SYNOPSIS"));
    } else equal(got, words(body), at(title));
  }
  assert(seen.top.startsWith(`${o.name.toUpperCase()}(${o.section})`) && seen.top.endsWith(`${o.name.toUpperCase()}(${o.section})`), () => at(`header ${show(seen.top)}`));
  if (o.manual) assert(seen.top.includes(o.manual.replace(/\s+/g, " ").trim()), () => at(`header ${show(seen.top)} lacks ${show(o.manual)}`));
  if (o.version) assert(seen.bottom.startsWith(`${o.name} ${o.version}`.replace(/\s+/g, " ").trim()), () => at(`footer ${show(seen.bottom)} lacks ${show(o.version)}`));
  if (typeof o.date === "string" && o.date) assert(seen.bottom.includes(o.date), () => at(`footer ${show(seen.bottom)} lacks ${show(o.date)}`));
}

// ---------------------------------------------------------------- generated pages
const TEXTS = [".", ".SH FOO", "'", "'x", "\\", "\\fB", "\\n", "\\&.", "\"", "\"q\"", "a", "word", "the end.", " ", "  ", "\n", "\n\n", "\n.TP\n", "\n'tis", "\n\n.x", "\n\n\n", "-", "--x", "\u65e5\u672c", "\u00e9", "\\(dq", "\\*(X", "^", "~", "`", ".PP", "1,2", "...", "\t", "\\", "#", "\r\n"];
const text = (fc, max = 5) => fc.array(fc.constantFrom(...TEXTS), { minLength: 1, maxLength: max }).map((w) => w.join(""));
const LINE = TEXTS.filter((t) => !/[\n\r]/.test(t));
const line = (fc, max = 3) => fc.array(fc.constantFrom(...LINE, "x"), { minLength: 1, maxLength: max }).map((w) => w.join("")).filter((s) => s.trim() !== "");
const tight = (fc, max = 3) => fc.array(fc.constantFrom(...LINE.filter((t) => !/\s/.test(t))), { minLength: 1, maxLength: max }).map((w) => w.join(""));
const optName = (fc) => fc.oneof(fc.constantFrom("-a", "--all", "--a-b", "/x", "+p", "--", "-", "--.x", "/\\a", "--no\\fRx", "-'", "--a\"b").filter((n) => n !== "--"), tight(fc, 2).map((t) => `--${t}`));
const metavar = (fc) => fc.oneof(fc.constantFrom("FILE", ".X", "'Y", "A\\B", "A B", "\"Q\"", "A-B"), tight(fc, 2));
const messageArb = (fc, max = 5) => fc.array(fc.oneof(
  { weight: 4, arbitrary: text(fc).map((t) => ({ type: "text", text: t })) },
  { weight: 1, arbitrary: optName(fc).map((n) => ({ type: "optionName", optionName: n })) },
  { weight: 1, arbitrary: fc.array(optName(fc), { minLength: 1, maxLength: 3 }).map((n) => ({ type: "optionNames", optionNames: n })) },
  { weight: 1, arbitrary: metavar(fc).map((m) => ({ type: "metavar", metavar: m })) },
  { weight: 2, arbitrary: text(fc, 3).map((v) => ({ type: "value", value: v })) },
  { weight: 1, arbitrary: fc.array(text(fc, 2), { minLength: 1, maxLength: 3 }).map((v) => ({ type: "values", values: v })) },
  { weight: 1, arbitrary: fc.constantFrom("HOME", "MY_VAR", "X").map((v) => ({ type: "envVar", envVar: v })) },
  { weight: 1, arbitrary: line(fc).map((c) => ({ type: "commandLine", commandLine: c })) },
  { weight: 1, arbitrary: fc.constant({ type: "lineBreak" }) },
  { weight: 1, arbitrary: fc.constantFrom("https://e.com/", "https://e.com/a-b?c=%5C&d='x", "http://x/.y").map((u) => ({ type: "url", url: u })) },
), { minLength: 1, maxLength: max }).filter((m) => m.some((t) => t.type !== "lineBreak" && !(t.type === "text" && t.text.trim() === "")));
function termArb(fc) {
  const hidden = fc.constantFrom(...HIDDEN, undefined, undefined, undefined, undefined, undefined);
  const leaf = fc.oneof(
    fc.record({ type: fc.constant("option"), names: fc.array(optName(fc), { minLength: 1, maxLength: 3 }), metavar: fc.option(metavar(fc), { nil: undefined, freq: 1 }), hidden }),
    fc.record({ type: fc.constant("argument"), metavar: metavar(fc), hidden }),
    fc.record({ type: fc.constant("command"), name: fc.oneof(fc.constantFrom("add", ".init", "'x", "a\\b", "re-move"), tight(fc, 2)), hidden }),
    fc.record({ type: fc.constant("literal"), value: fc.constantFrom("lit", ".lit", "'lit", "a\\b", "x-y") }),
    fc.record({ type: fc.constant("passthrough"), hidden }),
    fc.constant({ type: "ellipsis" }));
  return fc.letrec((tie) => ({
    term: fc.oneof({ depthSize: "small" }, { weight: 4, arbitrary: leaf },
      fc.record({ type: fc.constant("optional"), terms: tie("terms") }),
      fc.record({ type: fc.constant("multiple"), terms: tie("terms"), min: fc.constantFrom(0, 1, 2) }),
      fc.record({ type: fc.constant("sequence"), terms: tie("terms") }),
      fc.record({ type: fc.constant("exclusive"), terms: fc.array(tie("terms"), { minLength: 1, maxLength: 3 }) })),
    terms: fc.array(tie("term"), { minLength: 1, maxLength: 3 }),
  }));
}
const pageArb = (fc) => {
  const { term, terms } = termArb(fc);
  const maybe = (a) => fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: a });
  const m = () => maybe(messageArb(fc));
  const entry = fc.record({ term, description: fc.oneof(fc.constant(null), messageArb(fc), messageArb(fc)), default: maybe(messageArb(fc, 2)), choices: maybe(fc.array(text(fc, 2), { minLength: 1, maxLength: 3 }).map((vs) => vs.flatMap((v, i) => [...(i ? [{ type: "text", text: ", " }] : []), { type: "value", value: v }]))) });
  const section = fc.record({ title: maybe(line(fc).filter((t) => t === t.trim())), entries: fc.array(entry, { maxLength: 3 }) });
  const bare = fc.array(entry, { maxLength: 2 }).map((es) => ({ entries: es }));
  const name = fc.oneof(fc.constantFrom("app", "my-app", ".rc", "'q", "a\\b"), tight(fc, 2));
  const messages = { brief: m(), description: m(), examples: m(), author: m(), bugs: m(), footer: m() };
  return fc.record({
    page: fc.record({ ...messages, usage: maybe(terms), sections: fc.array(section, { maxLength: 3 }) }),
    options: fc.record({ ...messages, name, section: fc.integer({ min: 1, max: 8 }), date: maybe(fc.constantFrom("January 2026", "2026-01-02", "a\"b\\c", "")), version: maybe(fc.oneof(fc.constantFrom("1.0.0", "1.0-rc", "\\x\"", ""), tight(fc, 2))), manual: maybe(fc.oneof(fc.constantFrom("User Commands", "A \"b\" \\c"), tight(fc, 2))), environment: maybe(bare), files: maybe(bare), exitStatus: maybe(bare),
      seeAlso: maybe(fc.array(fc.record({ name, section: fc.integer({ min: 1, max: 8 }) }), { maxLength: 3 })) }),
    groff: fc.integer({ min: 0, max: 3 }),
  });
};
const clean = (o) => Array.isArray(o) ? o.map(clean) : o && typeof o === "object" ? Object.fromEntries(Object.entries(o).filter(([, v]) => v != null).map(([k, v]) => [k, k === "url" && typeof v === "string" ? new URL(v) : clean(v)])) : o;

// ---------------------------------------------------------------- generated programs
const grammarArb = (fc) => fc.record({
  spec: nodeArbs(fc).cmdRoot, hid: fc.array(fc.nat(HIDDEN.length + 12), { minLength: 1, maxLength: 8 }), isAsync: fc.boolean(),
  name: fc.constantFrom("app", "my-app"), given: fc.subarray(["name", "version", "brief", "description", "examples", "author", "bugs", "footer"]), meta: fc.subarray(["version", "brief", "description", "examples", "author", "bugs", "footer"]),
});
const txt = (s) => [{ type: "text", text: s }];

export default {
  id: "C30",
  title: "A man page shows exactly the program's documentation, whatever its text",
  statement: "The roff text made from a documentation page, rendered by a man page viewer (mandoc and groff), shows NAME, SYNOPSIS, DESCRIPTION, the page's sections, ENVIRONMENT, FILES, EXIT STATUS, EXAMPLES, BUGS, SEE ALSO, AUTHOR and the footer in this order and those only that have content; each with exactly its text, no character of which is read as a formatting instruction, option names, commands and variables bold and metavariables italic; SYNOPSIS has every visible part of the usage once and in order, in balanced brackets exactly when it may be left out. Metadata of a program, overridden by options, a synchronous or asynchronous parser and getDocPage() all lead to the same page.",
  quantifier: [["programs", "inputs"], "random documentation pages and options with text full of roff syntax; random grammars with random visibility and metadata; rendered by two independent viewers"],
  why: "Any text at the start of a line or next to a line break can turn into a roff request; tests compare generated markup for a few texts and never render it.",
  files: ["packages/man/src/man.ts", "packages/man/src/roff.ts", "packages/man/src/generator.ts"],
  mechanism: [["formatMessageAsRoff(), escapeRoff() and escapeRequestArg()", "packages/man/src/roff.ts"], ["formatDocPageAsMan()", "packages/man/src/man.ts"], ["generateManPage()", "packages/man/src/generator.ts"]],
  observe: ["text, fonts and sections shown by mandoc and groff"],
  rule: "trivial if the page has neither a usage line, nor a message, nor an entry",
  assumptions: ["mandoc and groff stand for man page viewers; runs of white space are one, and underscores are not judged for their font"],
  parts: [
    {
      name: "pages", runs: { quick: 4000, thorough: 60000 },
      arb: pageArb,
      check(c, ctx) {
        const page = clean(c.page), o = clean(c.options);
        const roff = formatDocPageAsMan(page, o);
        if (!page.usage && !page.sections.some((s) => s.entries.length) && !["brief", "description", "examples", "author", "bugs", "footer"].some((k) => page[k] ?? o[k])) ctx.trivial("nothing on the page");
        if (page.usage) ctx.label("usage");
        if (page.sections.some((s) => s.entries.length)) ctx.label("entries");
        compare(mandoc(roff), page, o, "mandoc", roff);
        if (c.groff === 0) { ctx.label("groff"); compare(groff(roff), page, o, "groff", roff); }
      },
    },
    {
      name: "programs", runs: { quick: 2000, thorough: 30000 },
      arb: grammarArb,
      async: true,
      async check(c, ctx) {
        const spec = dress(assignNames(c.spec), c.hid);
        const parser = build(spec, { isAsync: () => c.isAsync });
        const given = Object.fromEntries(c.given.map((k) => [k, k === "name" ? "other" : k === "version" ? "2.0" : txt(`given ${k}`)]));
        const meta = { name: c.name, ...Object.fromEntries(c.meta.map((k) => [k, k === "version" ? "1.0" : txt(`meta ${k}`)])) };
        const o = { ...meta, ...given, section: 1 };
        const page = await getDocPage(parser);
        const roff = await generateManPage(parser, o);
        equal(roff, formatDocPageAsMan(page ?? { sections: [] }, o), "generateManPage() and formatDocPageAsMan()");
        equal(await generateManPageAsync(parser, o), roff, "generateManPageAsync()");
        equal(await generateManPage({ parser, metadata: meta }, { section: 1, ...given }), roff, "generateManPage() of a Program");
        if (parser.mode === "sync") { equal(generateManPageSync(parser, o), roff, "generateManPageSync()"); equal(typeof generateManPage(parser, o), "string", "result of a sync parser"); }
        else { let e; try { generateManPageSync(parser, o); } catch (x) { e = x; } assert(e instanceof TypeError, () => `generateManPageSync() of an async parser: ${show(e)}`); ctx.label("async"); }
        if (!page?.usage?.length && !page?.sections?.length) ctx.trivial("empty page");
        compare(mandoc(roff), page, o, "mandoc", roff);
      },
    },
    {
      name: "refused", runs: { quick: 300, thorough: 1000 },
      arb: (fc) => fc.record({ page: pageArb(fc), bad: fc.oneof(fc.constantFrom(0, 9, -1, 1.5, "1", null, undefined, NaN, Infinity).map((v) => ({ section: v === undefined ? "undef" : Number.isFinite(v) || typeof v === "string" || v === null ? v : String(v) })), fc.constantFrom(0, 9, 2.5, "3").map((v) => ({ see: v })), fc.constant({ name: "" })) }),
      check(c, ctx) {
        const page = clean(c.page.page), o = clean(c.page.options);
        if ("name" in c.bad) o.name = ""; else if ("see" in c.bad) o.seeAlso = [...(o.seeAlso ?? []), { name: "x", section: c.bad.see }]; else o.section = c.bad.section === "undef" ? undefined : c.bad.section === "NaN" ? NaN : c.bad.section;
        let e; try { formatDocPageAsMan(page, o); } catch (x) { e = x; }
        assert("name" in c.bad ? e instanceof TypeError : e instanceof RangeError, () => `formatDocPageAsMan() with ${show(c.bad)}: ${show(e)}`);
        ctx.label(Object.keys(c.bad)[0]);
      },
    },
  ],
};
