import { mkdirSync, rmSync, writeFileSync } from "node:fs";
import { relative } from "node:path";
import * as core from "@optique/core";
import { parse } from "@optique/core/parser";
import { bindEnv, createEnvContext } from "@optique/env";
import { assert, equal, show } from "../lib/harness.mjs";
import { scratch } from "../lib/scratch.mjs";

const NAMES = ["A", "B", "_C", "D1", "e_F2", "__proto__", "toString"];
const OUTER = { A: "outer-a", D1: "", OUT: "o $A `x`", toString: "ts" };
const COMMANDS = { whoami: "dev", "echo $A": "$B", "": "nothing", "a b": "x\ny" };
const EOL = ["\n", "\r\n", "\r"];
const WS = ["", "", " ", "\t", "  \t"];
const TEXT = ["x", "Y z", "#", "a#b", " # ", "=", "'", '"', "\\", "\\n", "é", "𝕏", "{", "}", ")", "!", "export", "\u00a0", "%", "5", "--", " "];

const segArb = (fc) => fc.oneof(
  { weight: 5, arbitrary: fc.record({ k: fc.constant("text"), t: fc.constantFrom(...TEXT) }) },
  { weight: 2, arbitrary: fc.record({ k: fc.constant("var"), n: fc.constantFrom(...NAMES, "OUT", "UNSET"), braces: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("braced"), n: fc.constantFrom("", "A-x", "0", "A B") }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("cmd"), c: fc.constantFrom(...Object.keys(COMMANDS), "fails", "x # y"), tick: fc.boolean() }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("esc"), c: fc.constantFrom("n", "r", "t", "\\", '"', "$", "`", "'", "q", "\n") }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("nl"), e: fc.constantFrom(...EOL) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("dollar"), t: fc.constantFrom("1", "-", " ", "$ ", "é") }) },
);
const entryArb = (fc) => fc.record({
  k: fc.constant("entry"), name: fc.constantFrom(...NAMES), quote: fc.constantFrom("", "", "'", '"', '"'), segs: fc.array(segArb(fc), { maxLength: 5 }), lead: fc.constantFrom(...WS),
  exp: fc.constantFrom(null, null, null, " ", "\t", "  "), before: fc.constantFrom(...WS), after: fc.constantFrom(...WS), tail: fc.constantFrom("", "", " ", "\t ", " # note", " #'\"$(`", " # ünï", "\t# note"), tight: fc.boolean(), eol: fc.nat(2),
});
const itemArb = (fc) => fc.oneof(
  { weight: 8, arbitrary: entryArb(fc) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("blank"), ws: fc.constantFrom(...WS), eol: fc.nat(2) }) },
  { weight: 1, arbitrary: fc.record({ k: fc.constant("comment"), ws: fc.constantFrom(...WS), t: fc.constantFrom("", " A=1", "!\"", "$("), eol: fc.nat(2) }) },
);
const JUNK = ["=x", "1A=x", "A", "A B=x", "-A=1", "A-B=2", "export", "export A", "é=1", "A: 1", 'A="x"y', "A='x' y", 'A="x', "A='x", "A=$(x", 'A="`x"', "A=${B", 'A="${B"', "exportA", "A.B=1", '"A"=1'];
const fileArb = (fc) => fc.record({ items: fc.array(itemArb(fc), { maxLength: 6 }), bom: fc.nat(5), last: fc.boolean(), missing: fc.nat(7), folder: fc.nat(40).map((n) => n === 40), junk: fc.oneof({ weight: 8, arbitrary: fc.constant(null) }, { weight: 1, arbitrary: fc.record({ t: fc.constantFrom(...JUNK), at: fc.nat(6) }) }) });

/** The text of a value and what it denotes, given how to look up names and run commands. */
function value(e, next) {
  const raw = [], mean = [];
  const subst = (s, r, m) => { raw.push(r); mean.push(m); };
  for (const s of e.segs) {
    if (e.quote === "'") {
      // Everything is literal but the quote itself.
      const t = s.k === "text" ? s.t : s.k === "var" ? (s.braces ? `\${${s.n}}` : `$${s.n}`) : s.k === "braced" ? `\${${s.n}}` : s.k === "cmd" ? (s.tick ? `\`${s.c}\`` : `$(${s.c})`) : s.k === "esc" ? `\\${s.c}` : s.k === "nl" ? s.e : `$${s.t}`;
      const clean = t.replaceAll("'", "");
      subst(s, clean, () => clean);
      continue;
    }
    const quoted = e.quote === '"';
    if (s.k === "text") {
      let t = s.t;
      if (quoted) subst(s, t.replace(/["\\]/g, "\\$&"), () => t);
      else {
        // In an unquoted value `#` after a space begins a comment, and a leading quote begins a quoted value.
        t = t.replace(/\s+#/g, "");
        if (raw.join("") === "") t = t.replace(/^[\s'"#]+/, "");
        else if (/\s$/.test(raw.join(""))) t = t.replace(/^#+/, "");
        subst(s, t, () => t);
      }
    } else if (s.k === "var") {
      // What follows a bare name must not continue it.
      if (s.braces) subst(s, `\${${s.n}}`, (lookup) => lookup(s.n) ?? "");
      else subst(s, `$${s.n}.`, (lookup) => `${lookup(s.n) ?? ""}.`);
    } else if (s.k === "braced") subst(s, `\${${s.n}}`, (lookup) => lookup(s.n) ?? "");
    else if (s.k === "cmd") {
      if (!quoted && /#/.test(s.c)) continue;
      subst(s, s.tick ? `\`${s.c}\`` : `$(${s.c})`, (_l, run) => run(s.c));
    } else if (s.k === "esc") {
      if (quoted) subst(s, `\\${s.c}`, () => ({ n: "\n", r: "\r", t: "\t" })[s.c] ?? s.c);
      else if (!/[\n$`'"]/.test(s.c)) subst(s, `\\${s.c}`, () => `\\${s.c}`);
    } else if (s.k === "nl") { if (quoted) subst(s, s.e, () => s.e); }
    else subst(s, `$${s.t}`, () => `$${s.t}`);
  }
  return { raw: raw.join(""), mean: (lookup, run) => mean.map((m) => m(lookup, run)).join("") };
}

/** The text of a file and its entries in order, or the line where reading it must fail. */
function render(f) {
  let text = "", entries = [], bad = null;
  const lineOf = (t) => t.split(/\r\n|\r|\n/).length;
  const items = [...f.items];
  if (f.junk) items.splice(Math.min(f.junk.at, items.length), 0, { k: "junk", t: f.junk.t, eol: 0 });
  items.forEach((e, i) => {
    const eol = i === items.length - 1 && !f.last ? "" : EOL[e.eol];
    if (bad) return;
    // A line must not begin with the second half of a line end.
    if (text.endsWith("\r")) text += " ";
    if (e.k === "junk") {
      // Nothing else of the file matters from here on.
      bad = lineOf(text);
      text += e.t + "\n";
    } else if (e.k === "blank") text += e.ws + eol;
    else if (e.k === "comment") text += `${e.ws}#${e.t}${eol}`;
    else {
      const v = value(e);
      let tail = e.tail;
      if (e.quote && e.tight) tail = tail.trimStart();
      let raw = v.raw, mean = v.mean;
      if (!e.quote) { const cut = raw.trimEnd(); const m = mean; if (cut !== raw) { const lost = raw.length - cut.length; mean = (l, r) => { const s = m(l, r); return s.slice(0, s.length - lost); }; raw = cut; } if (/\s#/.test(tail) === false) tail = tail.replace("#", ""); }
      text += `${e.lead}${e.exp === null ? "" : `export${e.exp}`}${e.name}${e.before}=${e.after}${e.quote}${raw}${e.quote}${tail}${eol}`;
      entries.push({ name: e.name, mean });
    }
  });
  return { text: (f.bom === 0 ? "\ufeff" : "") + text, entries, bad };
}

export default {
  id: "C25",
  title: "Environment files mean what the documented syntax says",
  statement: "createEnvContext({ envFile }) gives every variable the value the file's text denotes: literal in single quotes, escapes and expansion in double quotes, trimmed and cut at a comment otherwise, with names looked up in the real environment first, then in this file so far, then in earlier files. Later files override earlier ones, missing files are skipped, the real environment always wins and is never written, and commands only ever reach the given hook. A file that is not of this form is refused with its path and line.",
  quantifier: [["inputs", "files"], "up to three files of entries in every quoting style with escapes, expansions, substitutions, multi-line values, all line ends, byte order marks, comments and malformed lines"],
  why: "A scanner of quoting, escaping and expansion has combinations that examples cannot cover, and a wrong value is used silently.",
  files: ["packages/env/src/index.ts"],
  mechanism: [["parseEnvFile(), expandEnvValue(), loadEnvFileValues()", "packages/env/src/index.ts"]],
  observe: ["context.source(), a bound option's value, the substitute hook's calls, the error thrown"],
  rule: "some file has a quoted value, an expansion, a substitution, an escape or a malformed line.",
  parts: [{
    name: "values", runs: { quick: 25000, thorough: 400000 },
    arb: (fc) => fc.record({ files: fc.array(fileArb(fc), { minLength: 1, maxLength: 3 }), hook: fc.constantFrom(true, true, true, false), shape: fc.nat(3), prefix: fc.constantFrom("", "", "D", "__"), rel: fc.boolean() }),
    check(c, ctx) {
      const dir = `${scratch()}/env`;
      rmSync(dir, { recursive: true, force: true });
      mkdirSync(dir);
      const called = [], wantCalled = [], vals = new Map(), outer = new Map(Object.entries(OUTER));
      let bad = null;
      const run = (cmd) => { if (!c.hook) return ""; wantCalled.push(cmd); return COMMANDS[cmd] ?? ""; };
      const texts = [];
      c.files.forEach((f, i) => {
        const path = `${dir}/${i}.env`;
        if (f.missing === 0) return;
        if (f.folder) { mkdirSync(path); bad ??= { folder: path }; return; }
        const r = render(f);
        texts.push(r.text);
        writeFileSync(path, r.text);
        if (bad) return;
        const own = new Map();
        const lookup = (n) => outer.get(n) ?? own.get(n) ?? vals.get(n);
        for (const e of r.entries) own.set(e.name, e.mean(lookup, run));
        if (r.bad !== null) bad = { path, line: r.bad };
        for (const [k, v] of own) vals.set(k, v);
      });
      if (!/['"$`]/.test(texts.join("")) && !bad) ctx.trivial("plain values only");
      else ctx.label(bad ? "malformed" : "well-formed", `${c.files.length} files`);
      const paths = c.files.map((_, i) => c.rel ? relative(process.cwd(), `${dir}/${i}.env`) : `${dir}/${i}.env`);
      const substitute = c.hook ? (cmd) => { called.push(cmd); return Object.hasOwn(COMMANDS, cmd) ? COMMANDS[cmd] : undefined; } : undefined;
      const p = paths.length === 1 && c.shape % 2 ? paths[0] : paths;
      const envFile = !c.hook && c.shape < 2 ? p : { paths: p, substitute };
      const before = { ...process.env };
      let context, error;
      try { context = createEnvContext({ source: (k) => outer.get(k), envFile, prefix: c.prefix }); } catch (e) { error = e; }
      equal({ ...process.env }, before, `process.env after ${show(texts)}`);
      if (bad?.folder) return assert(error?.code === "EISDIR", () => `a folder in place of ${bad.folder}: ${error ?? "accepted"}`);
      if (bad) {
        assert(error instanceof SyntaxError, () => `${show(texts)} is malformed at line ${bad.line} of file ${bad.path}, but ${error ? `throws ${error}` : "is accepted"}`);
        assert(error.message.startsWith(`Invalid .env syntax in ${bad.path} at line ${bad.line}: `), () => `${show(texts)} is malformed at line ${bad.line} of ${bad.path}, but the error is ${error.message}`);
        return;
      }
      assert(!error, () => `${show(texts)} is refused: ${error}`);
      equal(called, c.hook ? wantCalled : [], `commands of ${show(texts)}`);
      for (const n of [...NAMES, "OUT", "UNSET", "constructor"]) equal(context.source(n), outer.get(n) ?? vals.get(n), `${n} of ${show(texts)}`);
      // A bound option sees the same, under the prefix.
      for (const n of NAMES) if (n.startsWith(c.prefix)) {
        const want = outer.get(n) ?? vals.get(n);
        const r = parse(core.object({ v: bindEnv(core.option("--v", core.string()), { context, key: n.slice(c.prefix.length), parser: core.string(), default: "dflt!" }) }), [], { annotations: context.getAnnotations() });
        equal(r.success ? r.value.v : r, want ?? "dflt!", `bindEnv of ${n} of ${show(texts)}`);
      }
    },
  }, {
    name: "total", runs: { quick: 25000, thorough: 500000 },
    arb: (fc) => fc.array(fc.oneof(fc.constantFrom("A", "B=", "=", "export ", "'", '"', "`", "$", "$(", ")", "${", "}", "\\", "#", " ", "\n", "\r", "\r\n", "x", "\t", "\ufeff"), fc.string({ unit: "binary", maxLength: 3 })), { maxLength: 25 }),
    check(c, ctx) {
      const text = c.join("").toWellFormed();
      const path = `${scratch()}/t.env`;
      writeFileSync(path, text);
      const lines = text.split(/\r\n|\r|\n/).length;
      let context;
      try { context = createEnvContext({ source: () => undefined, envFile: path, }); } catch (e) {
        ctx.label("refused");
        const m = e instanceof SyntaxError && e.message.startsWith(`Invalid .env syntax in ${path} at line `) && /^(\d+): /.exec(e.message.slice(`Invalid .env syntax in ${path} at line `.length));
        assert(m, () => `${show(text)} throws ${e.stack}`);
        assert(+m[1] >= 1 && +m[1] <= lines, () => `${show(text)} has ${lines} lines, but: ${e.message}`);
        // Nothing after the line in question matters, but for a quoted value that is never closed.
        if (!/unterminated quoted/.test(e.message)) {
          const cut = text.split(/(?<=\r\n|\r(?!\n)|\n)/).slice(0, +m[1] - 1).join("");
          writeFileSync(path, cut);
          assert((() => { try { createEnvContext({ source: () => undefined, envFile: path }); return true; } catch { return false; } })(), () => `${show(text)}: ${e.message}, but the lines before it are already refused`);
        }
        return;
      }
      ctx.label("accepted");
      if (!/=/.test(text)) ctx.trivial("no entry");
      // Adding a comment line and an entry changes nothing but that entry.
      writeFileSync(path, `${text}\n# c\nZZZ="z"\n`);
      const more = createEnvContext({ source: () => undefined, envFile: path });
      for (const n of ["A", "B", "AB", "AA", "x", "_"]) equal(more.source(n), context.source(n), `${n} of ${show(text)} with a line added`);
      equal(more.source("ZZZ"), "z", `ZZZ after ${show(text)}`);
    },
  }],
};
