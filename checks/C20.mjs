import * as core from "@optique/core/message";
import { assert, equal, show } from "../lib/harness.mjs";

// ---- building blocks whose width on a terminal is beyond dispute
const GLYPHS = [["a", 1], ["Z", 1], ["-", 1], [".", 1], ["\u65e5", 2], ["\ud55c", 2], ["\uff21", 2], ["e\u0301", 1], ["\uff76", 1], ["\uff76\uff9e", 2], ["\ud83d\ude00", 2],
  ["\ud83d\udc68\u200d\ud83d\udc69\u200d\ud83d\udc67", 2], ["\ud83c\uddf0\ud83c\uddf7", 2], ["1\ufe0f\u20e3", 2], ["\u2764\ufe0f", 2], ["\u200b", 0], ["\u2702", 1], ["\u00e9", 1], ["\u0436", 1], ["\ud840\udc0b", 2]];
const KINDS = ["text", "text", "text", "optionName", "optionNames", "metavar", "value", "values", "envVar", "commandLine", "lineBreak", "url"];

/** Characters of two columns (East Asian Width W or F in Unicode 15.0), and some of one column. */
const ranges = (s) => s.split(",").map((r) => { const [a, b = a] = r.split("-").map((x) => parseInt(x, 16)); return [a, b]; });
const WIDE = ranges("1100-115f,231a-231b,2329-232a,23e9-23ec,23f0,23f3,25fd-25fe,2614-2615,2648-2653,267f,2693,26a1,26aa-26ab,26bd-26be,26c4-26c5,26ce,26d4,26ea,26f2-26f3,26f5,26fa,26fd,2705,270a-270b,2728,274c,274e,2753-2755,2757,2795-2797,27b0,27bf,2b1b-2b1c,2b50,2b55,2e80-2e99,2e9b-2ef3,2f00-2fd5,2ff0-2ffb,3000-303e,3041-3096,3099-30ff,3105-312f,3131-318e,3190-31e3,31f0-321e,3220-3247,3250-4dbf,4e00-a48c,a490-a4c6,a960-a97c,ac00-d7a3,f900-fa6d,fa70-fad9,fe10-fe19,fe30-fe52,fe54-fe66,fe68-fe6b,ff01-ff60,ffe0-ffe6,16fe0-16fe4,16ff0-16ff1,17000-187f7,18800-18cd5,18d00-18d08,1aff0-1aff3,1aff5-1affb,1affd-1affe,1b000-1b122,1b132,1b150-1b152,1b155,1b164-1b167,1b170-1b2fb,1f004,1f0cf,1f18e,1f191-1f19a,1f200-1f202,1f210-1f23b,1f240-1f248,1f250-1f251,1f260-1f265,1f300-1f320,1f32d-1f335,1f337-1f37c,1f37e-1f393,1f3a0-1f3ca,1f3cf-1f3d3,1f3e0-1f3f0,1f3f4,1f3f8-1f43e,1f440,1f442-1f4fc,1f4ff-1f53d,1f54b-1f54e,1f550-1f567,1f57a,1f595-1f596,1f5a4,1f5fb-1f64f,1f680-1f6c5,1f6cc,1f6d0-1f6d2,1f6d5-1f6d7,1f6dc-1f6df,1f6eb-1f6ec,1f6f4-1f6fc,1f7e0-1f7eb,1f7f0,1f90c-1f93a,1f93c-1f945,1f947-1f9ff,1fa70-1fa7c,1fa80-1fa88,1fa90-1fabd,1fabf-1fac5,1face-1fadb,1fae0-1fae8,1faf0-1faf8,20000-2a6df,2a700-2b739,2b740-2b81d,2b820-2cea1,2ceb0-2ebe0,2f800-2fa1d");
const NARROW = ranges("21-7e,a1-ac,ae-2ff,370-377,391-3a1,400-482,531-556,5d0-5ea,2010-2027,2190-2319,2400-2426,2500-25fc,2801-28ff,303f,a500-a62b,ff61-ff9d,ffe8-ffee,10400-1049d,1d400-1d454,1f0a1-1f0ae");
/** Sequences of several characters that are shown as one, with their columns. */
const SEQUENCES = [...[..."0123456789#*"].flatMap((k) => [[`${k}\u20e3`, 2], [`${k}\ufe0f\u20e3`, 2]]), ["\u231a\ufe0e", 1], ["\u231a\ufe0f", 2], ["\u2714", 1], ["\u2714\ufe0f", 2], ["\uff8a\uff9f", 2], ["\uff76\uff9e", 2], ["e\u0301\u0323", 1], ["\u65e5\u0301", 2],
  ["\u200b", 0], ["\u00ad", 0], ["\u2060", 0], ["\ufeff", 0], ["\u0301", 0], ["\u0007", 0], ["\u009f", 0], ["\ud83c\uddef\ud83c\uddf5", 2], ["\ud83d\udc4d\ud83c\udffd", 2], ["\ud83d\udc69\u200d\ud83d\ude80", 2], ["\ud83c\udff4\u200d\u2620\ufe0f", 2],
  ["\x1b[31m", 0], ["\x1b[38:2::1:2:3m", 0], ["\x1b[2K", 0], ["\x1b]8;;https://example.com\x1b\\", 0], ["\x1b]0;title\x07", 0]];

/** What every term prints as, and where a line may be broken. */
function pieces(terms, quotes) {
  const q = (s) => quotes ? `\`${s}\`` : s;
  const out = [];
  let broke = false;
  for (const t of terms) {
    const after = broke;
    broke = false;
    switch (t.type) {
      case "text": {
        let s = t.text;
        if (after && s[0] === "\n" && s[1] !== "\n") s = s.slice(1);
        const paras = s.split(/\n{2,}/);
        paras.forEach((p, i) => {
          if (i > 0) out.push({ hard: after && i === 1 ? 1 : 2 });
          const one = p.replaceAll("\n", " ");
          if (one.trim() === "" && one !== "") { if (paras.length === 1) out.push({ text: " ", kind: "text" }); }
          else if (one !== "") out.push({ text: one, kind: "text", words: true });
        });
        break;
      }
      case "optionName": out.push({ text: q(t.optionName), kind: t.type }); break;
      case "optionNames": t.optionNames.forEach((n, i) => { if (i) out.push({ text: "/", kind: "sep" }); out.push({ text: q(n), kind: "optionName" }); }); break;
      case "metavar": out.push({ text: q(t.metavar), kind: t.type }); break;
      case "value": out.push({ text: quotes ? JSON.stringify(t.value) : t.value, kind: t.type }); break;
      case "values": t.values.forEach((n, i) => { if (i) out.push({ text: " ", kind: "sep" }); out.push({ text: quotes ? JSON.stringify(n) : n, kind: "value" }); }); break;
      case "envVar": out.push({ text: q(t.envVar), kind: t.type }); break;
      case "commandLine": out.push({ text: q(t.commandLine), kind: t.type }); break;
      case "lineBreak": out.push({ hard: 1 }); broke = true; break;
      case "url": out.push({ text: quotes ? `<${t.url.href}>` : t.url.href, kind: t.type, link: t.url.href }); break;
    }
  }
  return out;
}
const plainOf = (ps) => ps.map((p) => p.hard ? "\n".repeat(p.hard) : p.text).join("");

/** A tiny terminal: every printed character with its style and link. */
function screen(s) {
  const out = [];
  let style = [], link = "";
  for (let i = 0; i < s.length;) {
    const sgr = /^\x1b\[([0-9;]*)m/.exec(s.slice(i, i + 20));
    if (sgr) { for (const c of sgr[1].split(";")) style = c === "" || c === "0" ? [] : [...new Set([...style, c])].sort(); i += sgr[0].length; continue; }
    if (s.startsWith("\x1b]8;;", i)) { const e = s.indexOf("\x1b\\", i + 5); assert(e > 0, `an unterminated link in ${show(s)}`); link = s.slice(i + 5, e); i = e + 2; continue; }
    assert(s[i] !== "\x1b", `an unknown escape sequence in ${show(s)}`);
    out.push({ c: s[i], style: style.join(";"), link });
    i++;
  }
  return { out, style: style.join(";"), link };
}

const real = (t) => t.k === "text" ? core.text(t.s) : t.k === "optionName" ? core.optionName(t.s) : t.k === "optionNames" ? core.optionNames(t.list) : t.k === "metavar" ? core.metavar(t.s)
  : t.k === "value" ? core.value(t.s) : t.k === "values" ? core.values(t.list) : t.k === "envVar" ? core.envVar(t.s) : t.k === "commandLine" ? core.commandLine(t.s) : t.k === "lineBreak" ? core.lineBreak() : core.url(t.s);
const termArb = (fc, str, textStr, name) => fc.oneof(...KINDS.map((k) =>
  k === "lineBreak" ? fc.constant({ k }) :
  k === "url" ? fc.constantFrom({ k, s: "https://example.com/" }, { k, s: "https://example.com/a/rather/long/path?q=1#x" }, { k, s: "mailto:me@example.org" }) :
  k === "text" ? textStr.map((s) => ({ k, s })) :
  k === "optionNames" ? fc.array(name, { maxLength: 3 }).map((list) => ({ k, list })) :
  k === "values" ? fc.array(str, { minLength: 1, maxLength: 4 }).map((list) => ({ k, list })) :
  k === "value" ? str.map((s) => ({ k, s })) : name.map((s) => ({ k, s }))));

export default {
  id: "C20",
  title: "Messages print exactly their content, wrapped and styled without damage",
  statement: "formatMessage() prints the text and terms of a message in order: a single newline in text is a space, two or more are a blank line, lineBreak() is one newline, names and values are quoted unless quotes are off. Colors add only escape sequences: plain text keeps the surrounding style, every other term is styled, and each style and link ends with its term. With a maximum width, newlines are added only between words or terms and only where needed, and no line is wider in terminal columns unless one word is; message templates and valueSet() keep every value in order.",
  quantifier: [["inputs", "configurations"], "random messages of all term kinds with wide, combining and zero-width characters, control characters and newlines, times quotes, colors, reset suffix and width"],
  why: "Tests format a few fixed messages; wrapping, quoting and styling interact at every boundary between terms and lines.",
  files: ["packages/core/src/message.ts", "packages/core/src/displaywidth.ts"],
  mechanism: [["formatMessage()", "packages/core/src/message.ts"], ["message`` and valueSet()", "packages/core/src/message.ts"], ["getDisplayWidth()", "packages/core/src/displaywidth.ts"]],
  observe: ["formatMessage() output", "the terms of a Message"],
  rule: "plain: the message has at least two terms; styles: some term is not text; width: at least one line had to be broken; template: a value is interpolated; list: there is at least one value.",
  assumptions: ["Widths are checked for characters whose column count terminals agree on."],
  parts: [
    {
      name: "plain",
      runs: { quick: 20000, thorough: 600000 },
      arb: (fc) => {
        const s = fc.oneof(fc.string({ unit: "grapheme", maxLength: 8 }), fc.string({ unit: fc.constantFrom("a", "\"", "\\", "\n", "\t", "\u0007", "`", "'", " "), maxLength: 8 }));
        const t = fc.string({ unit: fc.oneof({ weight: 3, arbitrary: fc.constantFrom("word", "a", " ", " ", "\n", "\n\n", "\n\n\n", ".", "\t") }, fc.string({ unit: "grapheme", minLength: 1, maxLength: 1 })), maxLength: 8 });
        return fc.record({ terms: fc.array(termArb(fc, s, t, fc.string({ unit: "grapheme-ascii", minLength: 1, maxLength: 6 })), { maxLength: 7 }), quotes: fc.constantFrom(undefined, true, false) });
      },
      check(c, ctx) {
        const msg = c.terms.map(real);
        if (msg.length < 2) ctx.trivial("fewer than two terms");
        const ps = pieces(msg, c.quotes ?? true);
        const want = plainOf(ps);
        const got = core.formatMessage(msg, c.quotes === undefined ? undefined : { quotes: c.quotes });
        // Blank edges of a paragraph may be dropped, nothing else.
        equal(got, want, `printed form of ${show(msg)}`);
        equal(core.formatMessage(core.cloneMessage(msg), { quotes: c.quotes }), got, "printed form of the clone");
      },
    },
    {
      name: "styles",
      runs: { quick: 20000, thorough: 600000 },
      arb: (fc) => {
        const s = fc.string({ unit: fc.constantFrom("a", "b", "-", "\u65e5"), minLength: 1, maxLength: 6 });
        const t = fc.array(fc.constantFrom("some", "text", " ", " ", "\n", "\n\n", "."), { maxLength: 6 }).map((a) => a.join(""));
        return fc.record({ terms: fc.array(termArb(fc, s, t, s), { maxLength: 7 }), quotes: fc.boolean(), suffix: fc.constantFrom(null, "", "\x1b[2m", "\x1b[7;31m"), width: fc.constantFrom(undefined, undefined, 5, 12, 40) });
      },
      check(c, ctx) {
        const msg = c.terms.map(real);
        if (msg.every((t) => t.type === "text" || t.type === "lineBreak")) ctx.trivial("text only");
        const opt = { quotes: c.quotes, ...(c.width ? { maxWidth: c.width } : {}) };
        const plain = core.formatMessage(msg, opt);
        const base = c.suffix ?? "";
        const outer = screen(base).style;
        const printed = base + core.formatMessage(msg, { ...opt, colors: c.suffix === null ? true : { resetSuffix: c.suffix } });
        const scr = screen(printed);
        equal(scr.out.map((x) => x.c).join(""), plain, `colored text of ${show(msg)}`);
        assert(scr.style === outer && scr.link === "", () => `after ${show(msg)} the style is ${show(scr.style)} and the link ${show(scr.link)}: ${show(printed)}`);
        // Walk the pieces along the screen.
        let at = 0;
        const byKind = {};
        const norm = pieces(msg, c.quotes).filter((p) => !p.hard).map((p) => ({ ...p, text: p.text.replace(/\s/g, "") }));
        const cells = scr.out.filter((x) => !/\s/.test(x.c));
        for (const p of norm) {
          for (let i = 0; i < p.text.length; i++) {
            const x = cells[at++];
            assert(x && x.c === p.text[i], () => `lost track of ${show(p)} in ${show(printed)}`);
            if (p.kind === "text") assert(x.style === outer && x.link === "", () => `text of ${show(msg)} is styled ${x.style} ${x.link}: ${show(printed)}`);
            else if (p.kind === "url") assert(x.link === p.link, () => `${show(p)} links to ${show(x.link)}`);
            else if (p.kind !== "sep") {
              assert(x.style !== outer && x.link === "", () => `${show(p)} is not styled in ${show(printed)}`);
              byKind[p.kind] ??= x.style;
              assert(byKind[p.kind] === x.style, () => `${p.kind} is styled differently within ${show(printed)}`);
            }
          }
        }
      },
    },
    {
      name: "width",
      runs: { quick: 20000, thorough: 600000 },
      arb: (fc) => {
        const word = fc.array(fc.oneof({ weight: 4, arbitrary: fc.constantFrom(0, 1, 2, 3) }, fc.nat({ max: GLYPHS.length - 1 })), { minLength: 1, maxLength: 8 }).map((a) => a.map((i) => GLYPHS[i][0]).join(""));
        const txt = fc.array(fc.oneof({ weight: 3, arbitrary: word }, fc.constantFrom("\n\n", "\n")), { minLength: 1, maxLength: 8 }).chain((ws) => fc.constantFrom(["", ""], [" ", ""], ["", " "], [" ", " "], ["  ", "  "]).map(([a, b]) => a + ws.join(" ") + b));
        return fc.record({ terms: fc.array(termArb(fc, word, txt, word), { minLength: 1, maxLength: 7 }), quotes: fc.boolean(), colors: fc.boolean(), width: fc.integer({ min: 1, max: 40 }) });
      },
      check(c, ctx) {
        const msg = c.terms.map(real);
        const opt = { quotes: c.quotes };
        const plain = core.formatMessage(msg, opt);
        const wrapped = screen(core.formatMessage(msg, { ...opt, maxWidth: c.width, colors: c.colors })).out.map((x) => x.c).join("");
        // Where may lines break, and how wide is each unbreakable piece?
        const chunks = [];
        for (const p of pieces(msg, c.quotes)) {
          if (p.hard) chunks.push({ hard: p.hard });
          else if (p.words) { const ws = p.text.match(/\s*\S+\s*/g); for (const w of ws ?? []) chunks.push({ text: w }); }
          else chunks.push({ text: p.text });
        }
        const width = (s) => {
          let w = 0, i = 0;
          outer: while (i < s.length) {
            let best = null;
            for (const g of GLYPHS) if (s.startsWith(g[0], i) && (best === null || g[0].length > best[0].length)) best = g;
            if (best) { w += best[1]; i += best[0].length; continue outer; }
            w += 1; i++; // ASCII
          }
          return w;
        };
        let at = 0, col = 0, broken = 0;
        for (const k of chunks) {
          if (k.hard) { equal(wrapped.slice(at, at + k.hard), "\n".repeat(k.hard), `line break at ${at} of ${show(wrapped)}`); at += k.hard; col = 0; continue; }
          if (wrapped[at] === "\n") {
            assert(col > 0 && col + width(k.text) > c.width, () => `a needless break before ${show(k.text)} at column ${col} of ${c.width}: ${show(wrapped)}`);
            at++; col = 0; broken++;
          }
          equal(wrapped.slice(at, at + k.text.length), k.text, `the piece at ${at} of ${show(wrapped)} (unwrapped: ${show(plain)})`);
          at += k.text.length;
          const before = col;
          col += width(k.text);
          assert(before === 0 || before + width(k.text.trimEnd()) <= c.width, () => `a line of ${show(wrapped)} is ${before + width(k.text.trimEnd())} columns wide, more than ${c.width}`);
        }
        equal(wrapped.slice(at), "", `end of ${show(wrapped)}`);
        if (!broken) ctx.trivial("nothing to break");
      },
    },
    {
      // "word y" fits in the columns of the word and two more, and in no fewer.
      name: "columns",
      runs: { quick: 20000, thorough: 600000 },
      arb: (fc) => {
        const of = (rs) => fc.nat(1e6).map((n) => { const [a, b] = rs[n % rs.length]; return [String.fromCodePoint(a + Math.floor(n / rs.length) % (b - a + 1))]; });
        return fc.record({ glyphs: fc.array(fc.oneof(of(WIDE).map(([g]) => [/[\p{M}\p{Emoji_Modifier}]/u.test(g) ? "\u65e5" : g, 2]), of(NARROW).map(([g]) => [g, 1]), fc.constantFrom(...SEQUENCES)), { minLength: 1, maxLength: 5 }), kind: fc.constantFrom("text", "value", "metavar") });
      },
      check({ glyphs, kind }, ctx) {
        const word = `a.${glyphs.map(([g]) => g).join(".")}`, w = glyphs.reduce((n, [, c]) => n + c, 1) + glyphs.length;
        if (w === word.length) ctx.trivial("as many columns as characters");
        const msg = kind === "text" ? [core.text(`${word} y`)] : [{ type: kind, [kind]: word }, core.text(" y")];
        const fits = (columns) => !core.formatMessage(msg, { quotes: false, maxWidth: columns }).includes("\n");
        assert(fits(w + 2), () => `${show(word)} of ${w} columns and a letter do not fit in ${w + 2} columns as ${kind}`);
        assert(!fits(w + 1), () => `${show(word)} of ${w} columns and a letter are put in ${w + 1} columns as ${kind}`);
      },
    },
    {
      name: "template",
      runs: { quick: 10000, thorough: 200000 },
      arb: (fc) => {
        const s = fc.string({ maxLength: 6 });
        const val = fc.oneof(s.map((v) => ({ str: v })), termArb(fc, s, s, fc.string({ minLength: 1, maxLength: 4 })).map((t) => ({ term: t })), fc.array(termArb(fc, s, s, fc.string({ minLength: 1, maxLength: 4 })), { maxLength: 3 }).map((list) => ({ list })));
        return fc.array(val, { maxLength: 4 }).chain((vals) => fc.record({ vals: fc.constant(vals), strs: fc.array(fc.oneof(fc.constant(""), s), { minLength: vals.length + 1, maxLength: vals.length + 1 }) }));
      },
      check(c, ctx) {
        if (!c.vals.length) ctx.trivial("nothing interpolated");
        const strs = Object.assign([...c.strs], { raw: [...c.strs] });
        const args = c.vals.map((v) => "str" in v ? v.str : "term" in v ? real(v.term) : v.list.map(real));
        const got = core.message(strs, ...args);
        const want = [];
        c.strs.forEach((s, i) => {
          if (s !== "") want.push({ type: "text", text: s });
          if (i < args.length) want.push(...(typeof args[i] === "string" ? [{ type: "value", value: args[i] }] : Array.isArray(args[i]) ? args[i] : [args[i]]));
        });
        equal(got, want, "message template");
        // The message does not change when its ingredients do.
        const before = JSON.stringify(got);
        for (const a of args.flat()) if (typeof a === "object") for (const k of Object.keys(a)) { if (Array.isArray(a[k])) a[k].push("more"); else if (a[k] instanceof URL) a[k].hash = "#changed"; else if (k !== "type") a[k] = "changed"; }
        equal(JSON.stringify(got), before, "message after its ingredients changed");
      },
    },
    {
      name: "list",
      runs: { quick: 8000, thorough: 100000 },
      arb: (fc) => fc.record({ values: fc.array(fc.string({ maxLength: 5 }), { maxLength: 6 }), fallback: fc.constantFrom("", "none", "(empty)"), short: fc.boolean(), type: fc.constantFrom(undefined, "conjunction", "disjunction", "unit"), style: fc.constantFrom(undefined, "long", "short", "narrow"), locale: fc.constantFrom("en", "ko", "ja", "de", ["fr", "en"]) }),
      check(c, ctx) {
        const clean = Object.fromEntries(Object.entries({ fallback: c.fallback, type: c.type, style: c.style, locale: c.locale }).filter(([, v]) => v !== undefined));
        const got = core.valueSet(c.values, c.short ? c.fallback : clean);
        if (!c.values.length) { ctx.trivial("empty"); equal(got, c.fallback === "" ? [] : [{ type: "text", text: c.fallback }], "fallback"); return; }
        equal(got.filter((t) => t.type === "value").map((t) => t.value), c.values, "values of the list");
        assert(got.every((t) => t.type === "value" || t.type === "text"), () => `terms ${show(got)}`);
        const joined = got.map((t) => t.value ?? t.text).join("");
        if (!c.short) equal(joined, new Intl.ListFormat(c.locale, { type: c.type, style: c.style }).format(c.values), "list wording");
        else equal(joined, new Intl.ListFormat(undefined, {}).format(c.values), "list wording");
      },
    },
  ],
};
