import { createRequire } from "node:module";
import { readFileSync, rmSync } from "node:fs";
import { join } from "node:path";
import { argument, choice, formatMessage, getDocPage, message, multiple, object, option, string, withDefault } from "@optique/core";
import { formatDocPage } from "@optique/core/doc";
import { parseSync, suggestSync } from "@optique/core/parser";
import * as lt from "@optique/logtape";
import { assert, equal, show } from "../lib/harness.mjs";
import { ROOT } from "../lib/loader.mjs";
import { scratch } from "../lib/scratch.mjs";

const LEVELS = ["trace", "debug", "info", "warning", "error", "fatal"];
const logtape = await import(createRequire(`${ROOT}/packages/logtape/_.mjs`).resolve("@logtape/logtape").replace(/\.cjs$/, ".js"));
const FORMATS = { jsonl: logtape.jsonLinesFormatter, logfmt: logtape.logfmtFormatter, color: logtape.ansiColorFormatter, plain: logtape.defaultTextFormatter };
const own = (r) => `own ${r.level} ${r.message.join("")}\n`;
let files = 0;

const cfgArb = (fc) => fc.record({
  level: fc.constantFrom("option", "verbosity", "debug"), a: fc.option(fc.constantFrom(...LEVELS), { nil: null }), b: fc.option(fc.constantFrom(...LEVELS), { nil: null }),
  names: fc.boolean(), output: fc.constantFrom("default", "default", "named", "off"), formatter: fc.constantFrom("none", "none", "option", "fixed"), label: fc.boolean(),
});
function configOf(c) {
  const long = c.level === "option" ? "--level" : c.level === "verbosity" ? "--loud" : "--bug";
  return {
    level: c.level, ...(c.names ? { short: "-q", long } : {}),
    ...(c.level === "option" ? c.a ? { default: c.a } : {} : c.level === "verbosity" ? c.a ? { baseLevel: c.a } : {} : { ...(c.a ? { debugLevel: c.a } : {}), ...(c.b ? { normalLevel: c.b } : {}) }),
    ...(c.output === "default" ? {} : c.output === "off" ? { output: { enabled: false } } : { output: { long: "--out" } }),
    ...(c.formatter === "option" ? { formatter: "--log-format" } : c.formatter === "fixed" ? { formatter: own } : {}), ...(c.label ? { groupLabel: "Of logs" } : {}),
  };
}
const shortOf = (c) => c.names ? "-q" : { option: "-l", verbosity: "-v", debug: "-d" }[c.level];
const longOf = (c) => c.names ? { option: "--level", verbosity: "--loud", debug: "--bug" }[c.level] : { option: "--log-level", verbosity: "--verbose", debug: "--debug" }[c.level];
const outOf = (c) => c.output === "named" ? "--out" : "--log-output";
const itemArb = (fc) => fc.record({ kind: fc.constantFrom("level", "level", "level", "output", "output", "format", "host", "word"), form: fc.nat(3), level: fc.constantFrom(...LEVELS, "Debug", "WARNING", "warn", "", "verbose"), path: fc.constantFrom("-", "-", "app.log", "./a b.log", "", "  ", "a/-", "--x"), format: fc.constantFrom("jsonl", "logfmt", "color", "plain", "JSONL", "xml") });
/** A line, and what it should come to: null for an error. */
function lineOf(c, items) {
  const tokens = [], said = { level: [], output: [], format: [], host: [], words: [] };
  let wrong = false;
  const give = (name, short, value, form) => form === 0 ? tokens.push(name, value) : form === 1 ? tokens.push(`${name}=${value}`) : short && form === 2 ? tokens.push(short, value) : tokens.push(`${name}=${value}`);
  for (const i of items) {
    if (i.kind === "word") { tokens.push("word"); said.words.push("word"); continue; }
    if (i.kind === "host") { give("--host", null, "h", i.form); said.host.push("h"); continue; }
    if (i.kind === "level") {
      if (c.level === "option") { give(longOf(c), shortOf(c), i.level, i.form); said.level.push(i.level); }
      else { const n = i.form === 3 && c.level === "verbosity" ? 3 : 1; tokens.push(n === 3 ? `-${shortOf(c)[1].repeat(3)}` : i.form === 0 ? longOf(c) : shortOf(c)); for (let k = 0; k < n; k++) said.level.push(true); }
    } else if (i.kind === "output") { give(outOf(c), null, i.path, i.form); if (c.output === "off") wrong = true; said.output.push(i.path); }
    else { give("--log-format", null, i.format, i.form); if (c.formatter !== "option") wrong = true; said.format.push(i.format); }
  }
  const lvl = said.level.map((l) => typeof l === "string" ? LEVELS.find((x) => x === l.toLowerCase()) : l);
  if (wrong || said.output.length > 1 || said.format.length > 1 || said.host.length > 1 || c.level !== "verbosity" && lvl.length > 1 || lvl.includes(undefined)) return { tokens, want: null };
  if (said.output.some((p) => p.trim() === "") || said.format.some((f) => !(f in FORMATS))) return { tokens, want: null };
  const level = c.level === "option" ? lvl[0] ?? c.a ?? "info" : c.level === "debug" ? lvl.length ? c.a ?? "debug" : c.b ?? "info" : LEVELS[Math.max(0, LEVELS.indexOf(c.a ?? "warning") - lvl.length)];
  const formatter = c.formatter === "fixed" ? own : said.format.length ? FORMATS[said.format[0]] : undefined;
  const path = said.output[0];
  return { tokens, want: { logLevel: level, logOutput: { ...(path === undefined || path === "-" ? { type: "console" } : { type: "file", path }), ...(formatter ? { formatter } : {}) } }, host: said.host[0] ?? "none", words: said.words };
}
const parserOf = (c) => object({ logging: lt.loggingOptions(configOf(c)), host: withDefault(option("--host", string()), "none"), words: multiple(argument(choice(["word"]))) });

export default {
  id: "C34",
  title: "Logging options lead to the level, the place and the form they name",
  statement: "With loggingOptions(), however configured and wherever on the line among other options, the level is the one named (in any letter case), or the base level made one step more verbose for each flag and no more than trace, or the debug or normal level; without any option it is the default. The output is the console unless a file is named, with the formatter named or configured. Unknown levels, formats, empty paths, repeated options and options that are turned off are errors. createLoggingConfig() makes a sink that writes each record once, to the file, or to the stream chosen for its level, in that form; levels, names and help agree with what is parsed, and completions of a level or format are accepted.",
  quantifier: [["configurations", "inputs", "records"], "kinds and names of options, default levels, lines with the options in any order and form, records of each level, and sinks of files and streams"],
  why: "Levels, outputs and formatters are configured apart and come together in one sink; tests look at each of them alone.",
  files: ["packages/logtape/src/preset.ts", "packages/logtape/src/output.ts", "packages/logtape/src/verbosity.ts", "packages/logtape/src/debug.ts", "packages/logtape/src/loglevel.ts", "packages/logtape/src/textformatter.ts"],
  mechanism: [["loggingOptions(), createLoggingConfig()", "packages/logtape/src/preset.ts"], ["logOutput(), createSink(), createConsoleSink()", "packages/logtape/src/output.ts"], ["verbosity()", "packages/logtape/src/verbosity.ts"]],
  rule: "lines: some logging option is on the line; sinks: a record is written.",
  assumptions: ["LogTape's own formatters and file sink are right."],
  parts: [
    {
      name: "lines", runs: { quick: 15000, thorough: 400000 },
      arb: (fc) => fc.record({ c: cfgArb(fc), items: fc.array(itemArb(fc), { maxLength: 5 }), cut: fc.nat(8), ask: fc.nat(2) }),
      check({ c, items, cut, ask }, ctx) {
        const { tokens, want, host, words } = lineOf(c, items), parser = parserOf(c);
        if (!items.some((i) => ["level", "output", "format"].includes(i.kind))) ctx.trivial("no logging option");
        const r = parseSync(parser, tokens), what = `${show(configOf(c))} ${show(tokens)}`;
        if (want === null) { assert(!r.success, () => `${what} is accepted as ${show(r.value)}`); ctx.label("refused"); }
        else { assert(r.success, () => `${what}: ${formatMessage(r.error)}`); equal(r.value, { logging: want, host, words }, what); ctx.label(c.level); }
        const page = formatDocPage("app", getDocPage(parser), { maxWidth: 200 });
        for (const n of [shortOf(c), longOf(c)]) assert(page.includes(n), () => `help lacks ${n}:\n${page}`);
        assert(page.includes(c.label ? "Of logs" : "Logging options"), () => `help lacks the group:\n${page}`);
        for (const [n, on] of [[outOf(c), c.output !== "off"], ["--log-format", c.formatter === "option"]]) assert(page.includes(`${n} `) === on, () => `help ${on ? "lacks" : "has"} ${n}:\n${page}`);
        // completion
        const [name, list] = ask === 0 && c.level === "option" ? [longOf(c), LEVELS] : ask === 1 && c.formatter === "option" ? ["--log-format", Object.keys(FORMATS)] : [null, []];
        if (!name) return;
        const prefix = list[cut % list.length].slice(0, cut >> 1), got = suggestSync(parser, [name, prefix]).map((s) => s.text);
        equal([...got].sort(), list.filter((l) => l.startsWith(prefix)).sort(), `suggestions for ${name} ${prefix}`);
        for (const g of got) assert(parseSync(parser, [name, g]).success, () => `${name} ${g} is refused`);
      },
    },
    {
      name: "sinks", runs: { quick: 6000, thorough: 100000 }, async: true,
      arb: (fc) => fc.record({ where: fc.constantFrom("console", "console", "file"), formatter: fc.constantFrom("none", "jsonl", "logfmt", "plain", "own"), over: fc.constantFrom("none", "none", "text", "console"), stream: fc.constantFrom("none", "stdout", "stderr"), resolver: fc.boolean(), level: fc.constantFrom(...LEVELS), more: fc.boolean(),
        records: fc.array(fc.record({ level: fc.constantFrom(...LEVELS), message: fc.array(fc.oneof(fc.constantFrom("hello", " ", "x=1", "", "line\n"), fc.nat(9)), { minLength: 1, maxLength: 3 }), at: fc.constantFrom(0, 1700000000000, 1234567890123), category: fc.constantFrom(["app"], ["app", "db"], []) }), { minLength: 1, maxLength: 4 }) }),
      async check(c, ctx) {
        const path = join(scratch(), `log${files++}`), formatter = c.formatter === "none" ? undefined : c.formatter === "own" ? own : FORMATS[c.formatter];
        const resolve = (level) => LEVELS.indexOf(level) % 2 ? "stdout" : "stderr";
        const over = c.over === "text" ? (r) => `over ${r.level}\r\n` : c.over === "console" ? (r) => ["%s", r.level, 1] : undefined;
        const conf = await lt.createLoggingConfig({ logLevel: c.level, logOutput: { ...(c.where === "file" ? { type: "file", path } : { type: "console" }), ...(formatter ? { formatter } : {}) } },
          { ...(c.stream === "none" ? {} : { stream: c.stream }), ...(c.resolver ? { streamResolver: resolve } : {}), ...(over ? { formatter: over } : {}) }, c.more ? { sinks: { other() {} }, loggers: [{ category: ["x"], sinks: ["other"] }], reset: true } : {});
        equal(conf.loggers, [{ category: [], lowestLevel: c.level, sinks: ["default"] }, ...(c.more ? [{ category: ["x"], sinks: ["other"] }] : [])], "loggers");
        equal([Object.keys(conf.sinks).sort(), conf.reset], [c.more ? ["default", "other"] : ["default"], c.more ? true : undefined], "configuration");
        const out = [], { log, error } = console, records = c.records.map((r) => ({ level: r.level, message: r.message, rawMessage: r.message.join(""), timestamp: r.at, category: r.category, properties: {} }));
        try {
          console.log = (...a) => out.push(["stdout", ...a]); console.error = (...a) => out.push(["stderr", ...a]);
          for (const r of records) conf.sinks.default(r);
        } finally { console.log = log; console.error = error; }
        if (c.where === "file") {
          equal(out, [], "console output with a file");
          conf.sinks.default[Symbol.dispose]?.(); await conf.sinks.default[Symbol.asyncDispose]?.();
          equal(readFileSync(path, "utf8"), records.map(formatter ?? logtape.defaultTextFormatter).join(""), "file");
          rmSync(path, { force: true });
        } else {
          const form = over ?? formatter;
          const iso = (r) => `${new Date(r.timestamp).toISOString()} [${r.level.toUpperCase().padEnd(7)}] ${r.category.join(".")}: ${r.message.map(String).join("")}`;
          const args = (r) => { const s = form ? form(r) : iso(r); return typeof s === "string" ? [s.replace(/\r?\n$/, "")] : s; };
          equal(out, records.map((r) => [c.resolver ? resolve(r.level) : c.stream === "none" ? "stderr" : c.stream, ...args(r)]), "console output");
        }
        ctx.label(c.where);
      },
    },
  ],
};
