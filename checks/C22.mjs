import * as core from "@optique/core";
import { formatDocPage } from "@optique/core/doc";
import * as shells from "@optique/core/completion";
import { runParser, runParserAsync, runParserSync, RunParserError } from "@optique/core/facade";
import { parseSync, suggestSync } from "@optique/core/parser";
import { defineProgram } from "@optique/core/program";
import { run, runAsync, runSync } from "@optique/run";
import { assert, equal, show } from "../lib/harness.mjs";
import { dress } from "../lib/dress.mjs";
import { build, caseArb, editTokens, editsArb, has, kids, nodeArbs, nodes, planCase, Tape } from "../lib/grammar.mjs";

const PROG = "prog";
const NAMES = {
  help: { option: [["--help"], ["--help", "-?"], ["--assist", "/HELP"]], command: [["help"], ["assist", "help"], ["man-page"]] },
  version: { option: [["--version"], ["--ver-info", "--version"]], command: [["version"], ["ver-info"]] },
  completion: { option: [["--completion"], ["--complete-me", "--completion"], ["/COMPLETE", "-Q"]], command: [["completion"], ["complete-me", "completions"]] },
};
const KINDS = ["help", "version", "completion"];
const TEST_SHELL = {
  name: "test",
  generateScript: (program, args = []) => `script of ${program} with ${JSON.stringify(args)}`,
  *encodeSuggestions(list) { for (const s of list) yield JSON.stringify([s.kind, s.text ?? s.pattern ?? null]); },
};

const cfgArb = (fc) => {
  const one = fc.record({ option: fc.option(fc.nat(2), { nil: null }), command: fc.option(fc.nat(2), { nil: null }), hide: fc.constantFrom(undefined, undefined, true, "usage"), group: fc.constantFrom(undefined, undefined, "Meta") });
  return fc.record({ help: fc.option(one, { nil: null, freq: 5 }), version: fc.option(one, { nil: null, freq: 5 }), completion: fc.option(one, { nil: null, freq: 5 }), value: fc.constantFrom("1.2.3", "v0 (beta)"), above: fc.constantFrom(undefined, "usage", "help", "none"), colors: fc.boolean(), width: fc.constantFrom(undefined, undefined, 60), docs: fc.boolean(), async: fc.boolean(), prog: fc.boolean(), pageOpts: fc.nat(63) });
};
/** The names a configuration turns on: kind → { option: [...], command: [...] }. */
function active(cfg) {
  const out = {};
  for (const k of KINDS) {
    const c = cfg[k];
    if (!c || (c.option === null && c.command === null)) continue;
    out[k] = { option: c.option === null ? [] : NAMES[k].option[c.option % NAMES[k].option.length], command: c.command === null ? [] : NAMES[k].command[c.command % NAMES[k].command.length], hide: c.hide };
  }
  return out;
}
function options(cfg, act) {
  const sub = (k, w) => act[k][w].length ? { [w]: cfg[k].hide === undefined && !cfg[k].group && (cfg[k][w] % 3 === 0) ? true : { names: act[k][w], ...(cfg[k].hide === undefined ? {} : { hidden: cfg[k].hide }), ...(cfg[k].group ? { group: cfg[k].group } : {}) } } : {};
  const o = { colors: cfg.colors, ...(cfg.width ? { maxWidth: cfg.width } : {}), ...(cfg.above ? { aboveError: cfg.above } : {}) };
  Object.assign(o, pageOptions(cfg));
  if (cfg.pageOpts & 32) o.commandList = "top-level";
  if (act.help) o.help = { ...sub("help", "option"), ...sub("help", "command") };
  if (act.version) o.version = { ...sub("version", "option"), ...sub("version", "command"), value: cfg.value };
  if (act.completion) o.completion = { ...sub("completion", "option"), ...sub("completion", "command"), shells: { test: TEST_SHELL } };
  if (cfg.docs) Object.assign(o, { brief: core.message`run brief`, description: core.message`run description`, examples: core.message`run examples`, author: core.message`run author`, bugs: core.message`run bugs`, footer: core.message`run footer` });
  return o;
}
/** How a configuration has pages look. */
function pageOptions(cfg) {
  const b = cfg.pageOpts ?? 0, o = {};
  if (b & 1) o.showDefault = b & 2 ? true : { prefix: " <", suffix: ">" };
  if (b & 4) o.showChoices = b & 2 ? true : { prefix: " <", suffix: ">", label: "one of " };
  if (b & 8) o.showUsage = false;
  if (b & 16) o.sectionOrder = (x, y) => (y.title ?? "").length - (x.title ?? "").length;
  return o;
}
/** A page without what lies within commands. */
function collapse(page, cfg) {
  if (!(cfg.pageOpts & 32)) return page;
  return { ...page, sections: page.sections.map((s) => {
    const out = [], at = new Map();
    for (const e of s.entries) {
      if (e.term.type !== "command") { out.push(e); continue; }
      const [top] = e.term.name.split(" ");
      if (!at.has(top)) { at.set(top, out.length); out.push(e.term.name === top ? e : { term: { ...e.term, name: top } }); } else if (e.term.name === top) out[at.get(top)] = e;
    }
    return { ...s, entries: out };
  }) };
}
const RUN_DOCS = ["brief", "description", "examples", "author", "bugs", "footer"];
const envOf = (bits) => { const t = new Tape(bits); let any = false; return { isAsync: () => { const v = t.pick(2) === 0; any ||= v; return v; }, ticks: () => 1, get any() { return any; } }; };
const strip = (s) => s.replace(/\x1b\[[0-9;]*m/g, "");
const solid = (s) => strip(s).replace(/\s+/g, "");

/** Runs a program and writes down everything it does. */
async function transcript(parser, args, cfg, opts, { how = 0, noError = false } = {}) {
  const out = [], err = [], calls = [];
  const mark = (what) => (code) => { calls.push([what, code]); return `[${what}]`; };
  const o = { ...opts, stdout: (s) => out.push(s), stderr: (s) => err.push(s), ...(noError ? {} : { onError: mark("error") }) };
  for (const k of KINDS) if (o[k]) o[k] = { ...o[k], onShow: mark(k) };
  const t = { out, err, calls };
  try {
    const p = cfg.prog && how === 0 ? [defineProgram({ parser, metadata: { name: PROG } }), args, o] : [parser, PROG, args, o];
    let r;
    if (how === 1 && parser.mode === "sync") r = runParserSync(...p);
    else if (how === 2) r = runParserAsync(...p);
    else r = runParser(...p);
    if (parser.mode === "sync" && how < 2) assert(!(r instanceof Promise), "a synchronous parser gave a promise");
    t.value = await r;
  } catch (e) {
    if (!(e instanceof RunParserError)) throw e;
    t.threw = e.message;
  }
  return t;
}
const isRequest = (tok, act) => KINDS.some((k) => act[k] && ([...act[k].option, ...act[k].command].includes(tok) || (k === "completion" && act[k].option.some((n) => tok.startsWith(`${n}=`)))));
/** Whatever happens, it happens in an orderly way. */
function orderly(t, what) {
  if (t.threw !== undefined) { assert(t.calls.length === 0 && t.err.length > 0 && t.out.length === 0, () => `${what}: ${show(t)}`); return; }
  assert(t.calls.length <= 1, () => `${what}: several callbacks ${show(t.calls)}`);
  if (!t.calls.length) assert(!t.out.length && !t.err.length, () => `${what}: output along with a result ${show(t)}`);
  else {
    const [k, code] = t.calls[0];
    equal(t.value, `[${k}]`, `${what}: result of the callback`);
    if (k === "error") assert(code === 1 && t.err.length > 0 && !t.out.length, () => `${what}: a failure that ${show(t)}`);
    else assert(code === 0 && !t.err.length, () => `${what}: a request that ${show(t)}`);
  }
}
const metaWords = (act) => KINDS.flatMap((k) => act[k] ? [...act[k].option, ...act[k].command, ...(k === "completion" ? act[k].option.map((n) => `${n}=test`) : [])] : []);

// Which request does a line make that the parser takes no word of?
function requested(args, act) {
  const o = (k) => act[k]?.option ?? [], c = (k) => act[k]?.command ?? [];
  if (c("completion").includes(args[0])) return o("help").includes(args[1]) ? { k: "help", path: [args[0]] } : { k: "completion", shell: args[1] ?? "", rest: args.slice(2), via: "command" };
  const end = args.indexOf("--"), scan = end < 0 ? args : args.slice(0, end);
  let last = null, comp = null;
  for (let i = 0; i < scan.length; i++) {
    if (o("help").includes(scan[i])) last = { k: "help", at: i };
    else if (o("version").includes(scan[i])) last = { k: "version", at: i };
    const eq = o("completion").find((n) => scan[i].startsWith(`${n}=`));
    if (eq) { comp = { k: "completion", at: i, shell: scan[i].slice(eq.length + 1), rest: args.slice(i + 1), via: "option" }; break; }
    if (o("completion").includes(scan[i])) { comp = { k: "completion", at: i, shell: scan[i + 1] ?? "", rest: args.slice(i + 2), via: "option" }; break; }
  }
  if (c("version").includes(args[0])) {
    if (o("help").includes(args[1])) return { k: "help", path: [args[0]] };
    return args.length === 1 || comp?.at === 1 || (last?.k === "version" && last.at === 1) ? { k: "version" } : { k: "error" };
  }
  if (c("help").includes(args[0]) && !last) return { k: "help", path: args.slice(1) };
  if (last?.k === "help") return { k: "help", path: args.slice(0, last.at).filter((a) => !a.startsWith("-")) };
  if (last) return { k: "version" };
  if (c("help").includes(args[0])) return { k: "help", path: args.slice(1) };
  return comp ?? { k: "error" };
}

export default {
  id: "C22",
  title: "Running a program answers help, version and completion only when asked",
  statement: "When the parser accepts the line, the result is its value and nothing is printed, even if the line holds words like --help or completion. Otherwise the first request the parser leaves unconsumed is answered: help for the named command, exactly the version, or the completion script or suggestions on stdout and exit status 0 with an empty stderr; any other line prints the parse error (after usage, help or nothing, as configured) on stderr only and fails with the error status. All entry points, sync and async, behave alike, and run() maps these to the configured streams and exit codes.",
  quantifier: [["programs", "inputs", "configurations"], "random grammars, lines with requests at any place, and every combination of request names, forms, visibility, documentation, colors and entry point"],
  why: "Whether a word is data or a request depends on how far the parser got; tests try each request in a handful of programs.",
  files: ["packages/core/src/facade.ts", "packages/run/src/run.ts", "packages/core/src/program.ts"],
  mechanism: [["runParser(), classifyParseFailure(), handleCompletion()", "packages/core/src/facade.ts"], ["run()", "packages/run/src/run.ts"]],
  observe: ["stdout, stderr, callbacks and exit codes", "the returned value"],
  rule: "lines: a request word is in the line; requests: the line makes a request; inside: help is asked inside a command; errors: the line fails without a request; after: requests follow what the parser took; completion: something is suggested; run: the process is asked to exit.",
  assumptions: ["Which request wins within a line (help and version: the last before --; completion: the first) follows the documented scanner."],
  parts: [
    {
      name: "lines", runs: { quick: 8000, thorough: 250000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc), edits: editsArb(fc, 3), put: fc.array(fc.tuple(fc.nat(20), fc.nat(20), fc.boolean()), { maxLength: 3 }), cfg: cfgArb(fc), bits: fc.array(fc.nat(1), { maxLength: 8 }), how: fc.nat(2), noError: fc.boolean() }),
      async check({ c, edits, put, cfg, bits, how, noError }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const act = active(cfg), words = metaWords(act), opts = options(cfg, act);
        const tokens = editTokens(p, edits);
        for (const [i, j, replace] of put) if (words.length) tokens.splice(tokens.length ? i % (tokens.length + 1) : 0, replace ? 1 : 0, words[j % words.length]);
        const plain = parseSync(build(p.spec), tokens);
        const parser = cfg.async ? build(p.spec, envOf(bits)) : build(p.spec);
        const t = await transcript(parser, tokens, cfg, opts, { how, noError });
        const asks = tokens.some((w) => isRequest(w, act));
        if (!asks) ctx.trivial("no request");
        orderly(t, `prog ${tokens.join(" ")}`);
        if (plain.success) {
          ctx.label(asks ? "accepted with request words" : "accepted");
          equal({ value: t.value, calls: t.calls, threw: t.threw }, { value: plain.value, calls: [], threw: undefined }, `result of prog ${show(tokens)}`);
        } else if (!asks) {
          ctx.label("rejected");
          if (noError) assert(t.threw !== undefined, () => `no RunParserError: ${show(t)}`); else equal(t.calls, [["error", 1]], "callback");
          equal(t.err.at(-1), `Error: ${core.formatMessage(plain.error, { colors: cfg.colors, quotes: !cfg.colors })}`, "error line");
          assert(t.err.length === (cfg.above === "none" ? 1 : 2), () => `${t.err.length} pieces on stderr with aboveError ${cfg.above}: ${show(t.err)}`);
          if (t.err.length === 2 && cfg.above !== "help") assert(strip(t.err[0]).startsWith(`Usage: ${PROG}`), () => `above the error: ${show(t.err[0])}`);
          if (cfg.above === "help" && cfg.docs && !strip(t.err[0]).startsWith("Usage:")) assert(solid(t.err[0]).includes("runfooter"), () => `help above the error lacks the footer: ${show(t.err[0])}`);
        } else ctx.label(`rejected with request: ${t.threw !== undefined ? "error" : t.calls[0][0]}`);
      },
    },
    {
      name: "requests", runs: { quick: 8000, thorough: 250000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc), hid: fc.array(fc.nat(7), { maxLength: 8 }), first: fc.nat(20), rest: fc.array(fc.oneof(fc.nat(20).map((w) => ({ w })), fc.constantFrom("--", "--zzz", "test", "bash", "nosuchshell", "").map((s) => ({ s })), fc.nat(9).map((t) => ({ t }))), { maxLength: 4 }), cfg: cfgArb(fc), bits: fc.array(fc.nat(1), { maxLength: 8 }), how: fc.nat(2) }),
      async check({ c, hid, first, rest, cfg, bits, how }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const act = active(cfg), words = metaWords(act);
        if (!words.length) return ctx.trivial("no requests configured");
        const opts = options(cfg, act);
        const args = [words[first % words.length], ...rest.map((r) => "w" in r ? words[r.w % words.length] : "s" in r ? r.s : p.tokens[r.t % Math.max(1, p.tokens.length)] ?? "x")];
        const spec = dress(p.spec, hid);
        const isCmd = KINDS.some((k) => act[k]?.command.includes(args[0]));
        if ((isCmd || !/^--?[a-z0-9-]+$/i.test(args[0])) && has(spec, "arg")) return ctx.trivial("may be a positional");
        if (parseSync(build(spec), args).success) return ctx.trivial("accepted");
        const want = requested(args, act);
        const parser = cfg.async ? build(spec, envOf(bits)) : build(spec);
        const t = await transcript(parser, args, cfg, opts, { how });
        const what = `prog ${show(args)} with ${show(act)}`;
        orderly(t, what);
        ctx.label(want.k);
        if (want.k === "error") { ctx.trivial("no request"); return equal(t.calls, [["error", 1]], what); }
        if (want.k === "version") { equal({ out: t.out, calls: t.calls }, { out: [cfg.value], calls: [["version", 0]] }, what); return; }
        if (want.k === "completion") {
          const shell = want.shell === "test" ? TEST_SHELL : Object.values(shells).find((s) => s?.name === want.shell);
          if (!shell) { equal(t.calls, [["error", 1]], what); assert(strip(t.err[0]).startsWith(want.shell ? `Error: Unsupported shell ` : "Error: Missing shell name"), () => `${what}: ${show(t.err)}`); if (want.shell) assert((cfg.colors || strip(t.err[0]).includes(JSON.stringify(want.shell))) && strip(t.err[0]).includes("bash"), () => `${what}: ${show(t.err)}`); return; }
          equal(t.calls, [["completion", 0]], what);
          if (!want.rest.length) equal(t.out, [shell.generateScript(PROG, [act.completion[want.via][0], want.shell])], `script for ${what}`);
          return;
        }
        // help
        if (want.path.length) {
          // help about a request is always there; about anything else, only if it is a command
          const about = KINDS.find((k) => act[k]?.command.includes(want.path[0]));
          if (about && want.path.length === 1 && !commandsOf(spec).includes(want.path[0])) { equal(t.calls, [["help", 0]], what); assert(t.out.length === 1 && strip(t.out[0]).includes(about === "help" ? "Command name to show help for." : about === "version" ? "Show version information." : "completion"), () => `${what}: ${show(t.out)}`); }
          return;
        }
        equal(t.calls, [["help", 0]], what);
        assert(t.out.length === 1, () => `${what} prints ${t.out.length} pages`);
        const page = solid(t.out[0]);
        for (const l of leaves(spec)) if (l.desc) assert(page.includes(solid(l.desc)) === !(l.hidden === true || l.hidden === "doc" || l.hidden === "help"), () => `${what}: the page ${l.hidden ? "shows hidden" : "lacks"} ${l.desc}:\n${t.out[0]}\n  spec ${show(spec)}`);
        if (cfg.docs) for (const d of ["brief", "description", "examples", "author", "bugs", "footer"]) assert(page.includes(`run${d}`), () => `${what}: the page lacks the ${d}:\n${t.out[0]}`);
        for (const k of KINDS) if (act[k]) for (const n of [...act[k].option.slice(0, 1), ...act[k].command.slice(0, 1)]) if (act[k].hide === undefined) assert(page.includes(n), () => `${what}: the page lacks ${n}:\n${t.out[0]}`);
      },
    },
    {
      name: "inside", runs: { quick: 6000, thorough: 200000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc, nodeArbs(fc).cmdRoot), at: fc.nat(3), cfg: cfgArb(fc), bits: fc.array(fc.nat(1), { maxLength: 8 }), how: fc.nat(2), tail: fc.array(fc.nat(9), { maxLength: 2 }) }),
      async check({ c, at, cfg: cfg0, bits, how, tail }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const cfg = { ...cfg0, help: { hide: undefined, ...cfg0.help, option: cfg0.help?.option ?? 0, command: cfg0.help?.command ?? 0 } };
        const cmdAt = p.roles.flatMap((r, i) => r?.name && r.leaf.k === "cmds" ? [i] : []);
        let n = 0;
        while (n < cmdAt.length && cmdAt[n] === n) n++;
        if (!n) return ctx.trivial("no command first");
        const path = p.tokens.slice(0, 1 + at % n);
        const act = active(cfg), opts = options(cfg, act);
        const spec = dress(p.spec, []);
        const parser = cfg.async ? build(spec, envOf(bits)) : build(spec);
        const byOption = [...path, act.help.option[0], ...tail.map((i) => p.tokens[i % p.tokens.length])];
        if (tail.length && requested(byOption.slice(path.length), act).k !== "help" || byOption.slice(path.length + 1).some((w) => isRequest(w, act))) return ctx.trivial("another request");
        if (parseSync(build(spec), byOption).success) return ctx.trivial("accepted");
        const a = await transcript(parser, byOption, cfg, opts, { how });
        const b = await transcript(parser, [act.help.command[0], ...path], cfg, opts, { how });
        orderly(a, byOption.join(" "));
        equal(a.calls, [["help", 0]], `prog ${byOption.join(" ")}`);
        equal(b, a, `help ${path.join(" ")} against ${byOption.join(" ")}`);
        const page = core.getDocPageSync(build(spec), path);
        const want = formatDocPage(PROG, { ...page, examples: undefined, author: undefined, bugs: undefined, footer: page.footer ?? opts.footer }, { colors: cfg.colors, maxWidth: cfg.width, ...pageOptions(cfg) });
        equal(a.out, [want], `page of ${path.join(" ")}`);
      },
    },
    {
      name: "errors", runs: { quick: 5000, thorough: 150000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc), edits: editsArb(fc, 3), hid: fc.array(fc.nat(7), { maxLength: 8 }), cfg: cfgArb(fc), bare: fc.boolean(), none: fc.nat(5), bits: fc.array(fc.nat(1), { maxLength: 8 }), how: fc.nat(2) }),
      async check({ c, edits, hid, cfg: cfg0, bare, none, bits, how }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const cfg = bare ? { ...cfg0, help: null, version: null, completion: null } : cfg0;
        const act = active(cfg), opts = options(cfg, act), words = metaWords(act);
        const tokens = none === 0 ? [] : editTokens(p, edits);
        if (tokens.some((w) => isRequest(w, act))) return ctx.trivial("a request");
        const spec = dress(p.spec, hid), parser = cfg.async ? build(spec, envOf(bits)) : build(spec), plain = build(spec);
        const r = parseSync(plain, tokens);
        if (r.success) return ctx.trivial("accepted");
        const t = await transcript(parser, tokens, cfg, opts, { how });
        const what = `prog ${show(tokens)} with ${show(act)}`;
        orderly(t, what);
        equal(t.calls, [["error", 1]], what);
        const above = cfg.above ?? "usage";
        ctx.label(`above: ${above}${bare ? "" : ", with requests"}`);
        equal(t.err.length, above === "none" ? 1 : 2, `${what}: pieces on stderr`);
        if (above === "usage" && bare) equal(t.err[0], `Usage: ${core.formatUsage(PROG, plain.usage, { colors: cfg.colors, maxWidth: cfg.width && cfg.width - 7, expandCommands: true }).split("\n").join(`\n${" ".repeat(7)}`)}`, `${what}: the usage`);
        if (above === "help" && (bare || tokens.length)) {
          const page = core.getDocPageSync(plain, tokens);
          const full = { ...page, ...(cfg.docs ? Object.fromEntries(RUN_DOCS.map((d) => [d, opts[d]])) : {}) };
          const want = [full, collapse(full, cfg)].map((g) => formatDocPage(PROG, g, { colors: cfg.colors, maxWidth: cfg.width, ...pageOptions(cfg) }));
          const inner = tokens.some((w) => commandsOf(spec).includes(w));
          assert(inner ? want.includes(t.err[0]) : want[1] === t.err[0], () => `${what}: the page above the error:\n${t.err[0]}\nand not\n${want[1]}`);
        }
        if (above === "help" && !tokens.length) for (const k of ["help", "version"]) if (act[k] && act[k].hide === undefined) for (const n of [...act[k].option.slice(0, 1), ...act[k].command.slice(0, 1)]) assert(solid(t.err[0]).includes(n), () => `${what}: the page above the error lacks ${n}:\n${t.err[0]}`);
        if (cfg.width && above === "usage") for (const l of strip(t.err[0]).split("\n").slice(1)) assert(/^ {7}\S/.test(l), () => `${what}: the usage runs on as ${show(l)}`);
        if (cfg.width && above === "usage") for (const l of strip(t.err[0]).split("\n")) assert(l.length <= cfg.width || !/\S [^\s|]*$/.test(l.slice(7)), () => `${what}: a line of ${l.length} columns, not ${cfg.width}: ${show(l)}`);
      },
    },
    {
      name: "after", runs: { quick: 8000, thorough: 250000 }, async: true,
      arb: (fc) => {
        const docs = fc.record({ brief: fc.boolean(), description: fc.boolean(), footer: fc.boolean() });
        const { node } = fc.letrec((tie) => ({ node: fc.record({ name: fc.nat(11), own: fc.nat(15), docs, async: fc.boolean(), subs: fc.oneof({ depthSize: 0.6, maxDepth: 3 }, fc.constant([]), fc.array(tie("node"), { minLength: 1, maxLength: 2 })) }) }));
        return fc.record({ top: fc.array(node, { minLength: 1, maxLength: 3 }), path: fc.array(fc.nat(5), { minLength: 1, maxLength: 3 }), take: fc.nat(15), rest: fc.array(fc.oneof({ weight: 3, arbitrary: fc.nat(20).map((w) => ({ w })) }, fc.constantFrom("--", "--", "--zzz", "test", "bash", "nosuchshell", "add", "rm", "", "-", "--s", "--set1").map((s) => ({ s }))), { minLength: 1, maxLength: 4 }), cfg: cfgArb(fc), on: fc.nat(7), how: fc.nat(2) });
      },
      async check({ top, path, take, rest, cfg: cfg0, on, how }, ctx) {
        const cfg = { ...cfg0 };
        // most of these are about requests, so have some
        KINDS.forEach((k, i) => { if (on & (1 << i) || k === "help") cfg[k] = { hide: undefined, group: undefined, ...cfg0[k], option: cfg0[k]?.option ?? i, command: cfg0[k]?.command ?? i }; });
        const act = active(cfg), words = metaWords(act), opts = options(cfg, act);
        const pool = ["add", "rm", "help", "version", "completion", "list", "sub", "remote", "assist", "get", "ver-info", "put"];
        const level = (list, d) => { const seen = new Set(); return list.map((n) => ({ ...n, name: pool[(n.name + d) % pool.length], depth: d })).filter((n) => !seen.has(n.name) && seen.add(n.name)).map((n) => ({ ...n, subs: level(n.subs, d + 1), flags: [n.own & 4 ? null : `--flag${d}`, n.own & 1 && !n.subs.length && words.find((w) => /^--/.test(w) && !w.includes("="))].filter(Boolean), set: n.own & 2 ? `--set${d}` : null })); };
        const tree = level(top, 0);
        const doc = (n, d) => core.message`${core.text(`${d} of ${n.name} at ${String(n.depth)}`)}`;
        const vp = (isAsync) => { const v = core.string({ metavar: "X" }); return isAsync ? { ...v, mode: "async", parse: async (s) => v.parse(s), format: (x) => v.format(x), ...(v.suggest ? { async *suggest(q) { yield* v.suggest(q); } } : {}) } : v; };
        const make = (n, wrap) => {
          const fields = {};
          n.flags.forEach((f, i) => { fields[`f${i}`] = core.optional(core.flag(f)); });
          if (n.set) fields.set = core.optional(core.option(n.set, vp(wrap && n.async)));
          // object() does not pass on what a command within it says of itself; merge() does
          const subs = n.subs.length ? any(n.subs.map((m) => make(m, wrap))) : null, own = Object.keys(fields).length || !subs ? core.object(fields) : null;
          return core.command(n.name, !subs ? own : !own ? subs : core.merge(own, subs), Object.fromEntries(["brief", "description", "footer"].filter((d) => n.docs[d]).map((d) => [d, doc(n, d)])));
        };
        // (a command's page says what its only subcommand says of itself, so there are always two)
        const any = (ps) => core.or(...ps, ...(ps.length === 1 ? [core.command("other", core.object({}))] : []));
        const plain = any(tree.map((n) => make(n, false))), parser = cfg.async ? any(tree.map((n) => make(n, true))) : plain;
        // the line: commands with some of their options, then requests and noise
        const args = [];
        let at = { subs: tree };
        for (const [i, k] of path.entries()) {
          if (!at.subs.length) break;
          at = at.subs[k % at.subs.length];
          args.push(at.name);
          if (take & (1 << i) && at.flags.includes(`--flag${at.depth}`)) args.push(`--flag${at.depth}`);
          if (take & (2 << i) && at.set) args.push(at.set, "x");
        }
        args.push(...rest.map((r) => "w" in r ? words[r.w % words.length] : r.s));
        // what the parser takes of it
        let here = { subs: tree, flags: [], set: null }, i = 0, terminated = false;
        const cmds = [], used = new Set(), beside = new Set();
        for (; i < args.length; i++) {
          const a = args[i], sub = here.subs.find((n) => n.name === a);
          if (sub) { for (const n of here.subs) beside.add(n.name); here = sub; cmds.push(a); used.clear(); continue; }
          if (a === "--") { terminated = true; break; }
          if ((here.flags.includes(a) || here.set === a) && used.has(a)) return ctx.trivial("a duplicate");
          if (here.flags.includes(a)) { used.add(a); continue; }
          if (here.set === a) { if (i + 1 >= args.length) return ctx.trivial("no value"); used.add(a); i++; continue; }
          break;
        }
        const left = args.slice(i);
        if (here.flags.some((f) => left.includes(f)) || args.some((a, j) => j >= i && /^--(flag|set)\d/.test(a))) return ctx.trivial("an option of another command");
        if (args.slice(0, i).some((a, j) => isRequest(a, act) && /^-/.test(a))) ctx.label("a request word that is the program's own");
        // a second alternative counts as read before it fails
        if (beside.has(left[0])) return ctx.trivial("two alternatives");
        const what = `prog ${show(args)} with ${show(act)}`;
        const accepted = parseSync(plain, args);
        const t = await transcript(parser, args, cfg, opts, { how });
        orderly(t, what);
        if (accepted.success) { ctx.trivial("accepted"); return equal({ v: t.value, calls: t.calls }, { v: accepted.value, calls: [] }, what); }
        // which request is left
        const end = left.indexOf("--"), scan = terminated ? [] : end < 0 ? left : left.slice(0, end);
        const o = (k) => act[k]?.option ?? [];
        let last = null, comp = null;
        for (let j = 0; j < scan.length; j++) {
          if (o("help").includes(scan[j])) last = { k: "help", j };
          else if (o("version").includes(scan[j])) last = { k: "version", j };
          const eq = o("completion").find((n) => scan[j].startsWith(`${n}=`));
          if (eq) { comp = { shell: scan[j].slice(eq.length + 1), rest: left.slice(j + 1) }; break; }
          if (o("completion").includes(scan[j])) { comp = { shell: scan[j + 1] ?? "", rest: scan[j + 1] ? left.slice(j + 2) : [] }; break; }
        }
        const error = () => { equal(t.calls, [["error", 1]], what); assert(strip(t.err.at(-1)).startsWith("Error: "), () => `${what}: ${show(t.err)}`); };
        if (last?.k === "version") { ctx.label("version"); return equal({ out: t.out, calls: t.calls }, { out: [cfg.value], calls: [["version", 0]] }, what); }
        if (last?.k === "help") {
          const bare = left.slice(0, last.j).filter((a) => !a.startsWith("-"));
          if (bare.some((a) => isRequest(a, act))) return ctx.trivial("request words among the commands");
          let n = { subs: tree }, footer = false;
          for (const a of [...cmds, ...bare]) { n = n?.subs.find((m) => m.name === a); footer ||= n?.docs.footer; }
          ctx.label(n ? "help" : "help for no command");
          if (!n) return error();
          equal(t.calls, [["help", 0]], what);
          equal(t.out.length, 1, `${what}: pages`);
          const page = solid(t.out[0]);
          for (const d of ["brief", "description", "footer"]) if (n.docs[d]) assert(page.includes(solid(`${d} of ${n.name} at ${n.depth}`)), () => `${what}: the ${d} of ${[...cmds, ...bare].join(" ")} is not there:\n${t.out[0]}`);
          for (const d of ["brief", "description", "examples", "author", "bugs"]) assert(!page.includes(`run${d}`), () => `${what}: the page has the program's ${d}:\n${t.out[0]}`);
          equal(page.includes("runfooter"), cfg.docs && !footer, `${what}: the program's footer is there\n${t.out[0]}`);
          const inner = core.getDocPageSync(plain, [...cmds, ...bare]);
          return equal(t.out, [formatDocPage(PROG, { ...inner, examples: undefined, author: undefined, bugs: undefined, footer: inner.footer ?? opts.footer }, { colors: cfg.colors, maxWidth: cfg.width, ...pageOptions(cfg) })], what);
        }
        if (!comp) { ctx.label(scan.some((a) => isRequest(a, act)) ? "a request's command is no request here" : left.some((a) => isRequest(a, act)) ? "a request after --" : "no request"); return error(); }
        const shell = comp.shell === "test" ? TEST_SHELL : Object.values(shells).find((s) => s?.name === comp.shell);
        if (!shell) { ctx.label("no shell"); equal(t.calls, [["error", 1]], what); return; }
        if (!comp.rest.length) return ctx.trivial("nothing to complete");
        ctx.label("completion");
        equal(t.calls, [["completion", 0]], `${what}: ${show(t.err)}`);
        if (shell !== TEST_SHELL) return;
        const line = [...cmds, ...comp.rest], want = suggestSync(plain, line).map((s) => [s.kind, s.text ?? s.pattern ?? null]), got = t.out.map((s) => JSON.parse(s));
        equal(got.slice(0, want.length), want, `${what}: suggestions for ${show(line)}`);
      },
    },
    {
      name: "completion", runs: { quick: 8000, thorough: 250000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc), nm: fc.nat(2), edits: editsArb(fc, 2), cut: fc.nat(9), last: fc.constantFrom("", "", "-", "--", "--h", "--v", "a", null), cfg: cfgArb(fc), bits: fc.array(fc.nat(1), { maxLength: 8 }), how: fc.nat(2), via: fc.nat(2), shell: fc.constantFrom("test", "test", "test", "bash", "zsh", "fish", "pwsh", "nu") }),
      async check({ c, nm, edits, cut, last, cfg: cfg0, bits, how, via: via0, shell }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const cfg = { ...cfg0, completion: { hide: undefined, ...cfg0.completion, option: cfg0.completion?.option ?? nm ?? 0, command: cfg0.completion?.command ?? 0 } };
        const act = active(cfg), opts = options(cfg, act);
        const tokens = editTokens(p, edits);
        const line = tokens.slice(0, tokens.length ? cut % (tokens.length + 1) : 0);
        const words = last === null ? line : [...line, last];
        if (!words.length) return ctx.trivial("nothing to complete");
        // only a word that looks like an option is no positional
        const via = has(p.spec, "arg") ? 1 : via0;
        const head = via === 0 ? [act.completion.command[0], shell] : via === 1 ? [act.completion.option[0], shell] : [`${act.completion.option[0]}=${shell}`];
        if (!/^-/.test(head[0]) && has(p.spec, "arg")) return ctx.trivial("may be a positional");
        const args = [...head, ...words];
        if (parseSync(build(p.spec), args).success) return ctx.trivial("accepted");
        // the line to complete is no line to look for requests in
        if (requested(args, act).k !== "completion") return ctx.trivial("another request");
        const parser = cfg.async ? build(p.spec, envOf(bits)) : build(p.spec);
        const t = await transcript(parser, args, cfg, opts, { how });
        equal(t.calls, [["completion", 0]], `prog ${show(args)}: ${show(t.err)}`);
        assert(!t.err.length, () => `prog ${show(args)} writes ${show(t.err)}`);
        const base = suggestSync(build(p.spec), words);
        if (base.length) ctx.label("suggestions"); else ctx.trivial("nothing suggested");
        const roots = [...(act.help && cfg.help.hide !== true ? act.help.option : []), ...(act.version && cfg.version.hide !== true ? act.version.option : [])];
        const prefix = words.at(-1);
        if (shell === "test") {
          const got = t.out.map((s) => JSON.parse(s));
          const want = base.map((s) => [s.kind, s.text ?? s.pattern ?? null]);
          equal(got.slice(0, want.length), want, `suggestions for ${show(words)}`);
          const more = got.slice(want.length).map(([, text]) => text);
          for (const m of more) assert(roots.includes(m) && m.startsWith(prefix) && !want.some(([, text]) => text === m), () => `${m} is suggested for ${show(words)}: ${show(got)}`);
          if (words.length === 1 && (prefix === "" || prefix.startsWith("--"))) for (const r of roots) if (r.startsWith(prefix)) assert(got.filter(([, text]) => text === r).length === 1, () => `${r} is not suggested for ${show(words)}: ${show(got)}`);
        } else {
          const sh = Object.values(shells).find((s) => s?.name === shell);
          const enc = [...sh.encodeSuggestions(base)];
          if (!roots.length) equal(t.out, enc, `encoded suggestions for ${show(words)}`);
        }
      },
    },
    {
      name: "run", runs: { quick: 6000, thorough: 150000 }, async: true,
      arb: (fc) => fc.record({ c: caseArb(fc), edits: editsArb(fc, 3), put: fc.array(fc.tuple(fc.nat(20), fc.nat(20)), { maxLength: 2 }), cfg: cfgArb(fc), bits: fc.array(fc.nat(1), { maxLength: 8 }), how: fc.nat(2), exit: fc.constantFrom(undefined, 1, 2, 64, 0) }),
      async check({ c, edits, put, cfg, bits, how, exit }, ctx) {
        const p = planCase(c);
        if (!p) return ctx.trivial("no plan");
        const act = active(cfg), words = metaWords(act), opts = options(cfg, act);
        const tokens = editTokens(p, edits);
        for (const [i, j] of put) if (words.length) tokens.splice(tokens.length ? i % (tokens.length + 1) : 0, 0, words[j % words.length]);
        const parser = cfg.async ? build(p.spec, envOf(bits)) : build(p.spec);
        const want = await transcript(parser, tokens, { ...cfg, prog: false }, opts, { how: 0 });
        const out = [], err = [], exits = [];
        class Exit extends Error {}
        const o = { ...opts, maxWidth: cfg.width ?? 10000, programName: PROG, args: tokens, stdout: (s) => out.push(s), stderr: (s) => err.push(s), onExit: (code) => { exits.push(code); throw new Exit(); }, ...(exit === undefined ? {} : { errorExitCode: exit }) };
        let value;
        try {
          const f = how === 1 && parser.mode === "sync" ? runSync : how === 2 ? runAsync : run;
          const { programName: _, ...named } = o;
          value = await (cfg.prog ? f(defineProgram({ parser, metadata: { name: PROG } }), named) : f(parser, o));
        } catch (e) { if (!(e instanceof Exit)) throw e; }
        const what = `run(${show(tokens)})`;
        if (!want.calls.length) { ctx.trivial("no exit"); equal({ value, out, err, exits }, { value: want.value, out: [], err: [], exits: [] }, what); return; }
        const code = want.calls[0][0] === "error" ? exit ?? 1 : 0;
        ctx.label(want.calls[0][0]);
        equal(exits, [code], `${what}: exit status`);
        const norm = (l) => cfg.width ? l : l.map(solid);
        equal(norm(out), norm(want.out), `${what}: stdout`);
        equal(norm(err), norm(want.err), `${what}: stderr`);
      },
    },
  ],
};

function commandsOf(n) { return [...nodes(n)].flatMap((m) => m.k === "cmds" ? m.list.flatMap((q) => [q.name, ...(q.aliases ?? [])]) : []); }
function leaves(n, out = []) {
  if (n.k === "cmds") { for (const q of n.list) out.push(q); return out; }
  if (["opt", "bool", "flag", "neg", "arg", "cond"].includes(n.k)) out.push(n);
  for (const k of kids(n)) leaves(k, out);
  return out;
}
