import { mkdirSync, readFileSync, rmSync, symlinkSync, writeFileSync, readdirSync, statSync, realpathSync } from "node:fs";
import { join, relative } from "node:path";
import { pathToFileURL } from "node:url";
import * as core from "@optique/core";
import { commandsFromModules, createProgramParser, defineCommand, discoverCommands, runProgram } from "@optique/discover";
import { generateCommandsModule, watchCommandsModule, writeCommandsModule } from "@optique/discover/generator";
import { bindEnv, createEnvContext } from "@optique/env";
import { toAsync } from "../lib/grammar.mjs";
import { assert, equal, fail, show, Violation } from "../lib/harness.mjs";
import { scratch } from "../lib/scratch.mjs";

/* ---- files ---- */
const DIRS = ["user", "remote", "v1.2", "new thing", "index", "ünï", "per%cent", "ha#sh", "qu?ery"];
const BASES = ["add", "list", "index", "mod", "user", "remote", "test", "latest", "spec", "a.b", "add.test", "list.spec", "add.cmd", "new thing", "per%20cent", "ha#sh", "qu?ery", "__proto__", "constructor"];
const EXTS = [".mjs", ".mjs", ".mjs", ".js", ".cjs", ".ts", ".mts", ".cts", ".cmd.mjs", ".web.mjs", ".cmd.ts", ".d.ts", ".d.mts", ".txt", ".json"];
const RUNTIME = [".js", ".mjs", ".cjs", ".ts", ".mts", ".cts"];
const CHOICES = [undefined, undefined, [".mjs"], [".mjs", ".js"], [".cmd.mjs"], [".mjs", ".cmd.mjs"], [".mjs", ".web.mjs"], [".web.mjs", ".cmd.mjs", ".mjs"], [".ts", ".cmd.ts", ".mjs"], [".d.ts", ".mjs"], [".mjs", ".mjs", ".cjs"], [".cmd.ts", ".cmd.mjs", ".ts", ".mts", ".js", ".cjs", ".mjs"]];
let cases = 0;
const WATCHED = ["add.mjs", "list.mjs", "user.mjs", "user/index.mjs", "user/add.mjs", "add.test.mjs", "notes.txt"];
const WATCHED_COMMANDS = new Set(WATCHED.slice(0, 5));
/* The documented rule: the longest configured suffix is removed, an entry file stands for its directory. */
function pathOf(segments, extensions, entry) {
  const name = segments.at(-1), ext = extensions.filter((e) => name.endsWith(e)).sort((a, b) => b.length - a.length)[0];
  if (!ext || [".d.ts", ".d.mts", ".d.cts"].some((e) => name.endsWith(e))) return null;
  const base = name.slice(0, name.length - ext.length);
  if (base.endsWith(".test") || base.endsWith(".spec")) return null;
  return base === entry ? segments.slice(0, -1) : [...segments.slice(0, -1), base];
}
/* Files below a directory, links followed but not into a directory that is being read. */
function walk(dir, above = []) {
  const here = realpathSync(dir);
  if (above.includes(here)) return [];
  return readdirSync(dir).flatMap((name) => {
    let s;
    try { s = statSync(join(dir, name)); } catch { return []; }
    return s.isDirectory() ? walk(join(dir, name), [...above, here]).map((p) => [name, ...p]) : s.isFile() ? [[name]] : [];
  });
}
globalThis.optiqueVerifCommand = (id, declared) => Object.assign(defineCommand({ parser: core.constant(id), handler() {}, ...(declared ? { path: declared } : {}) }), { id });

/* ---- dispatch ---- */
const NODES = [[], ["a"], ["b"], ["a", "b"], ["a", "c"], ["b", "a"], ["a", "b", "c"], ["a", "b", "a"], ["c", "c", "c"], ["add-user"]];
const nodeArb = (fc) => fc.record({
  node: fc.nat(NODES.length - 1), text: fc.constantFrom("none", "optional", "required"), flag: fc.boolean(), words: fc.constantFrom("none", "none", "one", "many"), isAsync: fc.constantFrom(false, false, false, true), env: fc.constantFrom(false, false, true),
  alias: fc.boolean(), hidden: fc.constantFrom(false, false, false, true, "usage", "doc", "help"), brief: fc.boolean(),
  hooks: hooksArb(fc), handler: fc.constantFrom("returns", "returns", "returns", "waits", "throws", "rejects"),
});
const hookArb = (fc) => fc.constantFrom("none", "plain", "plain", "waits", "throws", "rejects");
const hooksArb = (fc) => fc.oneof({ weight: 2, arbitrary: fc.constant(null) }, { weight: 3, arbitrary: fc.record({ before: hookArb(fc), gives: fc.constantFrom("resource", "resource", "null", "nothing"), after: hookArb(fc), error: hookArb(fc) }) });

export default {
  id: "C28",
  title: "Each command file is the command of its path, and a line runs one handler",
  statement: "Discovery, module maps and generated modules agree: exactly the modules with a configured suffix, other than tests and declarations, are commands at the path of their file, and duplicate paths, foreign exports and wrong declared paths are refused; a watched module follows every change of the files. runProgram() runs, for a line that names a command, exactly that handler once with its value, inside program and command hooks in the documented order, passing resources and errors on unchanged; any other line runs none.",
  quantifier: [["inputs", "faults", "environment"], "file trees with links, nested and hostile names, suffixes and entry names; command trees with executable parents, aliases, hidden and asynchronous commands; hooks and handlers that wait, throw or reject; contexts; wrong lines"],
  why: "The mapping must hold for every layout and the hook order for every combination of failures; running the wrong handler, or none, is silent.",
  files: ["packages/discover/src/index.ts", "packages/discover/src/generator.ts", "packages/discover/src/command.ts"],
  mechanism: [["discoverCommands(), commandsFromModules()", "packages/discover/src/index.ts"], ["runHookScope(), dispatchInvocation(), createExecutableNodeParser()", "packages/discover/src/index.ts"], ["generateCommandsModule()", "packages/discover/src/generator.ts"]],
  rule: "at least two command files, or a line that reaches a command.",
  assumptions: ["file names without backslashes, POSIX paths", "commands are executed on Node with its native TypeScript support"],
  parts: [{
    name: "files", runs: { quick: 6000, thorough: 100000 }, async: true,
    arb: (fc) => fc.record({
      files: fc.array(fc.record({ dirs: fc.array(fc.constantFrom(...DIRS), { maxLength: 2 }), base: fc.constantFrom(...BASES), ext: fc.constantFrom(...EXTS), holds: fc.constantFrom(...Array(24).fill("command"), "nested", "nested", "foreign"), declares: fc.constantFrom(...Array(12).fill("no"), "right", "right", "wrong") }), { minLength: 1, maxLength: 7 }),
      links: fc.array(fc.record({ dirs: fc.array(fc.constantFrom(...DIRS), { maxLength: 1 }), name: fc.constantFrom("zlink", "again"), to: fc.nat(5) }), { maxLength: 1 }),
      extensions: fc.nat(CHOICES.length - 1), entry: fc.constantFrom(undefined, undefined, "mod", false, "add"), url: fc.boolean(), out: fc.constantFrom("beside", "inside", "above", "deep"), root: fc.constantFrom("commands", "com mands", ".commands", "c#d"), base: fc.constantFrom(null, null, "./x", "/abs/y/", "x"), spell: fc.nat(3),
    }),
    async check(c, ctx) {
      const top = join(scratch(), `case${cases++}`), dir = join(top, "p", c.root);
      mkdirSync(dir, { recursive: true });
      try {
        writeFileSync(join(top, "package.json"), `{"type":"module"}`);
        const extensions = CHOICES[c.extensions], used = extensions ?? RUNTIME, entry = c.entry === undefined ? "index" : c.entry;
        const seen = new Map();
        c.files.forEach((f, id) => {
          const segments = [...f.dirs, f.base + f.ext], key = segments.join("/");
          if (seen.has(key)) return;
          mkdirSync(join(dir, ...f.dirs), { recursive: true });
          const path = pathOf(segments, used, entry) ?? ["x"];
          const declared = f.declares === "no" ? undefined : f.declares === "right" ? path : [...path, "else"];
          const made = f.holds === "foreign" ? `{ parser: 1 }` : `globalThis.optiqueVerifCommand(${id}, ${JSON.stringify(declared)})`;
          const value = f.holds === "nested" ? `{ default: ${made} }` : made;
          writeFileSync(join(dir, ...segments), /\.(cjs|cts)$/.test(f.ext) ? `module.exports = ${value};` : `export default ${value};`);
          seen.set(key, { id, bad: f.holds === "foreign", declared });
        });
        for (const l of c.links) {
          mkdirSync(join(dir, ...l.dirs), { recursive: true });
          const target = [dir, join(dir, DIRS[0]), join(dir, ...l.dirs), join(dir, "gone")][l.to];
          if (l.to < 4) symlinkSync(target, join(dir, ...l.dirs, l.name));
          else { // a link to a file
            const f = c.files[(l.to - 4) % c.files.length];
            symlinkSync(join(dir, ...f.dirs, f.base + f.ext), join(dir, ...l.dirs, l.name + f.ext));
          }
        }
        // The model.
        const found = walk(dir).map((segments) => ({ segments, path: pathOf(segments, used, entry), of: seen.get(relative(realpathSync(dir), realpathSync(join(dir, ...segments)))) })).filter((f) => f.path);
        const keys = found.map((f) => JSON.stringify(f.path)), duplicate = new Set(keys).size < keys.length;
        const badExport = found.some((f) => f.of.bad), badPath = found.some((f) => f.of.declared && JSON.stringify(f.of.declared) !== JSON.stringify(f.path));
        const refused = !found.length || duplicate || badExport || badPath;
        const list = (l) => l.map((e) => ({ path: e.path, id: e.command.id })).sort((a, b) => JSON.stringify(a) < JSON.stringify(b) ? -1 : 1);
        const want = list(found.map((f) => ({ path: f.path, command: { id: f.of.id } })));
        if (found.length < 2) ctx.trivial("fewer than two commands");
        ctx.label(!found.length ? "no commands" : duplicate ? "duplicate" : badExport ? "foreign export" : badPath ? "wrong path" : "accepted", c.links.length ? "linked" : "plain");
        const layout = () => `${walk(dir).map((s) => s.join("/")).join(", ")} with ${show(extensions ?? "default suffixes")} and entry ${show(entry)}`;
        const options = { ...(extensions ? { extensions } : {}), ...(c.entry === undefined ? {} : { entryFileName: c.entry }) };
        const attempt = async (what, f) => {
          try { return { value: await f() }; } catch (e) {
            assert(e instanceof TypeError, () => `${what} of ${layout()} throws ${e?.stack ?? show(e)}`);
            return { error: e };
          }
        };
        const discovered = await attempt("discovery", () => discoverCommands({ dir: c.url ? pathToFileURL(dir + "/") : dir, ...options }));
        assert(!discovered.error === !refused, () => `discovery of ${layout()} ${discovered.error ? `is refused: ${discovered.error.message}` : `is accepted, not refused`}`);
        if (discovered.value) {
          equal(list(discovered.value), want, `commands of ${layout()}`);
          for (const e of discovered.value) assert(found.some((f) => join(dir, ...f.segments) === e.filePath && f.of.id === e.command.id), () => `file ${e.filePath} of ${layout()}`);
        }
        // The same files as a module map.
        const modules = {};
        const prefix = ["./cmds", "cmds", "/abs/cmds", "../cmds"][c.spell];
        for (const segments of walk(dir)) {
          const of = seen.get(relative(realpathSync(dir), realpathSync(join(dir, ...segments))));
          const value = of.bad ? { parser: 1 } : globalThis.optiqueVerifCommand(of.id, of.declared);
          modules[`${prefix}/${segments.join("/")}`] = of.id % 3 ? { default: value } : of.id % 2 ? value : { default: { default: value } };
        }
        const mapped = await attempt("the module map", () => commandsFromModules(modules, { base: prefix, ...options }));
        assert(!mapped.error === !refused, () => `the module map of ${layout()} ${mapped.error ? `is refused: ${mapped.error.message}` : `is accepted, not refused`}`);
        if (mapped.value) {
          equal(list(mapped.value), want, `commands of the module map of ${layout()}`);
          equal(mapped.value.map((e) => e.path), discovered.value.map((e) => e.path), `order of the commands of ${layout()}`);
        }
        // And as a generated module.
        const outputFile = { beside: join(top, "p", "out.ts"), inside: join(dir, "zgen.ts"), above: join(top, "out.mts"), deep: join(top, "q", "r", "out.ts") }[c.out];
        const generatorOptions = { dir: c.url ? pathToFileURL(dir + "/") : dir, outputFile, ...options, ...(c.base ? { base: c.base } : {}) };
        const generated = await attempt("generation", () => writeCommandsModule(generatorOptions));
        // The modules are not imported here, so what they export does not matter yet.
        assert(!generated.error === !(duplicate || !found.length), () => `generation for ${layout()} ${generated.error ? `is refused: ${generated.error.message}` : `is accepted, not refused`}`);
        if (!generated.value) return;
        equal((await generateCommandsModule(generatorOptions)).code, generated.value.code, `code generated again for ${layout()}`);
        equal(generated.value.files.length, found.length, `generated files for ${layout()}`);
        const loaded = await attempt(`the module generated in ${c.out} (root ${c.root}, base ${c.base}):\n${generated.value.code}`, async () => (await import(pathToFileURL(outputFile).href)).default);
        assert(!loaded.error === !refused, () => `the module generated for ${layout()} ${loaded.error ? `is refused: ${loaded.error.message}` : `is accepted, not refused`}`);
        if (loaded.value) equal(list(loaded.value), want, `commands of the module generated for ${layout()}`);
      } finally { rmSync(top, { recursive: true, force: true }); }
    },
  }, {
    // The module that is watched is, after every change of the files, the one generated from them.
    name: "watch", runs: { quick: 250, thorough: 6000 }, async: true,
    arb: (fc) => fc.record({ first: fc.subarray(WATCHED), steps: fc.array(fc.oneof({ weight: 5, arbitrary: fc.record({ toggle: fc.nat(WATCHED.length - 1) }) }, { weight: 1, arbitrary: fc.record({ edit: fc.nat(WATCHED.length - 1) }) }), { minLength: 1, maxLength: 5 }), empty: fc.boolean(), inside: fc.boolean(), entry: fc.constantFrom(undefined, undefined, false) }),
    async check(c, ctx) {
      const top = join(scratch(), `case${cases++}`), dir = join(top, "commands"), outputFile = c.inside ? join(dir, "zout.ts") : join(top, "made", "out.ts");
      mkdirSync(join(dir, "user"), { recursive: true });
      const abort = new AbortController();
      let done;
      try {
        const present = new Set(c.first), errors = [], results = [];
        const put = (n) => writeFileSync(join(dir, n), `export default globalThis.optiqueVerifCommand(0);`);
        for (const n of present) put(n);
        const options = { dir, outputFile, ...(c.entry === false ? { entryFileName: false } : {}) };
        done = watchCommandsModule({ ...options, intervalMs: 1, signal: abort.signal, onGenerate: (r) => results.push(r), onError: (e) => errors.push(e) });
        const read = () => { try { return readFileSync(outputFile, "utf-8"); } catch { return null; } };
        const history = [`start with ${[...present].join(", ") || "no files"}`];
        const told = () => `${history.join(", then ")} (entry ${show(c.entry ?? "index")})`;
        const until = async (what, f) => {
          const end = Date.now() + 20000;
          while (!f()) {
            if (Date.now() > end) fail(`${what} within 20 s of: ${told()}; it holds ${show(read())}, ${results.length} generations, errors ${show(errors.map((e) => e.message))}`);
            await new Promise((r) => setTimeout(r, 1));
          }
        };
        const settle = async () => {
          const names = [...present].filter((n) => WATCHED_COMMANDS.has(n));
          const paths = names.map((n) => JSON.stringify(pathOf(n.split("/"), RUNTIME, c.entry === undefined ? "index" : c.entry)));
          if (new Set(paths).size < paths.length) {
            const before = errors.length;
            await until("no error is reported for two files of one path", () => errors.length > before);
            assert(errors.at(-1) instanceof TypeError, () => `error ${show(errors.at(-1))} reported after ${told()}`);
            ctx.label("duplicate");
          } else if (names.length) {
            const want = await generateCommandsModule(options);
            await until("the module is not the one generated from the files", () => read() === want.code);
            ctx.label("commands");
          } else {
            await until("the module still names commands", () => read() !== null && results.at(-1)?.files.length === 0 && !/\.mjs|\.ts"/.test(read()));
            ctx.label("none");
          }
        };
        await settle();
        const steps = [...c.steps, ...(c.empty ? WATCHED.map((_, i) => ({ remove: i })) : [])];
        for (const s of steps) {
          const name = WATCHED[s.toggle ?? s.edit ?? s.remove];
          if (s.edit !== undefined) {
            if (!present.has(name)) continue;
            put(name);
            history.push(`edit ${name}`);
          } else if (present.has(name)) { present.delete(name); rmSync(join(dir, name)); history.push(`remove ${name}`); }
          else if (s.remove !== undefined) continue;
          else { present.add(name); put(name); history.push(`add ${name}`); }
          await settle();
        }
        if (history.length < 2) ctx.trivial("no change");
        assert(results.length <= history.length, () => `${results.length} generations for ${told()}`);
        abort.abort();
        await done;
        done = null;
        const code = read(), count = results.length;
        put("late.mjs");
        await new Promise((r) => setTimeout(r, 4));
        assert(read() === code && results.length === count, () => `the module is rewritten after the watch was stopped: ${told()}`);
      } finally {
        abort.abort();
        await done;
        rmSync(top, { recursive: true, force: true });
      }
    },
  }, {
    name: "dispatch", runs: { quick: 36000, thorough: 600000 }, async: true,
    arb: (fc) => fc.record({
      nodes: fc.uniqueArray(nodeArb(fc), { minLength: 1, maxLength: 6, selector: (n) => n.node }), pick: fc.nat(5), hooks: hooksArb(fc), way: fc.constantFrom("commands", "entries", "modules"),
      line: fc.constantFrom("ok", "ok", "ok", "ok", "ok", "option", "word", "missing", "namespace", "help", "completion"), useAlias: fc.boolean(), given: fc.nat(7), many: fc.nat(3), twoPass: fc.boolean(), envSet: fc.boolean(), ticks: fc.nat(2), top: fc.boolean(),
    }),
    async check(c, ctx) {
      const log = [];
      const env = {};
      const envContext = createEnvContext({ source: (k) => env[k] });
      const told = [];
      const recorder = { id: Symbol("recorder"), phase: "two-pass", getAnnotations(request) { if (request?.phase === "phase2") told.push(request.parsed); return {}; } };
      const boom = {};
      /* A hook or handler that reports the call and then does what its mode says. */
      const does = (name, mode, gives) => (...args) => {
        log.push({ name, args });
        if (mode === "throws") throw (boom[name] = new Error(name));
        if (mode === "rejects") return Promise.resolve().then(() => { throw (boom[name] = new Error(name)); });
        if (mode === "waits") return (async () => { for (let i = 0; i < 4; i++) await null; log.push({ name: `${name} done` }); return gives; })();
        return gives;
      };
      const scope = (name, h) => h === null ? null : { name, h, gives: h.gives === "resource" ? { resource: { of: name } } : h.gives === "null" ? null : undefined };
      const hooksOf = (s) => s === null ? undefined : { ...(s.h.before === "none" ? {} : { beforeEach: does(`${s.name} before`, s.h.before, s.gives) }), ...(s.h.after === "none" ? {} : { afterEach: does(`${s.name} after`, s.h.after) }), ...(s.h.error === "none" ? {} : { onError: does(`${s.name} error`, s.h.error) }) };
      const program = scope("program", c.hooks);
      const nodes = c.nodes.map((n, i) => {
        const path = NODES[n.node];
        const parent = c.nodes.some((m) => NODES[m.node].length > path.length && path.every((s, j) => NODES[m.node][j] === s));
        const fields = {}, value = {}, tokens = [];
        const env1 = { make: () => n.isAsync ? toAsync(core.string(), () => c.ticks) : core.string() };
        if (n.text !== "none") {
          let p = core.option(`--text${i}`, env1.make());
          if (n.env) { p = bindEnv(p, { context: envContext, key: `TEXT${i}`, parser: core.string() }); if (c.envSet) env[`TEXT${i}`] = `env${i}`; }
          const given = n.text === "required" && !(n.env && c.envSet) || (c.given & 1);
          if (given) tokens.push(`--text${i}`, `value${i}`);
          fields.text = n.text === "optional" ? core.optional(p) : p;
          value.text = given ? `value${i}` : n.env && c.envSet ? `env${i}` : undefined;
        }
        if (n.flag) { fields.flag = core.option(`--flag${i}`); value.flag = !!(c.given & 2); if (value.flag) tokens.push(`--flag${i}`); }
        if (n.words === "one") { fields.words = core.optional(core.argument(core.string())); value.words = c.given & 4 ? "word" : undefined; if (c.given & 4) tokens.push("word"); }
        if (n.words === "many") { fields.words = core.multiple(core.argument(core.string())); value.words = ["w1", "w2", "w3"].slice(0, c.many); tokens.push(...value.words); }
        const alias = n.alias && path.length ? [`alias${i}`] : undefined;
        const s = scope(`command${i}`, n.hooks);
        const definition = { parser: core.object(fields), metadata: { ...(alias ? { aliases: alias } : {}), ...(n.hidden ? { hidden: n.hidden } : {}), ...(n.brief ? { brief: core.message`brief of ${core.text(`number${i}`)}.` } : {}) }, handler: does(`handler${i}`, n.handler, `result${i}`), ...(n.hooks ? { hooks: hooksOf(s) } : {}), ...(c.way === "commands" ? { path } : {}) };
        return { n, i, path, parent, value, tokens, alias, scope: s, needed: n.text === "required" && !(n.env && c.envSet), command: defineCommand(definition) };
      });
      const target = nodes[c.pick % nodes.length];
      const words = target.path.map((segment, at) => {
        const owner = nodes.find((m) => m.path.length === at + 1 && m.path.every((s, j) => s === target.path[j]));
        return c.useAlias && owner?.alias ? owner.alias[0] : segment;
      });
      let args = [...words, ...target.tokens], refused = false;
      if (c.line === "option") { args.push("--nothing"); refused = true; }
      if (c.line === "word") { if (target.n.words === "many" || (target.n.words === "one" && !(c.given & 4))) return ctx.trivial("the word is an argument"); args.push("unheard"); refused = true; }
      if (c.line === "missing") { if (!target.needed) return ctx.trivial("nothing can be missing"); args = words; refused = true; }
      if (c.line === "namespace") {
        args = target.path.slice(0, -1);
        const owner = nodes.find((m) => JSON.stringify(m.path) === JSON.stringify(args));
        if (!target.path.length || owner) return ctx.trivial("no namespace");
        refused = true;
      }
      if (c.line === "help") args = [...words, "--help"];
      if (c.line === "completion") args = ["--completion", "bash"];
      const what = () => `${JSON.stringify(args)} for ${nodes.map((n) => `/${n.path.join("/")}${n.alias ? `|${n.alias}` : ""} ${show(Object.keys(n.value))}${n.n.isAsync ? " async" : ""}`).join(", ")}`;
      const entries = nodes.map((n) => ({ path: n.path, command: n.command }));
      const commands = c.way === "commands" ? nodes.map((n) => n.command) : c.way === "entries" ? entries : commandsFromModules(Object.fromEntries(nodes.map((n) => [`./m/${[...n.path, ...(n.parent || !n.path.length ? ["index"] : [])].join("/")}.mjs`, { default: n.command }])), { base: "./m", extensions: [".mjs"] });
      const out = { stdout: "", stderr: "", exit: undefined };
      class Exit extends Error {}
      let thrown;
      try {
        await runProgram({ commands, metadata: { name: "prog" }, args, ...(program ? { hooks: hooksOf(program) } : {}), contexts: [envContext, ...(c.twoPass ? [recorder] : [])], stdout: (t) => { out.stdout += `${t}\n`; }, stderr: (t) => { out.stderr += `${t}\n`; }, onExit(code) { out.exit = code; throw new Exit(); }, colors: false, ...(c.top ? { commandList: "top-level" } : {}) });
      } catch (e) { if (e instanceof Violation) throw e; thrown = e; }
      const calls = log.map((e) => e.name);
      if (c.line === "help" || c.line === "completion" || refused) {
        ctx.label(c.line);
        equal(calls, [], `calls for ${what()}`);
        assert(thrown instanceof Exit, () => `${what()} ends with ${thrown?.stack ?? "nothing"}`);
        equal(out.exit, refused ? 1 : 0, `exit code of ${what()}\n${out.stderr}${out.stdout}`);
        assert(refused ? out.stderr && !out.stdout : out.stdout && !out.stderr, () => `${what()} writes ${show(out)}`);
        if (c.line !== "help") return;
        assert(out.stdout.includes(`prog${target.path.length ? ` ${target.path.join(" ")}` : ""}`) || target.n.hidden, () => `the help of ${what()} does not name it:\n${out.stdout}`);
        if (target.n.brief && (target.path.length)) assert(out.stdout.includes(`brief of number${target.i}.`), () => `the help of ${what()} lacks its brief:\n${out.stdout}`);
        if (target.path.length) {
          // The commands directly below it.
          const chain = nodes.filter((m) => m.path.length && m.path.length <= target.path.length && m.path.every((s, j) => s === target.path[j]));
          if (!chain.some((m) => m.n.hidden)) for (const n of nodes) if (n.n.brief && n.path.length === target.path.length + 1 && target.path.every((s, j) => n.path[j] === s)) equal(out.stdout.includes(`brief of number${n.i}.`), !(n.n.hidden === true || n.n.hidden === "doc" || n.n.hidden === "help"), `whether ${n.path.join(" ")} (hidden: ${show(n.n.hidden)}) is described by ${what()}\n${out.stdout}`);
          return;
        }
        // The list of the commands on the root page.
        const hiddenIn = (n) => nodes.some((m) => m.path.length && m.path.length <= n.path.length && m.path.every((s, j) => s === n.path[j]) && (m.n.hidden === true || m.n.hidden === "doc" || m.n.hidden === "help"));
        const lines = out.stdout.split("\n").map((l) => l.trim());
        for (const n of nodes) if (n.path.length && !(c.top && n.path.length > 1)) {
          const listed = lines.some((l) => l === n.path.join(" ") || l.startsWith(`${n.path.join(" ")}  `) || (n.alias && l.startsWith([n.path.join(" "), ...n.alias].join(", "))));
          equal(listed, !hiddenIn(n), `whether ${n.path.join(" ")} (hidden: ${show(n.n.hidden)}) is listed on\n${out.stdout}`);
        }
        return;
      }
      ctx.label("runs", target.parent ? "executable parent" : "leaf", thrown ? "fails" : "succeeds");
      // The documented order of calls.
      const expected = [];
      let failure = null;
      const call = (name, mode, args) => { expected.push({ name, args }); if (mode === "waits") expected.push({ name: `${name} done` }); if (mode === "throws" || mode === "rejects") throw name; };
      const value = Object.fromEntries(Object.entries(target.value));
      const invocation = { path: target.path, value };
      const run = (s, inner, outerContext) => {
        if (s === null) return inner(outerContext, false);
        let context = s.h.before === "none" ? outerContext : {};
        try {
          if (s.h.before !== "none") { call(`${s.name} before`, s.h.before, [invocation]); context = s.gives ?? {}; }
          const result = inner(context, s.h.before !== "none");
          if (s.h.after !== "none") call(`${s.name} after`, s.h.after, [context, result]);
          return result;
        } catch (name) {
          if (s.h.error !== "none") { try { call(`${s.name} error`, s.h.error, [context, name]); } catch { /* cannot hide the failure */ } }
          throw name;
        }
      };
      try {
        run(program, (outer, outerHas) => run(target.scope, (context, has) => { call(`handler${target.i}`, target.n.handler, has || outerHas ? [value, context] : [value]); return `result${target.i}`; }, outer), {});
      } catch (name) { failure = name; }
      if (failure === null) assert(!thrown, () => `${what()} fails: ${thrown?.stack}\n${out.stderr}`);
      equal(calls, expected.map((e) => e.name), `calls for ${what()}\n${out.stderr}`);
      if (failure !== null) assert(thrown === boom[failure], () => `${what()} ends with ${thrown?.stack ?? "nothing"}, not with the error of ${failure}`);
      const clean = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
      log.forEach((e, at) => {
        if (!e.args) return;
        const wantArgs = expected[at].args;
        equal(e.args.length, wantArgs.length, `number of arguments of ${e.name} for ${what()}`);
        wantArgs.forEach((w, j) => {
          const got = e.args[j];
          if (w === invocation) { equal([got.path, clean(got.value)], [w.path, clean(w.value)], `invocation given to ${e.name} for ${what()}`); assert(got.command === target.command && typeof got.handler === "function", () => `command given to ${e.name} for ${what()}`); } else if (w === value) equal(clean(got), clean(w), `value given to ${e.name} for ${what()}`);
          else if (typeof w === "string" && e.name.endsWith("error")) assert(got === boom[w], () => `${e.name} is given ${got?.stack}, not the error of ${w}, for ${what()}`);
          else equal(got, w, `argument ${j} of ${e.name} for ${what()}`);
        });
      });
      equal([out.exit, out.stdout, out.stderr], [undefined, "", ""], `output of ${what()}`);
      if (c.twoPass) { equal(told.length, 1, `second phases of ${what()}`); equal(clean(told[0]), clean(value), `value handed to the context by ${what()}`); }
    },
  }],
};
