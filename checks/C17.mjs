import { execFileSync, spawnSync } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { bash, fish, nu, pwsh, zsh } from "@optique/core/completion";
import { assert, equal, show } from "../lib/harness.mjs";

const SHELLS = { bash, zsh, fish };
const NASTY = ["$(touch canary)", "`touch canary`", ";touch canary;", "|touch canary", "&touch canary", "'", '"', "\\", "a\\b", "\\'", "'\\''", "$HOME", "~", "*", "?", "[a]", "{a,b}", "a b", " a", "a ", "a:b", ":", "a=b", "=", "%", "%s", "%3A", "!", "!!", "#", "\u00e9", "\u65e5\u672c", "\ud83d\ude00", "(", ")", "<x", ">canary", "-", "--", "-n", "-e", "\\n", "\\t", "\\c", "a\tb", "a\nb", "a\rb", "a,b", "@", "^", "__FILE", "null", "$'\\x41'", "\\(", "\\$", "(touch canary)", "$status", "a;b", "<(touch canary)"];
const NAMES = ["prog", "my-app", "a.b", "_x", "9p", "my.cli-tool_2", "p-"];
const clean = (t) => t.replace(/[\t\n\r\0]/g, " ");
/** What the default writer of run() puts on standard output. */
const framed = (shell, suggestions) => [...shell.encodeSuggestions(suggestions)].map((c) => `${c}\n`).join("");

function withScratch(fn) {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "c17-"));
  try {
    fs.mkdirSync(`${dir}/bin`); fs.mkdirSync(`${dir}/work`);
    return fn(dir);
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
function install(dir, name, out) {
  fs.writeFileSync(`${dir}/out`, out);
  fs.writeFileSync(`${dir}/bin/${name}`, `#!/bin/sh\nfor a in "$@"; do printf '%s\\0' "$a"; done > '${dir}/log'\ncat '${dir}/out'\n`, { mode: 0o755 });
}
const environment = (dir) => ({ PATH: `${dir}/bin:/usr/local/bin:/usr/bin:/bin`, HOME: dir, LANG: "C.UTF-8", LC_ALL: "C.UTF-8", TERM: "dumb", XDG_CONFIG_HOME: dir, XDG_DATA_HOME: dir, XDG_CACHE_HOME: dir });
const zeros = (buf) => { const s = String(buf); return s === "" ? [] : s.split("\0").slice(0, -1); };
const log = (dir) => zeros(fs.readFileSync(`${dir}/log`));
function sh(cmd, args, dir, cwd = `${dir}/work`) {
  const r = spawnSync(cmd, args, { cwd, env: environment(dir), timeout: 60000, maxBuffer: 1 << 24 });
  if (r.error) throw new Error(`${cmd}: ${r.error.message}`);
  return r;
}
const q = (s) => `'${s.replace(/'/g, "'\\''")}'`;
const fq = (s) => `'${s.replace(/[\\']/g, "\\$&")}'`;

function bashComplete(dir, name, args, words) {
  fs.writeFileSync(`${dir}/s.bash`, bash.generateScript(name, args));
  // COMP_WORDS as programmable completion sets it: the command and its words
  fs.writeFileSync(`${dir}/t.bash`, `source ${q(`${dir}/s.bash`)}\ncomplete -p ${name} >/dev/null || exit 9\nbefore=$(shopt -p; set +o; echo "\${GLOBIGNORE-unset}")\nCOMP_WORDS=(${name} ${words.map(q).join(" ")})\nCOMP_CWORD=${words.length}\n_${name}\nafter=$(shopt -p; set +o; echo "\${GLOBIGNORE-unset}")\n[[ $before == "$after" ]] || exit 8\n(( \${#COMPREPLY[@]} == 0 )) || printf '%s\\0' "\${COMPREPLY[@]}"\n`);
  const r = sh("bash", ["--norc", "--noprofile", `${dir}/t.bash`], dir);
  assert(r.status === 0, () => `bash exits with ${r.status}${r.status === 8 ? " (shell options not restored)" : ""}: ${r.stderr}`);
  return zeros(r.stdout);
}
function fishComplete(dir, name, args, line) {
  fs.writeFileSync(`${dir}/s.fish`, fish.generateScript(name, args));
  const r = sh("fish", ["--no-config", "-c", `source ${fq(`${dir}/s.fish`)}; complete -C ${fq(`${name} ${line}`)}`], dir);
  assert(r.status === 0 && !String(r.stderr).length, () => `fish exits with ${r.status}: ${r.stderr}`);
  return String(r.stdout).split("\n").slice(0, -1).map((l) => l.split("\t"));
}
function zshComplete(dir, name, args, line) {
  fs.writeFileSync(`${dir}/s.zsh`, zsh.generateScript(name, args));
  fs.writeFileSync(`${dir}/init.zsh`, `PROMPT=
autoload compinit
compinit -D -u
bindkey "^M" undefined
bindkey "^J" undefined
bindkey "^I" complete-word
zstyle ":completion:*" list-grouped false
zstyle ":completion:*" insert-tab false
compadd () {
  if [[ \${@[1,(i)(-|--)]} == *-(O|A|D)\\ * ]]; then builtin compadd "$@"; return $?; fi
  typeset -a __h; local __m
  builtin compadd -O __h "$@"
  builtin compadd "$@"
  for __m in "\${__h[@]}"; do print -rN -- "$__m" >> ${q(`${dir}/hits`)}; done
}
source ${q(`${dir}/s.zsh`)}
donefn () { : > ${q(`${dir}/done`)}; exit }
comppostfuncs=( donefn )
print -r ok
`);
  fs.writeFileSync(`${dir}/hits`, "");
  fs.writeFileSync(`${dir}/cap.zsh`, `zmodload zsh/zpty
zpty z zsh -f -i
zpty -w z source ${q(`${dir}/init.zsh`)}
repeat 20; do zpty -r z line; [[ $line == ok* ]] && break; done
zpty -w z ${q(`${name} ${line}`)}$'\\t'
while zpty -r z line; do :; done
zpty -d z
`);
  const r = sh("zsh", ["-f", `${dir}/cap.zsh`], dir);
  assert(fs.existsSync(`${dir}/done`), () => `zsh did not complete: ${r.stderr}`);
  return zeros(fs.readFileSync(`${dir}/hits`));
}
const untouched = (dir, before) => {
  const now = fs.readdirSync(`${dir}/work`).sort();
  assert(JSON.stringify(now) === JSON.stringify(before), () => `completing changed the directory: ${show(before)} became ${show(now)}`);
};

// ---- files
const FILES = ["a.txt", "a.md", "ab", ".hid", ".hid.txt", "sub/", "sub/x.txt", "sub/y.md", "sub/.z.txt", ".dir/", ".dir/i.txt", "b c.txt", "tag/", "tag/a.txt.bak", "link.txt", "a.tar.gz", "-n", "e*.txt", "txt"];
function modelFiles(list, { type, extensions, hidden }, current) {
  const slash = current.lastIndexOf("/");
  const base = current.slice(slash + 1), dirPart = current.slice(0, slash + 1);
  const insideHidden = dirPart.split("/").some((d) => d.startsWith(".") && d !== "." && d !== "..");
  const out = [];
  for (const f of list) {
    const isDir = f.endsWith("/");
    const p = isDir ? f.slice(0, -1) : f;
    const cut = p.lastIndexOf("/");
    if (p.slice(0, cut + 1) !== dirPart) continue;
    const n = p.slice(cut + 1);
    if (!n.startsWith(base)) continue;
    if (n.startsWith(".") && !hidden && !insideHidden && !base.startsWith(".")) continue;
    if (isDir) { out.push(f); continue; }
    if (type === "directory") continue;
    if (extensions && !extensions.some((e) => n.endsWith(e.startsWith(".") ? e : `.${e}`))) continue;
    out.push(f);
  }
  return [...new Set(out)].sort();
}
const fileArb = (fc) => fc.record({
  list: fc.uniqueArray(fc.constantFrom(...FILES), { minLength: 1, maxLength: 12 }),
  type: fc.constantFrom("file", "directory", "any"),
  extensions: fc.option(fc.uniqueArray(fc.constantFrom(".txt", "txt", ".md", "tar.gz", ".gz"), { minLength: 1, maxLength: 2 }), { nil: null }),
  hidden: fc.boolean(),
  current: fc.constantFrom("", "a", ".", ".h", "sub/", "sub/x", "sub/.", ".dir/", ".dir/i", "t", "ta", "tag/", "zzz", "a.", "nosuch/"),
  extra: fc.boolean(),
});
const layFiles = (dir, list) => {
  for (const f of list) {
    const p = `${dir}/work/${f}`;
    if (f.endsWith("/")) fs.mkdirSync(p, { recursive: true });
    else { fs.mkdirSync(path.dirname(p), { recursive: true }); fs.writeFileSync(p, ""); }
  }
};
const withParents = (list) => [...new Set(list.flatMap((f) => { const d = f.replace(/\/$/, "").split("/").slice(0, -1); return [...d.map((_, i) => `${d.slice(0, i + 1).join("/")}/`), f]; }))];
const fileSuggestion = ({ type, extensions, hidden }) => ({ kind: "file", type, includeHidden: hidden, ...(extensions ? { extensions } : {}) });

const textArb = (fc) => fc.oneof(fc.constantFrom(...NASTY), fc.array(fc.constantFrom(...NASTY), { minLength: 2, maxLength: 3 }).map((a) => a.join("")), fc.string({ unit: "grapheme-ascii", maxLength: 8 }));
const caseOf = (fc, maxWords = 3) => fc.record({
  name: fc.constantFrom(...NAMES),
  args: fc.array(textArb(fc).map((t) => t.replace(/\0/g, "")), { maxLength: 3 }),
  prev: fc.array(fc.oneof(textArb(fc), fc.constantFrom("--opt", "sub", "")).map((t) => t.replace(/[\0]/g, "")), { maxLength: maxWords }),
  current: fc.constantFrom("", "", "-", "--", "--o", "a", "x.y"),
  texts: fc.array(textArb(fc), { maxLength: 5 }),
  desc: fc.array(fc.option(textArb(fc), { nil: null }), { maxLength: 5 }),
});
function suggestionsOf({ current, texts, desc }) {
  const out = [];
  texts.forEach((t, i) => {
    const text = current + t;
    if (clean(text) === "" || clean(text).startsWith("__FILE__:") || out.some((s) => clean(s.text) === clean(text))) return;
    out.push({ kind: "literal", text, ...(desc[i] != null ? { description: [{ type: "text", text: desc[i] }] } : {}) });
  });
  return out;
}
const PLAIN = /^[A-Za-z0-9_.,/@%+-]+$/;

export default {
  id: "C17",
  title: "Shell completion scripts deliver words and suggestions intact",
  statement: "The generated bash, zsh and fish scripts call the program with exactly the configured arguments and the words before the cursor, and the shell ends up offering exactly the suggestions the program printed, each one literally, whatever characters they contain; nothing in them is executed or expanded. File suggestions yield the files a directory holds that match type, extensions, visibility and what was typed. A program name that could be read as shell syntax is refused.",
  quantifier: [["inputs"], "all program names, argument lists, previous words, suggestion texts and descriptions, and directory contents within the generators, run in the real shells"],
  why: "The scripts are shell code written inside template strings: quoting and delimiter mistakes show only with particular characters, in one shell, and can execute text from the completed values.",
  files: ["packages/core/src/completion.ts"],
  mechanism: [["generateScript() and encodeSuggestions() of each shell", "packages/core/src/completion.ts"]],
  observe: ["argument vector of the program as called by the shell", "COMPREPLY, compadd matches and `complete -C` output of bash, zsh and fish", "files in the working directory"],
  rule: "literals: at least one suggestion, and a suggestion, argument or word with a character special to shells; files: the model expects at least one entry; names: the name is not all letters.",
  assumptions: ["bash, zsh and fish are installed (they are in this image); PowerShell and Nushell are not, so their scripts are only checked for refusing bad names and for the transport encoding.",
    "bash words are given as COMP_WORDS, that is after bash's own word splitting at = and : (a known finding)."],
  parts: [
    {
      name: "bash", runs: { quick: 1500, thorough: 40000 }, shrinkBudget: 300,
      arb: (fc) => fc.record({ c: caseOf(fc), pin: fc.constant(null) }),
      check({ c, pin }, ctx) {
        const suggestions = suggestionsOf(c);
        if (!pin && [...c.prev, c.current].some((w) => /[=:\n]/.test(w) && w.length > 1)) c = { ...c, prev: c.prev.filter((w) => !/[=:\n]/.test(w)) };
        if (!suggestions.length && !c.prev.length) ctx.trivial("nothing to carry");
        ctx.label(`${suggestions.length} suggestions`);
        withScratch((dir) => {
          install(dir, c.name, framed(bash, suggestions));
          const words = [...c.prev, c.current];
          const got = bashComplete(dir, c.name, c.args, pin ?? words);
          equal(log(dir), [...c.args, ...words], "arguments the program was called with");
          equal(got, suggestions.map((s) => clean(s.text)), "COMPREPLY");
          untouched(dir, []);
        });
      },
    },
    {
      name: "zsh", runs: { quick: 240, thorough: 6000 }, shrinkBudget: 60,
      arb: (fc) => fc.record({ c: caseOf(fc) }),
      check({ c }, ctx) {
        const suggestions = suggestionsOf(c);
        if (!suggestions.length) return ctx.trivial("no suggestions");
        const prev = c.prev.filter((w) => PLAIN.test(w));
        withScratch((dir) => {
          install(dir, c.name, framed(zsh, suggestions));
          const got = zshComplete(dir, c.name, c.args, [...prev, c.current].join(" "));
          equal(log(dir), [...c.args, ...prev, c.current], "arguments the program was called with");
          equal(got.sort(), suggestions.map((s) => clean(s.text)).sort(), "matches added");
          untouched(dir, []);
        });
      },
    },
    {
      name: "fish", runs: { quick: 400, thorough: 10000 }, shrinkBudget: 60,
      arb: (fc) => fc.record({ c: caseOf(fc) }),
      check({ c }, ctx) {
        const suggestions = suggestionsOf(c);
        if (!suggestions.length) return ctx.trivial("no suggestions");
        const prev = c.prev.filter((w) => PLAIN.test(w));
        withScratch((dir) => {
          install(dir, c.name, framed(fish, suggestions));
          const got = fishComplete(dir, c.name, c.args, [...prev, c.current].join(" "));
          equal(log(dir), [...c.args, ...prev, c.current], "arguments the program was called with");
          equal(got.map(([t]) => t).sort(), suggestions.map((s) => clean(s.text)).sort(), "completions offered");
          untouched(dir, []);
        });
      },
    },
    {
      name: "files", runs: { quick: 800, thorough: 20000 }, shrinkBudget: 200,
      arb: (fc) => fc.record({ f: fileArb(fc), shell: fc.constantFrom("bash", "bash", "fish") }),
      check({ f, shell }, ctx) {
        if (shell === "fish" && f.current.endsWith(".") && !f.current.endsWith("a.")) return ctx.trivial("fish reads . as the directory");
        const list = withParents(f.list);
        const want = modelFiles(list, f, f.current);
        if (!want.length) ctx.trivial("nothing matches");
        ctx.label(shell, f.type);
        withScratch((dir) => {
          layFiles(dir, list);
          const before = fs.readdirSync(`${dir}/work`).sort();
          install(dir, "prog", framed(SHELLS[shell], [fileSuggestion(f)]));
          const got = shell === "bash" ? bashComplete(dir, "prog", [], [f.current]) : fishComplete(dir, "prog", [], f.current).map(([t]) => t);
          equal([...new Set(got)].sort(), want, `${shell} completions for ${show(f.current)} among ${show(list)}`);
          untouched(dir, before);
        });
      },
    },
    {
      name: "names", runs: { quick: 2000, thorough: 50000 },
      arb: (fc) => fc.record({ n: fc.oneof(textArb(fc), fc.constantFrom(...NAMES), fc.tuple(fc.constantFrom(...NAMES), textArb(fc)).map((a) => a.join(""))) }),
      check({ n }, ctx) {
        const safe = /^[A-Za-z0-9_][A-Za-z0-9_.-]*$/.test(n);
        if (/^[a-z]+$/.test(n)) ctx.trivial("plain");
        ctx.label(safe ? "safe" : "unsafe");
        for (const s of [bash, zsh, fish, pwsh, nu]) {
          let ok = true;
          try { s.generateScript(n, []); } catch { ok = false; }
          assert(ok === safe, () => `${s.name}.generateScript(${show(n)}) ${ok ? "accepts the name" : "refuses the name"}`);
        }
      },
    },
    {
      name: "transport", runs: { quick: 4000, thorough: 100000 },
      arb: (fc) => fc.record({ s: fc.array(fc.oneof(fc.record({ kind: fc.constant("literal"), text: textArb(fc), d: fc.option(textArb(fc), { nil: null }) }), fc.record({ kind: fc.constant("file"), type: fc.constantFrom("file", "directory", "any"), pattern: fc.option(textArb(fc), { nil: null }), hidden: fc.boolean(), extensions: fc.option(fc.array(fc.constantFrom(".txt", "md"), { minLength: 1, maxLength: 2 }), { nil: null }) })), { maxLength: 4 }) }),
      check({ s }, ctx) {
        if (!s.length) return ctx.trivial("empty");
        const list = s.map((x) => x.kind === "literal"
          ? { kind: "literal", text: x.text, ...(x.d == null ? {} : { description: [{ type: "text", text: x.d }] }) }
          : { kind: "file", type: x.type, ...(x.pattern == null ? {} : { pattern: x.pattern }), includeHidden: x.hidden, ...(x.extensions ? { extensions: x.extensions } : {}) });
        for (const sh of [bash, zsh, fish, pwsh, nu]) {
          const lines = [...sh.encodeSuggestions(list)].map((c) => `${c}\n`).join("").split("\n").filter((l) => l !== "");
          const seen = lines.map((l) => l.split(sh.name === "zsh" ? "\0" : "\t")[0]);
          const literal = list.map((x) => x.kind === "literal" ? clean(x.text) : null);
          const nonEmpty = (sh.name === "bash") ? list.filter((x) => x.kind !== "literal" || clean(x.text) !== "") : list;
          assert(lines.length === nonEmpty.length, () => `${sh.name}: ${list.length} suggestions became ${lines.length} records ${show(lines)}`);
          nonEmpty.forEach((x, i) => {
            if (x.kind === "literal") return assert(seen[i] === literal[list.indexOf(x)], () => `${sh.name}: ${show(x.text)} became ${show(lines[i])}`);
            // what the scripts do: split at ":" and undo %3A, then %25
            const parts = seen[i].split(":");
            assert(parts.length === 5 && parts[0] === "__FILE__" && parts[1] === x.type, () => `${sh.name}: ${show(lines[i])}`);
            const pattern = parts[3].replaceAll("%3A", ":").replaceAll("%25", "%");
            assert(pattern === clean(x.pattern ?? ""), () => `${sh.name}: pattern ${show(x.pattern)} became ${show(pattern)}`);
            assert(parts[4] === (x.includeHidden ? "1" : "0") && parts[2] === (x.extensions ?? []).map((e) => e.replace(/^\./, "")).join(","), () => `${sh.name}: ${show(lines[i])}`);
          });
        }
      },
    },
  ],
};
