// run.mjs PROPERTY [--tier quick|thorough] [--replay FILE] [--part NAME] [--scale N]
import { fork } from "node:child_process";
import {
  existsSync, mkdirSync, mkdtempSync, openSync, readFileSync, readSync, closeSync,
  readdirSync, rmSync, statSync, writeFileSync,
} from "node:fs";
import { join } from "node:path";
import process from "node:process";
import { tmpdir } from "node:os";
import { install, ROOT, VERIF, warm } from "./lib/loader.mjs";
import { hash32 } from "./lib/harness.mjs";
import { encode } from "./lib/codec.mjs";
install();

const args = process.argv.slice(2);
const id = args.shift();
const flag = (n) => {
  const i = args.indexOf(`--${n}`);
  return i < 0 ? undefined : args[i + 1];
};
const tier = flag("tier") ?? process.env.VERIF_TIER ?? "quick";
const seed = Number(process.env.VERIF_SEED ?? "1") | 0;
const scale = Number(flag("scale") ?? "1");
const onlyPart = flag("part");
const replay = flag("replay");
const WORKERS = Number(process.env.VERIF_WORKERS ?? "8");
const HANG_MS = Number(process.env.VERIF_HANG_MS ?? "150000");
const t0 = Date.now();

// Warm the transpile cache once, before the workers start.
const sources = [];
for (const p of readdirSync(join(ROOT, "packages"))) {
  const src = join(ROOT, "packages", p, "src");
  if (!existsSync(src)) continue;
  for (const f of readdirSync(src, { recursive: true })) {
    if (/\.ts$/.test(f) && !/\.test\.ts$|\.d\.ts$/.test(f) && statSync(join(src, f)).isFile()) {
      sources.push(join(src, f));
    }
  }
}
try {
  warm(sources);
} catch (e) {
  console.error(`cannot transpile the sources: ${e.message}`);
  process.exit(3);
}

if (id === "--warm") {
  console.log(`${sources.length} sources transpiled`);
  process.exit(0);
}
const check = (await import(`./checks/${id}.mjs`)).default;
const known = (existsSync(join(VERIF, "known-findings.json"))
  ? JSON.parse(readFileSync(join(VERIF, "known-findings.json"), "utf8")).findings
  : []).filter((f) => f.property === id);

const jobs = [];
if (replay) {
  const r = JSON.parse(readFileSync(replay, "utf8"));
  jobs.push({ id, part: r.part, cases: [r.case], kind: "replay", tier });
} else {
  for (const part of check.parts) {
    if (onlyPart && part.name !== onlyPart) continue;
    if (part.tiers && !part.tiers.includes(tier)) continue;
    const fixed = known.filter((k) => k.part === part.name && k.status === "fixed" && k.case !== undefined);
    const regs = [...(part.regressions ?? []).map(encode), ...fixed.map((k) => k.case)];
    if (regs.length) jobs.push({ id, part: part.name, cases: regs, kind: "regression", tier });
    const kn = known.filter((k) => k.part === part.name && k.status === "known");
    if (kn.length) jobs.push({ id, part: part.name, cases: kn.map((k) => k.case), kind: "known", known: kn, tier });
    const total = Math.max(1, Math.round((part.runs[tier] ?? part.runs.quick) * scale));
    const shards = Math.min(part.shards?.[tier] ?? part.shards?.quick ?? WORKERS, total, tier === "thorough" ? 64 : 16);
    for (let s = 0; s < shards; s++) {
      jobs.push({
        id, part: part.name, kind: "search", tier, shard: s,
        runs: Math.ceil(total / shards),
        seed: hash32(`${seed}|${id}|${part.name}|${s}`),
      });
    }
  }
}

const scratch = mkdtempSync(join(tmpdir(), `verif-${id}-`));
process.on("exit", () => rmSync(scratch, { recursive: true, force: true }));
const failures = [];
const errors = [];
const knownHits = [];
const agg = new Map();
const results = [];
let stop = false;

function spawn(i) {
  const beatFile = join(scratch, `beat-${i}`);
  writeFileSync(beatFile, Buffer.alloc(8));
  const child = fork(join(VERIF, "lib", "worker.mjs"), [], {
    env: {
      ...process.env, VERIF_BEAT: beatFile, VERIF_SCRATCH: scratch, NO_COLOR: "1", TZ: "UTC",
      ...(check.env ?? {}),
    },
    execArgv: ["--no-warnings", "--max-old-space-size=3000", ...(check.execArgv ?? [])],
    stdio: ["ignore", "ignore", "inherit", "ipc"],
  });
  return { child, beatFile };
}

function readBeat(file) {
  const fd = openSync(file, "r");
  const b = Buffer.alloc(8);
  readSync(fd, b, 0, 8, 0);
  closeSync(fd);
  return [b.readUInt32LE(0), b.readUInt32LE(4)];
}

function send(w, job, hangMs) {
  return new Promise((resolve) => {
    let last = -1, lastRun = 0, since = Date.now();
    const timer = setInterval(() => {
      const [n, run] = readBeat(w.beatFile);
      if (n !== last) {
        last = n; lastRun = run; since = Date.now();
      } else if (Date.now() - since > hangMs) {
        done({ ok: false, hang: true, run: lastRun, error: `no progress for ${hangMs} ms` });
        w.child.kill("SIGKILL");
        w.dead = true;
      }
    }, 500);
    const onMsg = (m) => { if (!m.ready) done(m); };
    const onExit = (code, sig) => { w.dead = true; done({ ok: false, crashed: true, error: `worker exited (${code ?? sig})` }); };
    function done(r) {
      clearInterval(timer);
      w.child.off("message", onMsg);
      w.child.off("exit", onExit);
      resolve(r);
    }
    w.child.on("message", onMsg);
    w.child.on("exit", onExit);
    w.child.send(job);
  });
}

async function ready(w) {
  await new Promise((res, rej) => {
    w.child.once("message", res);
    w.child.once("exit", (c) => rej(new Error(`worker failed to start (${c})`)));
  });
}

async function lane(i) {
  let w = null;
  while (!stop) {
    const job = jobs.shift();
    if (!job) break;
    if (!w || w.dead) {
      w = spawn(i);
      await ready(w);
    }
    const r = await send(w, job, job.hangMs ?? HANG_MS);
    if (r.crashed && job.kind === "search") {
      // A crash of the worker (memory, abort): run the last case alone.
      const [, run] = readBeat(w.beatFile);
      const w2 = spawn(`${i}c`);
      await ready(w2);
      const s = run === 0xffffffff ? { ok: false }
        : await send(w2, { ...job, sampleAt: run, kind: "sample" }, 60000);
      if (s.ok) {
        const again = await send(w2, { id, part: job.part, cases: [s.case], kind: "regression", tier }, HANG_MS);
        w2.child.kill("SIGKILL");
        if (again.crashed || again.hang || again.results?.[0]) {
          failures.push({ part: job.part, case: s.case, error: again.results?.[0] ?? `the process dies on this case: ${again.error}`, seed: job.seed, path: String(run) });
          stop = true;
          continue;
        }
      } else w2.child.kill("SIGKILL");
    }
    if (r.hang && job.kind === "search") {
      // Regenerate the case that hung (not shrunk).
      const w2 = spawn(`${i}s`);
      await ready(w2);
      const s = r.run === 0xffffffff ? { ok: false }
        : await send(w2, { ...job, sampleAt: r.run, kind: "sample" }, 60000);
      w2.child.kill("SIGKILL");
      if (s.ok && check.hangIsViolation !== false) {
        failures.push({ part: job.part, case: s.case, error: `did not terminate within ${HANG_MS} ms`, seed: job.seed, path: String(r.run) });
        if (tier !== "thorough") stop = true;
        continue;
      }
    }
    if (!r.ok) {
      errors.push(`${job.part}#${job.shard ?? job.kind}: ${r.error}`);
      stop = true;
      continue;
    }
    let a = agg.get(job.part);
    if (!a) agg.set(job.part, a = { evaluations: 0, nontrivial: new Set(), labels: {}, samples: [] });
    a.evaluations += r.stats.evaluations;
    for (const k of r.stats.nontrivial) a.nontrivial.add(k);
    for (const [l, n] of Object.entries(r.stats.labels)) a.labels[l] = (a.labels[l] ?? 0) + n;
    if (a.samples.length < 3) a.samples.push(...r.stats.samples.slice(0, 3 - a.samples.length));
    if (r.failure) {
      failures.push({ part: job.part, ...r.failure });
      stop = true;
    }
    if (r.results) {
      r.results.forEach((e, j) => {
        if (e == null) return;
        if (job.kind === "known") knownHits.push({ ...job.known[j], error: e });
        else failures.push({ part: job.part, case: job.cases[j], error: e, kind: job.kind });
      });
      if (failures.length) stop = true;
    }
  }
  w?.child.kill();
}
await Promise.all(Array.from({ length: Math.min(WORKERS, jobs.length) }, (_, i) =>
  lane(i).catch((e) => { errors.push(e.message); stop = true; })));

const wall = (Date.now() - t0) / 1000;
if (!replay && !onlyPart) {
  mkdirSync(join(VERIF, "evidence"), { recursive: true });
  const parts = {};
  let evaluations = 0, distinct = 0;
  const samples = [];
  for (const [name, a] of agg) {
    evaluations += a.evaluations;
    distinct += a.nontrivial.size;
    parts[name] = { evaluations: a.evaluations, distinct_nontrivial: a.nontrivial.size, classes: a.labels };
    samples.push(...a.samples.slice(0, 2).map((c) => ({ part: name, case: c })));
  }
  writeFileSync(join(VERIF, "evidence", `${id}.json`), JSON.stringify({
    property: id, tier, seed, level: check.level ?? "exploration",
    coverage: {
      evaluations, distinct_nontrivial: distinct, rule: check.rule,
      samples: samples.slice(0, 12), parts,
      known_findings: known.filter((k) => k.status === "known").length,
      inconclusive: errors,
    },
    assumptions: check.assumptions ?? [],
    wall_s: wall, violations: failures.length,
  }, null, 1) + "\n");
}

for (const k of knownHits) {
  console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
}
let code = 0;
if (failures.length) {
  code = 1;
  mkdirSync(join(VERIF, "replays"), { recursive: true });
  failures.sort((a, b) => JSON.stringify(a.case).length - JSON.stringify(b.case).length);
  failures.splice(3);
  failures.forEach((f, i) => {
    const file = replay ?? join(VERIF, "replays", `${id}-${f.part}${i ? `-${i}` : ""}.json`);
    if (!replay) {
      writeFileSync(file, JSON.stringify({
        property: id, part: f.part, case: f.case, error: f.error, seed: f.seed, path: f.path,
        command: `./check ${id} --replay ${file}`,
      }, null, 1) + "\n");
    }
    console.log(`part ${f.part}: ${f.error}`);
    console.log(`case: ${JSON.stringify(f.case)}`);
    console.log(`VIOLATION property=${id} replay=${file}`);
  });
} else if (errors.length) {
  for (const e of errors) console.error(`inconclusive: ${e}`);
  code = 2;
} else {
  let n = 0, d = 0;
  for (const a of agg.values()) { n += a.evaluations; d += a.nontrivial.size; }
  console.log(`ok ${id} ${tier}: ${n} cases, ${d} distinct non-trivial, ${wall.toFixed(1)} s`);
}
process.exit(code);
