// Runs jobs (one shard of one part of one property) sent by run.mjs.
import process from "node:process";
import { openSync, writeSync } from "node:fs";
import { install, VERIF } from "./loader.mjs";
install();
const fc = (await import("fast-check")).default;
const { caseKey, Ctx, Violation } = await import("./harness.mjs");
const { encode, decode } = await import("./codec.mjs");
const { pathToFileURL } = await import("node:url");
const { join } = await import("node:path");

const beat = process.env.VERIF_BEAT ? openSync(process.env.VERIF_BEAT, "w") : null;
const beatBuf = Buffer.alloc(16);
let beatN = 0;
function heartbeat(run) {
  if (beat == null) return;
  beatBuf.writeUInt32LE(++beatN, 0);
  beatBuf.writeUInt32LE(run, 4);
  writeSync(beat, beatBuf, 0, 8, 0);
}

let unhandled = [];
process.on("unhandledRejection", (e) => unhandled.push(e));
process.on("uncaughtException", (e) => unhandled.push(e));

function errorText(e) {
  if (e instanceof Violation) return e.message;
  if (e instanceof Error) return `${e.stack ?? e.message}`.slice(0, 4000);
  return `thrown: ${String(e)}`;
}

async function loadCheck(id) {
  return (await import(pathToFileURL(join(VERIF, "checks", `${id}.mjs`)).href)).default;
}

async function runOne(part, c, ctx) {
  unhandled = [];
  await part.check(c, ctx);
  if (part.async && unhandled.length) {
    const e = unhandled[0];
    unhandled = [];
    throw new Violation(`unhandled rejection: ${errorText(e)}`);
  }
}

async function job(msg) {
  const check = await loadCheck(msg.id);
  const part = check.parts.find((p) => p.name === msg.part);
  if (!part) throw new Error(`no part ${msg.part} in ${msg.id}`);
  if (part.setup) await part.setup();
  const stats = { evaluations: 0, nontrivial: [], labels: {}, samples: [] };
  const seen = new Set();
  let shrinking = false;
  const record = (c, ctx) => {
    if (shrinking) return;
    stats.evaluations++;
    for (const l of new Set(ctx.labels)) stats.labels[l] = (stats.labels[l] ?? 0) + 1;
    if (ctx.isTrivial) return;
    const k = caseKey(c);
    if (seen.has(k)) return;
    seen.add(k);
    if (stats.samples.length < 2 && seen.size % 7 === 1) stats.samples.push(encode(c));
  };
  let failure = null;
  let run = 0;
  const body = async (c) => {
    heartbeat(shrinking ? 0xffffffff : run++);
    const ctx = new Ctx(stats);
    try {
      await runOne(part, c, ctx);
      record(c, ctx);
    } catch (e) {
      shrinking = true;
      throw e;
    }
  };
  if (msg.cases) {
    // Fixed cases: regressions, known findings and replays.
    const results = [];
    for (const enc of msg.cases) {
      const c = decode(enc);
      heartbeat(run++);
      const ctx = new Ctx(stats);
      try {
        await runOne(part, c, ctx);
        record(c, ctx);
        results.push(null);
      } catch (e) {
        stats.evaluations++;
        results.push(errorText(e));
      }
    }
    if (part.teardown) await part.teardown();
    stats.nontrivial = [...seen];
    return { stats, results };
  }
  const arb = part.arb(fc, { tier: msg.tier, shard: msg.shard });
  if (msg.sampleAt != null) {
    const [c] = fc.sample(arb, { seed: msg.seed, path: String(msg.sampleAt), numRuns: 1 });
    return { case: encode(c) };
  }
  let shrinkBudget = part.shrinkBudget ?? 800;
  const property = fc.asyncProperty(arb, async (c) => {
    if (shrinking && shrinkBudget-- <= 0) return; // stop shrinking, keep the best so far
    await body(c);
  });
  const report = await fc.check(property, {
    seed: msg.seed,
    numRuns: msg.runs,
    endOnFailure: false,
    verbose: 0,
    // The tail of a long run: never skip, never time out.
    ...(part.fcParams ?? {}),
  });
  if (report.failed) {
    if (report.counterexample == null) {
      throw new Error(`fast-check gave up: ${JSON.stringify({ n: report.numRuns, skips: report.numSkips })}`);
    }
    const [c] = report.counterexample;
    failure = {
      case: encode(c),
      error: errorText(report.errorInstance ?? report.error),
      seed: report.seed,
      path: report.counterexamplePath,
      shrinks: report.numShrinks,
    };
  }
  if (part.teardown) await part.teardown();
  stats.nontrivial = [...seen];
  return { stats, failure };
}

process.on("message", async (msg) => {
  try {
    const result = await job(msg);
    process.send({ ok: true, ...result });
  } catch (e) {
    process.send({ ok: false, error: errorText(e) });
  }
});
process.send({ ready: true });
