// Shared pieces of the runner and its workers.
import { createHash } from "node:crypto";
import { isDeepStrictEqual, inspect } from "node:util";
import { encode } from "./codec.mjs";

export function hash32(text) {
  return createHash("sha256").update(text).digest().readInt32LE(0);
}

export function caseKey(c) {
  return createHash("sha256").update(JSON.stringify(encode(c))).digest("base64url").slice(0, 16);
}

/** A failed oracle. Anything else thrown by a check is a failure, too. */
export class Violation extends Error {
  constructor(message) {
    super(message);
    this.name = "Violation";
  }
}

export const show = (v) =>
  inspect(v, { depth: 12, breakLength: 140, maxArrayLength: 60, maxStringLength: 2000, showProxy: false });

export function fail(message) {
  throw new Violation(message);
}

export function assert(cond, message) {
  if (!cond) throw new Violation(typeof message === "function" ? message() : message);
}

export function equal(actual, expected, what) {
  if (!isDeepStrictEqual(actual, expected)) {
    throw new Violation(
      `${what ?? "values differ"}\n  actual:   ${show(actual)}\n  expected: ${show(expected)}`,
    );
  }
}

/**
 * One evaluation context. A check body calls `trivial()` when the case did not
 * exercise the property, and `label()` to classify it.
 */
export class Ctx {
  constructor(stats) {
    this.stats = stats;
    this.isTrivial = false;
    this.labels = [];
  }
  trivial(why) {
    this.isTrivial = true;
    this.labels.push(`trivial: ${why ?? "unspecified"}`);
  }
  label(...names) {
    for (const n of names) this.labels.push(n);
  }
}
