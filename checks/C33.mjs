import { formatMessage, message, object, option, withDefault } from "@optique/core";
import { parseSync, suggestSync } from "@optique/core/parser";
import * as temporal from "@optique/temporal";
import { assert, equal, show } from "../lib/harness.mjs";

const T = globalThis.Temporal;
const KINDS = { instant: T.Instant, duration: T.Duration, zonedDateTime: T.ZonedDateTime, plainDate: T.PlainDate, plainTime: T.PlainTime, plainDateTime: T.PlainDateTime, plainYearMonth: T.PlainYearMonth, plainMonthDay: T.PlainMonthDay };
const ZONES = ["UTC", "Asia/Seoul", "America/Argentina/Buenos_Aires", "Europe/Paris", "America/New_York", "Pacific/Kiritimati", "Africa/Monrovia"];
const CALENDARS = ["iso8601", "gregory", "japanese", "hebrew", "islamic-civil", "buddhist", "chinese", "persian", "roc"];
const SINGLE = ["UTC", "GMT", "GMT0", "UCT", "Universal", "Zulu", "EST", "HST", "Cuba", "Japan", "NZ-CHAT", "W-SU", "Singapore", "GB-Eire"];
const pad = (n, w = 2) => String(n).padStart(w, "0");
const year = (y, wide) => wide || y < 0 || y > 9999 ? (y < 0 ? "-" : "+") + pad(Math.abs(y), 6) : pad(y, 4);

const dateArb = (fc) => fc.record({ y: fc.oneof(fc.integer({ min: 1900, max: 2100 }), fc.constantFrom(0, 1, 999, 9999, 12345, -1, -9999, 2000, 1972)), mo: fc.integer({ min: 1, max: 12 }), d: fc.oneof(fc.integer({ min: 1, max: 28 }), fc.constantFrom(29, 30, 31)), basic: fc.boolean(), wide: fc.nat(4).map((n) => n === 0) });
const timeArb = (fc) => fc.record({ h: fc.nat(23), mi: fc.nat(59), s: fc.nat(59), frac: fc.option(fc.tuple(fc.constantFrom(".", ","), fc.constantFrom("5", "123", "000001", "123456789", "999999999", "10")), { nil: null }), parts: fc.integer({ min: 1, max: 3 }), basic: fc.boolean() });
const textArb = (fc) => fc.record({
  date: fc.constantFrom("full", "full", "full", "none", "month", "day"), time: fc.option(timeArb(fc), { nil: null, freq: 2 }), on: dateArb(fc), dashes: fc.boolean(),
  sep: fc.constantFrom("T", "T", "t", " "), prefix: fc.constantFrom("", "", "T", "t"), offset: fc.constantFrom("", "", "", "Z", "z", "+09:00", "-0330", "+00", "-08:00"),
  zone: fc.option(fc.constantFrom(...ZONES), { nil: null, freq: 2 }), calendar: fc.option(fc.constantFrom(...CALENDARS), { nil: null, freq: 2 }), bang: fc.boolean(),
  bad: fc.constantFrom("no", "no", "no", "no", "month", "day", "hour", "minute", "space", "trail", "cut", "letter"),
});
/** Writes a text down, with what it says. */
function write(c) {
  const { on, time } = c, bad = c.bad;
  const mo = bad === "month" ? "13" : pad(on.mo), d = bad === "day" ? "32" : pad(on.d);
  const date = c.date === "full" ? on.basic ? year(on.y, on.wide) + mo + d : `${year(on.y, on.wide)}-${mo}-${d}` : c.date === "month" ? year(on.y, on.wide) + (on.basic ? "" : "-") + mo : c.date === "day" ? (c.dashes ? "--" : "") + mo + (on.basic ? "" : "-") + d : "";
  let clock = "";
  if (time) {
    const p = [bad === "hour" ? "25" : pad(time.h), bad === "minute" ? "61" : pad(time.mi), pad(time.s)].slice(0, time.parts);
    clock = p.join(time.basic ? "" : ":") + (time.parts === 3 && time.frac ? time.frac.join("") : "");
  }
  const bracket = (x) => `[${c.bang ? "!" : ""}${x}]`;
  let s = date + (date && clock ? c.sep : clock ? c.prefix : "") + clock + (clock ? c.offset : "") + (c.zone ? bracket(c.zone) : "") + (c.calendar ? bracket(`u-ca=${c.calendar}`) : "");
  if (bad === "space") s = ` ${s}`;
  if (bad === "trail") s += "x";
  if (bad === "cut") s = s.slice(0, -1);
  if (bad === "letter" && s) { const k = on.d % s.length; s = `${s.slice(0, k)}o${s.slice(k + 1)}`; }
  return s;
}
/** Which kinds a text written so is of; null when the letters alone may say something else, too. */
function kindsOf(c, s) {
  if (c.bad === "cut" || c.bad === "letter" || c.bad === "trail" || c.bad === "space") return null;
  const clock = !!c.time, offset = clock ? c.offset : "", cal = !!c.calendar, k = [];
  if (c.date === "none" && !clock) return null;
  if (c.date === "full" && clock && offset) k.push("instant");
  if (c.date === "full" && c.zone) k.push("zonedDateTime");
  if (offset || c.zone) return k;
  if (c.date === "full" && !clock) { k.push("plainDate"); if (cal) k.push("plainYearMonth", "plainMonthDay"); }
  if (c.date === "full" && clock) k.push("plainDateTime");
  if (c.date === "month" && !clock) k.push("plainYearMonth");
  if (c.date === "day" && !clock) k.push("plainMonthDay");
  if (c.date === "none") k.push("plainTime");
  return k;
}
const bare = (s) => !/[:Tt ]/.test(s.replace(/\[.*/, "")); // digits alone: a date to one, a time to another
const attempt = (f) => { try { return f(); } catch { return null; } };
const same = (a, b) => a.toString() === b.toString() && a.constructor === b.constructor;
function verdict(kind, input, how) {
  const errors = how.custom === 1 ? { invalidFormat: message`custom` } : how.custom === 2 ? { invalidFormat: (i) => message`custom ${i}` } : undefined;
  const vp = temporal[kind]({ ...(errors ? { errors } : {}), ...(how.metavar ? { metavar: "WHEN" } : {}) });
  equal(vp.mode, "sync", "mode"); if (how.metavar) equal(vp.metavar, "WHEN", "metavar");
  const direct = vp.parse(input);
  const r = how.through ? parseSync(object({ x: option("--when", vp) }), [`--when=${input}`]) : direct;
  equal(r.success, direct.success, `${kind} ${show(input)} on a line`);
  if (!direct.success) {
    const text = formatMessage(direct.error, { quotes: false });
    if (how.custom) equal(text, how.custom === 1 ? "custom" : `custom ${input}`, "custom error"); else assert(text.includes(input), () => `the error for ${show(input)} is ${text}`);
    return { error: text };
  }
  const value = how.through ? r.value.x : direct.value;
  return { value, vp };
}
const howArb = (fc) => fc.record({ custom: fc.nat(2), metavar: fc.boolean(), through: fc.boolean() });

export default {
  id: "C33",
  title: "Temporal parsers take what is written in their own form, and mean it",
  statement: "Each parser of @optique/temporal accepts a text exactly if it is written in a form of its own kind, in extended or basic form, with or without a calendar, and names something that exists; a date with a time is no date, a time with an offset is no plain time. The value is what the text says, an object of the kind. format() of any value, whatever its calendar, year or precision, is a text that the same parser reads back as the same value. Time zones are accepted exactly if there is such a zone, single names in any letter case in their canonical form; every zone suggested begins with the prefix and is accepted, and none that does is left out.",
  quantifier: [["inputs", "values"], "texts of all kinds with every part present or not, well-formed and broken; values over calendars, years and precisions; zone names and prefixes"],
  why: "The forms multiply: tests give each parser a few texts, and not those that are proper to another kind.",
  files: ["packages/temporal/src/index.ts"],
  mechanism: [["the patterns of each kind, timeZone()", "packages/temporal/src/index.ts"]],
  rule: "texts: the text is of at least one kind; values: always; zones: some zone is meant or suggested.",
  assumptions: ["The Temporal implementation of the runtime is right; digits alone, which can be read as several kinds, are only held to it."],
  parts: [
    {
      name: "texts", runs: { quick: 30000, thorough: 1000000 },
      arb: (fc) => fc.record({ c: textArb(fc), how: howArb(fc) }),
      check({ c, how }, ctx) {
        const s = write(c), kinds = kindsOf(c, s);
        if (!kinds?.length) ctx.trivial("of no kind");
        for (const [kind, K] of Object.entries(KINDS)) {
          const native = attempt(() => K.from(s)), got = verdict(kind, s, how);
          if (got.value) {
            assert(got.value instanceof K, () => `${kind} ${show(s)} gave ${show(got.value)}`);
            assert(native && same(native, got.value), () => `${kind} ${show(s)} is ${got.value}, not ${native}`);
          }
          if (kinds === null) continue;
          const want = kinds.includes(kind);
          if (want) assert(!!native === !!got.value, () => `${kind} ${show(s)}: ${got.error ?? "accepted, but there is no such thing"}`);
          else if (!bare(s) || c.offset && c.time || c.zone) assert(!got.value, () => `${kind} ${show(s)} is accepted as ${got.value}, though it is ${kinds.join(", ") || "no such text"}`);
          if (want && got.value) {
            ctx.label(kind);
            const v = got.value, t = c.time, iso = !c.calendar;
            const sub = t && t.parts === 3 && t.frac ? t.frac[1].padEnd(9, "0") : "000000000";
            // an offset, or a day the zone left out, moves the date of a zoned time: there the runtime has to do
            if (iso && "day" in v && kind !== "plainMonthDay" && kind !== "zonedDateTime") equal([v.year, v.month, v.day], [c.on.y, c.on.mo, c.on.d], `date of ${s}`);
            if (iso && kind === "plainYearMonth") equal([v.year, v.month], [c.on.y, c.on.mo], `month of ${s}`);
            if (iso && kind === "plainMonthDay") equal([v.monthCode, v.day], [`M${pad(c.on.mo)}`, c.on.d], `day of ${s}`);
            if ((kind === "plainTime" || kind === "plainDateTime") && t) equal([v.hour, v.minute, v.second, pad(v.millisecond, 3) + pad(v.microsecond, 3) + pad(v.nanosecond, 3)], [t.h, t.parts > 1 ? t.mi : 0, t.parts > 2 ? t.s : 0, sub], `time of ${s}`);
            if (c.calendar && "calendarId" in v) equal(v.calendarId, c.calendar, `calendar of ${s}`);
          }
        }
      },
    },
    {
      name: "values", runs: { quick: 12000, thorough: 400000 },
      arb: (fc) => fc.record({ kind: fc.constantFrom(...Object.keys(KINDS)), on: dateArb(fc), t: timeArb(fc), calendar: fc.constantFrom(...CALENDARS), zone: fc.constantFrom(...ZONES, "+09:30", "-03:00"), fold: fc.constantFrom(null, null, null, ["Europe/Paris", 1603585800], ["America/New_York", 1604208600]), later: fc.nat(3), parts: fc.array(fc.tuple(fc.nat(9), fc.nat(100000)), { maxLength: 5 }), neg: fc.boolean(), how: howArb(fc) }),
      check({ kind, on, t, calendar, zone, fold, later, parts, neg, how }, ctx) {
        const clock = { hour: t.h, minute: t.mi, second: t.s, nanosecond: t.frac ? +t.frac[1].slice(0, 3) : 0 };
        const day = T.PlainDate.from({ year: on.y, month: on.mo, day: on.d });
        const v = attempt(() => {
          switch (kind) {
            case "instant": return day.toZonedDateTime({ timeZone: "UTC", plainTime: clock }).toInstant();
            case "duration": return T.Duration.from(Object.fromEntries([["seconds", 0], ...parts.map(([k, n]) => [["years", "months", "weeks", "days", "hours", "minutes", "seconds", "milliseconds", "microseconds", "nanoseconds"][k], neg ? -n : n])]));
            // the clock says the same twice, an hour apart, when summer ends
            case "zonedDateTime": return fold ? T.Instant.fromEpochMilliseconds((fold[1] + later * 1800) * 1000).toZonedDateTimeISO(fold[0]).withCalendar(calendar) : day.toZonedDateTime({ timeZone: zone, plainTime: clock }).withCalendar(calendar);
            case "plainDate": return day.withCalendar(calendar);
            case "plainTime": return T.PlainTime.from(clock);
            case "plainDateTime": return day.toPlainDateTime(clock).withCalendar(calendar);
            case "plainYearMonth": return day.withCalendar(calendar).toPlainYearMonth();
            case "plainMonthDay": return day.withCalendar(calendar).toPlainMonthDay();
          }
        });
        if (!v) return ctx.trivial("no such value");
        const vp = temporal[kind](), s = vp.format(v), native = attempt(() => KINDS[kind].from(v.toString()));
        if (!native || !same(native, v)) return ctx.trivial("the runtime does not read it back either");
        const got = verdict(kind, s, how);
        assert(got.value, () => `${kind}: format() wrote ${show(s)}, and then: ${got.error}`);
        assert(same(got.value, v), () => `${kind}: ${v} came back as ${got.value}`);
        const d = withDefault(option("--when", vp), v), r = parseSync(d, []);
        assert(r.success && same(r.value, v), () => `${kind} ${s} as a default: ${show(r)}`);
        const p = verdict(kind, vp.format(vp.placeholder), { custom: 0 });
        assert(p.value && same(p.value, vp.placeholder), () => `the placeholder of ${kind}: ${p.error ?? p.value}`);
        ctx.label(kind);
      },
    },
    {
      name: "zones", runs: { quick: 3000, thorough: 60000 },
      arb: (fc) => fc.record({ n: fc.nat(9999), kind: fc.constantFrom("known", "known", "single", "link", "odd", "broken"), fold: fc.nat(3), cut: fc.nat(12), how: howArb(fc) }),
      check({ n, kind, fold, cut, how }, ctx) {
        const all = Intl.supportedValuesOf("timeZone"), at = (l) => l[n % l.length];
        let s = kind === "known" ? at(all) : kind === "single" ? at(SINGLE) : kind === "link" ? at(["Asia/Calcutta", "US/Pacific", "Asia/Saigon", "Etc/GMT+5", "America/Kentucky/Louisville", "Etc/UTC", "Asia/Kolkata"]) : kind === "odd" ? at(["", "/", "Mars/Phobos", "Asia/", "+09:00", "-05:00", "Z", "Asia/Seoul/x", "[Asia/Seoul]", "Asia\\Seoul", "Seoul", "Factory", " UTC", "UTC ", "2020-01-01T00:00[Asia/Seoul]"]) : `${at(all)}x`;
        const name = s;
        if (fold === 1) s = s.toLowerCase(); else if (fold === 2) s = s.toUpperCase();
        const got = verdict("timeZone", s, how);
        const real = !/[ [\]]/.test(s) && s.includes("/") && attempt(() => new Intl.DateTimeFormat("en", { timeZone: s })) !== null || SINGLE.some((z) => z.toLowerCase() === s.toLowerCase());
        if (!real) ctx.trivial("no zone");
        if (SINGLE.includes(name)) assert(got.value === name, () => `${s} is ${got.value ?? got.error}, not ${name}`);
        else if (s.includes("/") || kind === "odd") { assert(real === (got.value !== undefined), () => `zone ${show(s)}: ${got.value ?? got.error}`); if (real) { equal(got.value.toLowerCase(), s.toLowerCase(), "zone"); if (!fold) equal(got.value, s, "zone"); } }
        const prefix = s.slice(0, cut), vp = temporal.timeZone();
        const list = how.through ? suggestSync(object({ x: option("--when", vp) }), ["--when", prefix]).map((x) => x.text) : [...vp.suggest(prefix)].map((x) => x.text);
        if (how.through && prefix.startsWith("-")) return;
        const want = [...new Set(["UTC", "GMT", ...all])].filter((z) => z.toLowerCase().startsWith(prefix.toLowerCase()));
        equal([...list].sort(), want.sort(), `zones suggested for ${show(prefix)}`);
        if (list.length) { const z = list[n % list.length], r = vp.parse(z); if (z.includes("/") || ["UTC", "GMT"].includes(z)) assert(r.success && r.value === z, () => `the suggested zone ${z}: ${show(r)}`); }
      },
    },
  ],
};
