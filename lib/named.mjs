// Fixed cases of the grammar checks: a spec that already has its names.
export const isNamed = (c) => c != null && Array.isArray(c.tokens) && c.spec != null;
