// stands in for json-schema-to-typescript: one interface with the properties of a flat schema
const typeOf = (s) => {
  if (s.enum) return s.enum.map((e) => JSON.stringify(e)).join(" | ");
  if (s.type === "integer" || s.type === "number") return "number";
  if (s.type === "array") {
    const t = s.items ? typeOf(s.items) : "unknown";
    if (s.minItems && s.minItems === s.maxItems) return "[" + Array(s.minItems).fill(t).join(", ") + "]";
    const u = t.includes("|") ? `(${t})` : t;
    if (s.minItems) return "[" + Array(s.minItems).fill(t).join(", ") + ", ..." + u + "[]]";
    return u + "[]";
  }
  return s.type === "string" || s.type === "boolean" ? s.type : "unknown";
};
exports.compile = async (schema, name) => {
  let r = `export interface ${name} {\n`;
  for (const [k, s] of Object.entries(schema.properties)) {
    if (s.description) r += `  /**\n   * ${s.description}\n   */\n`;
    r += `  ${k}${(schema.required ?? []).includes(k) ? "" : "?"}: ${typeOf(s)};\n`;
  }
  return r + "  [k: string]: unknown;\n}\n";
};
