// stands in for json-schema-to-zod
const parse = (s) => {
  if (Array.isArray(s)) return s;
  if (s.enum) return s.enum.length === 1 ? `z.literal(${JSON.stringify(s.enum[0])})` : `z.enum(${JSON.stringify(s.enum)})`;
  switch (s.type) {
    case "string": return "z.string()";
    case "integer":
    case "number": {
      let r = "z.number()" + (s.type === "integer" ? ".int()" : "");
      if (s.minimum !== undefined) r += `.gte(${s.minimum})`;
      if (s.maximum !== undefined) r += `.lte(${s.maximum})`;
      return r;
    }
    case "boolean": return "z.boolean()";
    case "array": {
      if (Array.isArray(s.items)) return `z.tuple([${s.items.map(parse).join(",")}])`;
      let r = `z.array(${s.items ? parse(s.items) : "z.any()"})`;
      if (s.minItems !== undefined) r += `.min(${s.minItems})`;
      if (s.maxItems !== undefined) r += `.max(${s.maxItems})`;
      return r;
    }
    case "object":
      return "z.object({" + Object.entries(s.properties ?? {}).map(([k, v]) => {
        let r = JSON.stringify(k) + ":" + parse(v);
        if (!(s.required ?? []).includes(k)) r += ".optional()";
        if (v.default !== undefined) r += `.default(${JSON.stringify(v.default)})`;
        return r;
      }).join(",") + "})" + (s.additionalProperties === false ? ".strict()" : "");
    default: return "z.any()";
  }
};
exports.parseSchema = parse;
