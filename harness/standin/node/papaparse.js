// stands in for papaparse 5: texts with commas, quotes and either kind of line end, no header
function parse(text, config) {
  for (const k of Object.keys(config)) if (!["worker", "complete", "error"].includes(k)) throw new Error("stand-in: option " + k);
  if (text.charCodeAt(0) === 0xfeff) text = text.slice(1);
  const data = [];
  let row = [], field = "", quoted = false, begun = false;
  const end = () => { row.push(field); field = ""; begun = false; };
  for (let i = 0; i < text.length; i++) {
    const ch = text[i];
    if (quoted) {
      if (ch !== '"') field += ch;
      else if (text[i + 1] === '"') field += text[++i];
      else quoted = false;
    } else if (ch === '"' && !begun) { quoted = true; begun = true; }
    else if (ch === ",") end();
    else if (ch === "\n" || ch === "\r") {
      if (ch === "\r" && text[i + 1] === "\n") i++;
      end();
      data.push(row);
      row = [];
    } else { field += ch; begun = true; }
  }
  end();
  data.push(row);
  const result = { data, errors: [], meta: {} };
  if (config.complete) config.complete(result);
  return result;
}
module.exports = { parse, default: { parse } };
module.exports.__esModule = true;
