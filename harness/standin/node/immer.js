// stands in for immer 10: the recipe edits a copy, the result is frozen
const freeze = (v) => { if (typeof v === "object" && v !== null && !Object.isFrozen(v)) { Object.freeze(v); Object.values(v).forEach(freeze); } return v; };
exports.produce = (base, recipe) => {
  const draft = structuredClone(base);
  const r = recipe(draft);
  return freeze(r === undefined ? draft : r);
};
