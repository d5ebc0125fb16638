// stands in for zustand/vanilla 4
exports.createStore = (creator) => {
  let state;
  const listeners = new Set();
  const setState = (partial, replace) => {
    const next = typeof partial === "function" ? partial(state) : partial;
    if (Object.is(next, state)) return;
    const before = state;
    state = (replace ?? (typeof next !== "object" || next === null)) ? next : Object.assign({}, state, next);
    for (const l of [...listeners]) l(state, before);
  };
  const getState = () => state;
  const subscribe = (l) => { listeners.add(l); return () => listeners.delete(l); };
  const api = { setState, getState, subscribe };
  state = creator(setState, getState, api);
  return api;
};
