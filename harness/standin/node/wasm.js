// stands in for the wasm module: the same bindings compiled as a native addon
const addon = require(process.env.RTBOT_ADDON);
module.exports = async () => addon;
module.exports.default = module.exports;
