// stands in for the package yaml
exports.parse = (text) => require("js-yaml").load(text);
