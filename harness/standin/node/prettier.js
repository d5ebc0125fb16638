// stands in for prettier: the text stays as it is
exports.format = async (text) => text;
