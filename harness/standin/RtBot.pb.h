// Stand-in for the generated protocol buffer, of which the wasm module prints one message
#pragma once
#include <iostream>
#include <string>
namespace rtbot { namespace api { namespace proto {
struct Input { std::string DebugString() const { return ""; } };
} } }
