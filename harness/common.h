// Shared by the conformance drivers: channel kinds, value projection, file reading.
#pragma once
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <vector>
#include "mdf/ichannel.h"
#include "mdf/ichannelarray.h"
#include "mdf/ichannelconversion.h"
#include "mdf/ichannelgroup.h"
#include "mdf/ichannelobserver.h"
#include "mdf/idatagroup.h"
#include "mdf/iheader.h"
#include "mdf/isampleobserver.h"
#include "mdf/mdffactory.h"
#include "mdf/mdffile.h"
#include "mdf/mdflogstream.h"
#include "mdf/mdfreader.h"
#include "mdf/mdfwriter.h"
#include "vjson.h"
namespace vh {
using vj::V;
extern uint64_t kT0;  // tick 0 as ns since 1970 (default 1.6e18)
constexpr int64_t kBadTick = 2000000000;                  // projection failed

struct Kind { const char* name; mdf::ChannelDataType dt; int bytes; char cls; };
// cls: u unsigned, s signed, f float, t text, b byte array
const Kind* FindKind(const std::string& n);
std::vector<uint8_t> LeBytes(uint64_t v, int n);
uint64_t FromLe(const std::vector<uint8_t>& b);
double DoubleOf(const std::vector<uint8_t>& b);
std::vector<uint8_t> BytesOf(double d);
// class of a channel judged by its data type
char ClassOf(const mdf::IChannel& c);
// set a channel from value bytes
void SetValue(mdf::IChannel& c, const std::vector<uint8_t>& b, bool valid, uint64_t idx = 0);
// observed value as bytes
bool GetValue(const mdf::IChannelObserver& o, uint64_t sample, std::vector<uint8_t>& out, uint64_t idx = 0);
int64_t ToTick(double seconds, int64_t unit_ns);
// read every data group of a file
V ReadAll(const std::string& file, int64_t unit_ns);
void Quiet();
// pseudo random block of n bytes that starts with the two seed bytes; and its inverse
std::vector<uint8_t> Block(const std::vector<uint8_t>& seed, size_t n);
std::vector<uint8_t> UnBlock(const std::vector<uint8_t>& data, size_t n);
// scenario loop: one JSON scenario per line of argv[1] -> one JSON line per scenario on argv[2]
int Main(int argc, char** argv, const std::function<V(const V&, const std::string& dir)>& run);
}  // namespace vh
