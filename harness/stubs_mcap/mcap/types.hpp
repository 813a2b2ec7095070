// Stand-in for the MCAP C++ library (github.com/foxglove/mcap, header-only), which is not installed here.
// Same classes and contracts as far as the tools use them; the file format is its own. Faults can be injected.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace mcap {
using SchemaId = uint16_t;
using ChannelId = uint16_t;
using Timestamp = uint64_t;
using ByteOffset = uint64_t;
using KeyValueMap = std::unordered_map<std::string, std::string>;
using ByteArray = std::vector<std::byte>;
constexpr Timestamp MaxTime = std::numeric_limits<Timestamp>::max();

enum struct Compression { None, Lz4, Zstd };
enum struct CompressionLevel { Fastest, Fast, Default, Slow, Slowest };
enum struct OpCode : uint8_t { Header = 0x01, Footer = 0x02, Schema = 0x03, Channel = 0x04, Message = 0x05, Attachment = 0x09, Metadata = 0x0C };

enum struct StatusCode {
  Success = 0, NotOpen, InvalidSchemaId, InvalidChannelId, FileTooSmall, ReadFailed, MagicMismatch, InvalidFile, InvalidRecord,
  InvalidOpCode, InvalidChunkOffset, InvalidFooter, DecompressionFailed, DecompressionSizeMismatch, UnrecognizedCompression,
  OpenFailed, MissingStatistics, InvalidMessageReadOptions, NoMessageIndexesAvailable, UnsupportedCompression
};
struct [[nodiscard]] Status {
  StatusCode code;
  std::string message;
  Status() : code(StatusCode::Success) {}
  Status(StatusCode c) : code(c), message(c == StatusCode::Success ? "" : "status " + std::to_string(int(c))) {}
  Status(StatusCode c, const std::string& m) : code(c), message(m) {}
  bool ok() const { return code == StatusCode::Success; }
};

struct Header {
  std::string profile, library;
};
struct Schema {
  SchemaId id = 0;
  std::string name, encoding;
  ByteArray data;
  Schema() = default;
  Schema(const std::string_view n, const std::string_view e, const std::string_view d)
      : name(n), encoding(e), data(reinterpret_cast<const std::byte*>(d.data()), reinterpret_cast<const std::byte*>(d.data() + d.size())) {}
  Schema(const std::string_view n, const std::string_view e, const ByteArray& d) : name(n), encoding(e), data(d) {}
};
struct Channel {
  ChannelId id = 0;
  std::string topic, messageEncoding;
  SchemaId schemaId = 0;
  KeyValueMap metadata;
  Channel() = default;
  Channel(const std::string_view t, const std::string_view e, SchemaId s, const KeyValueMap& m = {})
      : topic(t), messageEncoding(e), schemaId(s), metadata(m) {}
};
using SchemaPtr = std::shared_ptr<Schema>;
using ChannelPtr = std::shared_ptr<Channel>;
struct Message {
  ChannelId channelId = 0;
  uint32_t sequence = 0;
  Timestamp logTime = 0, publishTime = 0;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
};
struct Attachment {
  Timestamp logTime = 0, createTime = 0;
  std::string name, mediaType;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
  uint32_t crc = 0;
};
struct Metadata {
  std::string name;
  KeyValueMap metadata;
};
struct Record {
  OpCode opcode{};
  uint64_t dataSize = 0;
  std::byte* data = nullptr;
};
struct MetadataIndex {
  uint64_t offset = 0, length = 0;
  std::string name;
};
struct AttachmentIndex {
  ByteOffset offset = 0, length = 0;
  Timestamp logTime = 0, createTime = 0;
  uint64_t dataSize = 0;
  std::string name, mediaType;
};
struct Statistics {
  uint64_t messageCount = 0;
  uint16_t schemaCount = 0;
  uint32_t channelCount = 0, attachmentCount = 0, metadataCount = 0, chunkCount = 0;
  Timestamp messageStartTime = 0, messageEndTime = 0;
  std::unordered_map<ChannelId, uint64_t> channelMessageCounts;
};
struct MessageView {
  const Message& message;
  const ChannelPtr channel;
  const SchemaPtr schema;
  MessageView(const Message& m, const ChannelPtr c, const SchemaPtr s) : message(m), channel(c), schema(s) {}
};
using ProblemCallback = std::function<void(const Status&)>;

// ---- faults and observation, for the monitors
namespace stub {
struct Faults {
  long write_message = -1;   // index of the message whose writing fails
  bool write_metadata = false, open_reader = false, summary = false, read_record = false;
};
inline Faults faults;
inline constexpr char kMagic[9] = "STUBMCAP";

template <class T>
inline void put(std::string& b, T v) {
  b.append(reinterpret_cast<const char*>(&v), sizeof v);
}
inline void putS(std::string& b, const std::string& s) {
  put<uint64_t>(b, s.size());
  b += s;
}
struct Parser {
  const char* p;
  size_t n, at = 0;
  bool bad = false;
  template <class T>
  T get() {
    T v{};
    if (n - at < sizeof v) bad = true;
    else memcpy(&v, p + at, sizeof v), at += sizeof v;
    return v;
  }
  std::string str() {
    const uint64_t k = get<uint64_t>();
    if (bad || k > n - at) {
      bad = true;
      return {};
    }
    std::string s(p + at, k);
    at += k;
    return s;
  }
};
inline void putMap(std::string& b, const KeyValueMap& m) {
  put<uint64_t>(b, m.size());
  for (const auto& [k, v] : std::map<std::string, std::string>(m.begin(), m.end())) {
    putS(b, k);
    putS(b, v);
  }
}
inline KeyValueMap getMap(Parser& p) {
  KeyValueMap m;
  uint64_t k = p.get<uint64_t>();
  while (k-- && !p.bad) {
    std::string a = p.str();
    m[a] = p.str();
  }
  return m;
}
}  // namespace stub
}  // namespace mcap
