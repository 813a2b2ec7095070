#pragma once
#include "types.hpp"

namespace mcap {
struct McapWriterOptions {
  bool noChunkCRC = false, noAttachmentCRC = false, enableDataCRC = false, noSummaryCRC = false, noChunking = false, noMessageIndex = false, noSummary = false;
  uint64_t chunkSize = 1024 * 768;
  Compression compression = Compression::Zstd;
  CompressionLevel compressionLevel = CompressionLevel::Default;
  bool forceCompression = false;
  std::string profile, library = "libmcap stub";
  bool noRepeatedSchemas = false, noRepeatedChannels = false, noAttachmentIndex = false, noMetadataIndex = false, noChunkIndex = false, noStatistics = false, noSummaryOffsets = false;
  McapWriterOptions(const std::string_view p) : profile(p) {}
};

class McapWriter {
  std::ofstream out_;
  bool opened_ = false;
  std::vector<Schema> schemas_;
  std::vector<Channel> channels_;
  Statistics stats_;
  long written_ = 0;

  void record(OpCode op, const std::string& body) {
    std::string h;
    stub::put<uint8_t>(h, uint8_t(op));
    stub::put<uint64_t>(h, body.size());
    out_.write(h.data(), std::streamsize(h.size()));
    out_.write(body.data(), std::streamsize(body.size()));
  }

 public:
  McapWriter() = default;
  McapWriter(const McapWriter&) = delete;
  ~McapWriter() { close(); }
  Status open(std::string_view filename, const McapWriterOptions& o) {
    close();
    schemas_.clear();
    channels_.clear();
    stats_ = {};
    written_ = 0;
    out_.open(std::string(filename), std::ios::binary | std::ios::trunc);
    if (!out_.is_open()) return Status(StatusCode::OpenFailed, "failed to open file \"" + std::string(filename) + "\" for writing");
    opened_ = true;
    out_.write(stub::kMagic, 8);
    std::string b;
    stub::putS(b, o.profile);
    stub::putS(b, o.library);
    stub::put<uint8_t>(b, uint8_t(o.compression));
    record(OpCode::Header, b);
    return StatusCode::Success;
  }
  // schemas and channels are kept until close(): an unfinished file has none
  void close() {
    if (!opened_) return;
    for (const auto& s : schemas_) {
      std::string b;
      stub::put(b, s.id);
      stub::putS(b, s.name);
      stub::putS(b, s.encoding);
      stub::putS(b, std::string(reinterpret_cast<const char*>(s.data.data()), s.data.size()));
      record(OpCode::Schema, b);
    }
    for (const auto& c : channels_) {
      std::string b;
      stub::put(b, c.id);
      stub::putS(b, c.topic);
      stub::putS(b, c.messageEncoding);
      stub::put(b, c.schemaId);
      stub::putMap(b, c.metadata);
      record(OpCode::Channel, b);
    }
    record(OpCode::Footer, "");
    out_.close();
    opened_ = false;
  }
  void terminate() {
    if (opened_) out_.close();
    opened_ = false;
  }
  void addSchema(Schema& s) {
    s.id = SchemaId(schemas_.size() + 1);
    schemas_.push_back(s);
  }
  void addChannel(Channel& c) {
    c.id = ChannelId(channels_.size() + 1);
    channels_.push_back(c);
  }
  Status write(const Message& m) {
    if (!opened_) return StatusCode::NotOpen;
    if (m.channelId == 0 || m.channelId > channels_.size()) return Status(StatusCode::InvalidChannelId, "invalid channel id " + std::to_string(m.channelId));
    const Channel& c = channels_[m.channelId - 1];
    if (c.schemaId != 0 && c.schemaId > schemas_.size()) return Status(StatusCode::InvalidSchemaId, "invalid schema id " + std::to_string(c.schemaId));
    if (written_++ == stub::faults.write_message) return Status(StatusCode::OpenFailed, "injected write failure");
    std::string b;
    stub::put(b, m.channelId);
    stub::put(b, m.sequence);
    stub::put(b, m.logTime);
    stub::put(b, m.publishTime);
    b.append(reinterpret_cast<const char*>(m.data), m.dataSize);
    record(OpCode::Message, b);
    ++stats_.messageCount;
    ++stats_.channelMessageCounts[m.channelId];
    return StatusCode::Success;
  }
  Status write(Attachment& a) {
    if (!opened_) return StatusCode::NotOpen;
    std::string b;
    stub::put(b, a.logTime);
    stub::put(b, a.createTime);
    stub::putS(b, a.name);
    stub::putS(b, a.mediaType);
    b.append(reinterpret_cast<const char*>(a.data), a.dataSize);
    record(OpCode::Attachment, b);
    return StatusCode::Success;
  }
  Status write(const Metadata& m) {
    if (!opened_) return StatusCode::NotOpen;
    if (stub::faults.write_metadata) return Status(StatusCode::OpenFailed, "injected write failure");
    std::string b;
    stub::putS(b, m.name);
    stub::putMap(b, m.metadata);
    record(OpCode::Metadata, b);
    return StatusCode::Success;
  }
  const Statistics& statistics() const { return stats_; }
};
}  // namespace mcap
