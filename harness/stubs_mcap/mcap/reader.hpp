#pragma once
#include <algorithm>

#include "types.hpp"

namespace mcap {
enum struct ReadSummaryMethod { NoFallbackScan, AllowFallbackScan, ForceScan };
struct ReadMessageOptions {
  Timestamp startTime = 0, endTime = MaxTime;
  std::function<bool(std::string_view)> topicFilter;
  enum struct ReadOrder { FileOrder, LogTimeOrder, ReverseLogTimeOrder };
  ReadOrder readOrder = ReadOrder::FileOrder;
  ReadMessageOptions() = default;
  ReadMessageOptions(Timestamp s, Timestamp e) : startTime(s), endTime(e) {}
};
struct IReadable {
  virtual ~IReadable() = default;
  virtual uint64_t size() const = 0;
  virtual uint64_t read(std::byte** output, uint64_t offset, uint64_t size) = 0;
};
class FileStreamReader final : public IReadable {
  std::ifstream& s_;
  std::vector<std::byte> buf_;
  uint64_t size_ = 0;

 public:
  FileStreamReader(std::ifstream& s) : s_(s) {
    s_.seekg(0, std::ios::end);
    const auto e = s_.tellg();
    size_ = e < 0 ? 0 : uint64_t(e);
    s_.clear();
    s_.seekg(0);
  }
  uint64_t size() const override { return size_; }
  uint64_t read(std::byte** output, uint64_t offset, uint64_t n) override {
    if (offset >= size_) return 0;
    n = std::min(n, size_ - offset);
    buf_.resize(n);
    s_.clear();
    s_.seekg(std::streamoff(offset));
    s_.read(reinterpret_cast<char*>(buf_.data()), std::streamsize(n));
    *output = buf_.data();
    return uint64_t(s_.gcount());
  }
};

class McapReader;
// messages in the order of the file; the memory of a message is gone when the next one is read
class LinearMessageView {
  friend class McapReader;
  McapReader& reader_;
  ProblemCallback problem_;
  ReadMessageOptions options_;
  std::vector<uint64_t> offsets_;
  LinearMessageView(McapReader& r, const ReadMessageOptions& o, const ProblemCallback& p) : reader_(r), problem_(p), options_(o) {}

 public:
  LinearMessageView(const LinearMessageView&) = delete;
  LinearMessageView(LinearMessageView&&) = default;
  class Iterator {
    friend class LinearMessageView;
    LinearMessageView* view_ = nullptr;
    size_t at_ = 0;
    struct Current {
      Message message;
      std::unique_ptr<char[]> bytes;
      std::optional<MessageView> view;
    };
    std::shared_ptr<Current> cur_;
    void load();

   public:
    using iterator_category = std::input_iterator_tag;
    using difference_type = int64_t;
    using value_type = MessageView;
    using pointer = const MessageView*;
    using reference = const MessageView&;
    reference operator*() const { return *cur_->view; }
    pointer operator->() const { return &*cur_->view; }
    Iterator& operator++() {
      ++at_;
      load();
      return *this;
    }
    void operator++(int) { ++*this; }
    friend bool operator==(const Iterator& a, const Iterator& b) { return bool(a.cur_) == bool(b.cur_) && (!a.cur_ || a.at_ == b.at_); }
    friend bool operator!=(const Iterator& a, const Iterator& b) { return !(a == b); }
  };
  Iterator begin();
  Iterator end() { return {}; }
};

class McapReader final {
  friend class LinearMessageView;
  friend class LinearMessageView::Iterator;
  IReadable* input_ = nullptr;
  std::unique_ptr<std::ifstream> own_stream_;
  std::unique_ptr<FileStreamReader> own_;
  std::optional<Header> header_;
  std::optional<Statistics> statistics_;
  std::unordered_map<SchemaId, SchemaPtr> schemas_;
  std::unordered_map<ChannelId, ChannelPtr> channels_;
  std::multimap<std::string, MetadataIndex> metadata_;
  std::multimap<std::string, AttachmentIndex> attachments_;
  std::vector<std::pair<uint64_t, Timestamp>> messages_;
  bool damaged_ = false;

  static Status raw(IReadable& in, uint64_t offset, OpCode* op, std::string* body) {
    std::byte* p = nullptr;
    if (in.read(&p, offset, 9) != 9) return StatusCode::InvalidRecord;
    *op = OpCode(p[0]);
    uint64_t len;
    memcpy(&len, p + 1, 8);
    if (len > in.size() - offset - 9) return Status(StatusCode::InvalidRecord, "record is cut");
    body->clear();
    if (len) {
      if (in.read(&p, offset + 9, len) != len) return StatusCode::ReadFailed;
      body->assign(reinterpret_cast<const char*>(p), len);
    }
    return StatusCode::Success;
  }

 public:
  Status open(IReadable& r) {
    close();
    if (stub::faults.open_reader) return Status(StatusCode::ReadFailed, "injected failure");
    if (r.size() < 17) return StatusCode::FileTooSmall;
    std::byte* p = nullptr;
    if (r.read(&p, 0, 8) != 8) return StatusCode::ReadFailed;
    if (memcmp(p, stub::kMagic, 8) != 0) return StatusCode::MagicMismatch;
    OpCode op;
    std::string b;
    Status s = raw(r, 8, &op, &b);
    if (!s.ok()) return s;
    if (op != OpCode::Header) return Status(StatusCode::InvalidFile, "no header");
    stub::Parser q{b.data(), b.size()};
    Header h;
    h.profile = q.str();
    h.library = q.str();
    header_ = h;
    input_ = &r;
    return StatusCode::Success;
  }
  Status open(std::string_view filename) {
    own_stream_ = std::make_unique<std::ifstream>(std::string(filename), std::ios::binary);
    if (!own_stream_->is_open()) return StatusCode::OpenFailed;
    own_ = std::make_unique<FileStreamReader>(*own_stream_);
    return open(*own_);
  }
  void close() {
    input_ = nullptr;
    header_.reset();
    statistics_.reset();
    schemas_.clear();
    channels_.clear();
    metadata_.clear();
    attachments_.clear();
    messages_.clear();
    damaged_ = false;
  }
  Status readSummary(ReadSummaryMethod method, const ProblemCallback& = [](const Status&) {}) {
    if (!input_) return StatusCode::NotOpen;
    if (stub::faults.summary) return Status(StatusCode::ReadFailed, "injected failure");
    Statistics st;
    uint64_t at = 8;
    bool footer = false;
    while (at < input_->size()) {
      OpCode op;
      std::string b;
      if (!raw(*input_, at, &op, &b).ok()) {
        damaged_ = true;
        break;
      }
      stub::Parser q{b.data(), b.size()};
      const uint64_t len = 9 + b.size();
      if (op == OpCode::Schema) {
        auto s = std::make_shared<Schema>();
        s->id = q.get<SchemaId>();
        s->name = q.str();
        s->encoding = q.str();
        const std::string d = q.str();
        s->data.assign(reinterpret_cast<const std::byte*>(d.data()), reinterpret_cast<const std::byte*>(d.data() + d.size()));
        schemas_[s->id] = s;
      } else if (op == OpCode::Channel) {
        auto c = std::make_shared<Channel>();
        c->id = q.get<ChannelId>();
        c->topic = q.str();
        c->messageEncoding = q.str();
        c->schemaId = q.get<SchemaId>();
        c->metadata = stub::getMap(q);
        channels_[c->id] = c;
      } else if (op == OpCode::Message) {
        ++st.channelMessageCounts[q.get<ChannelId>()];
        q.get<uint32_t>();
        messages_.emplace_back(at, q.get<Timestamp>());
        ++st.messageCount;
      } else if (op == OpCode::Metadata) {
        MetadataIndex m;
        m.offset = at;
        m.length = len;
        m.name = q.str();
        metadata_.emplace(m.name, m);
        ++st.metadataCount;
      } else if (op == OpCode::Attachment) {
        AttachmentIndex a;
        a.offset = at;
        a.length = len;
        a.logTime = q.get<Timestamp>();
        a.createTime = q.get<Timestamp>();
        a.name = q.str();
        a.mediaType = q.str();
        a.dataSize = q.n - q.at;
        attachments_.emplace(a.name, a);
        ++st.attachmentCount;
      } else if (op == OpCode::Footer) {
        footer = true;
      }
      at += len;
    }
    if (!footer) {
      damaged_ = true;
      if (method == ReadSummaryMethod::NoFallbackScan) return Status(StatusCode::InvalidFooter, "no footer");
    }
    st.schemaCount = uint16_t(schemas_.size());
    st.channelCount = uint32_t(channels_.size());
    statistics_ = st;
    return StatusCode::Success;
  }
  LinearMessageView readMessages(Timestamp start = 0, Timestamp end = MaxTime) {
    return readMessages([](const Status&) {}, start, end);
  }
  LinearMessageView readMessages(const ProblemCallback& p, Timestamp start = 0, Timestamp end = MaxTime) {
    return LinearMessageView(*this, ReadMessageOptions(start, end), p);
  }
  LinearMessageView readMessages(const ProblemCallback& p, const ReadMessageOptions& o) { return LinearMessageView(*this, o, p); }
  IReadable* dataSource() { return input_; }
  const std::optional<Header>& header() const { return header_; }
  const std::optional<Statistics>& statistics() const { return statistics_; }
  const std::unordered_map<ChannelId, ChannelPtr> channels() const { return channels_; }
  const std::unordered_map<SchemaId, SchemaPtr> schemas() const { return schemas_; }
  ChannelPtr channel(ChannelId id) const {
    auto it = channels_.find(id);
    return it == channels_.end() ? nullptr : it->second;
  }
  SchemaPtr schema(SchemaId id) const {
    auto it = schemas_.find(id);
    return it == schemas_.end() ? nullptr : it->second;
  }
  const std::multimap<std::string, MetadataIndex>& metadataIndexes() const { return metadata_; }
  const std::multimap<std::string, AttachmentIndex>& attachmentIndexes() const { return attachments_; }

  // the memory of the record belongs to the reader and is gone with the next one
  static Status ReadRecord(IReadable& in, uint64_t offset, Record* record) {
    if (stub::faults.read_record) return Status(StatusCode::ReadFailed, "injected failure");
    static thread_local std::string body;
    OpCode op;
    std::string b;
    Status s = raw(in, offset, &op, &b);
    if (!s.ok()) return s;
    body = std::move(b);
    body.shrink_to_fit();
    record->opcode = op;
    record->dataSize = body.size();
    record->data = reinterpret_cast<std::byte*>(body.data());
    return StatusCode::Success;
  }
  static Status ParseMetadata(const Record& r, Metadata* m) {
    if (r.opcode != OpCode::Metadata) return StatusCode::InvalidRecord;
    stub::Parser q{reinterpret_cast<const char*>(r.data), size_t(r.dataSize)};
    m->name = q.str();
    m->metadata = stub::getMap(q);
    return q.bad ? StatusCode::InvalidRecord : StatusCode::Success;
  }
  static Status ParseAttachment(const Record& r, Attachment* a) {
    if (r.opcode != OpCode::Attachment) return StatusCode::InvalidRecord;
    stub::Parser q{reinterpret_cast<const char*>(r.data), size_t(r.dataSize)};
    a->logTime = q.get<Timestamp>();
    a->createTime = q.get<Timestamp>();
    a->name = q.str();
    a->mediaType = q.str();
    a->dataSize = q.n - q.at;
    a->data = r.data + q.at;
    return q.bad ? StatusCode::InvalidRecord : StatusCode::Success;
  }
};

inline LinearMessageView::Iterator LinearMessageView::begin() {
  offsets_.clear();
  std::vector<std::pair<uint64_t, Timestamp>> m;
  for (const auto& x : reader_.messages_)
    if (x.second >= options_.startTime && x.second < options_.endTime) m.push_back(x);
  if (options_.readOrder == ReadMessageOptions::ReadOrder::LogTimeOrder)
    std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.second < b.second; });
  if (options_.readOrder == ReadMessageOptions::ReadOrder::ReverseLogTimeOrder)
    std::stable_sort(m.begin(), m.end(), [](auto& a, auto& b) { return a.second > b.second; });
  for (auto& x : m) offsets_.push_back(x.first);
  if (reader_.damaged_) problem_(Status(StatusCode::InvalidRecord, "the recording is damaged"));
  Iterator it;
  it.view_ = this;
  it.load();
  return it;
}
inline void LinearMessageView::Iterator::load() {
  cur_.reset();
  for (; at_ < view_->offsets_.size(); ++at_) {
    OpCode op;
    std::string b;
    const Status s = McapReader::raw(*view_->reader_.input_, view_->offsets_[at_], &op, &b);
    if (!s.ok()) {
      view_->problem_(s);
      continue;
    }
    auto c = std::make_shared<Current>();
    stub::Parser q{b.data(), b.size()};
    Message& m = c->message;
    m.channelId = q.get<ChannelId>();
    m.sequence = q.get<uint32_t>();
    m.logTime = q.get<Timestamp>();
    m.publishTime = q.get<Timestamp>();
    const size_t n = q.n - q.at;
    c->bytes = std::make_unique<char[]>(n);  // exactly as many as the message has
    memcpy(c->bytes.get(), b.data() + q.at, n);
    m.data = reinterpret_cast<const std::byte*>(c->bytes.get());
    m.dataSize = n;
    const ChannelPtr ch = view_->reader_.channel(m.channelId);
    if (!ch) {
      view_->problem_(Status(StatusCode::InvalidChannelId, "message with unknown channel"));
      continue;
    }
    const SchemaPtr sc = view_->reader_.schema(ch->schemaId);
    if (ch->schemaId != 0 && !sc) {
      view_->problem_(Status(StatusCode::InvalidSchemaId, "channel with unknown schema"));
      continue;
    }
    if (view_->options_.topicFilter && !view_->options_.topicFilter(ch->topic)) continue;
    c->view.emplace(c->message, ch, sc);
    cur_ = c;
    return;
  }
}
}  // namespace mcap
