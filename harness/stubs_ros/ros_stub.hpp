// Stand-ins for the parts of ROS 2 that cloudini_ros uses. Messages are plain structs, topics are recorded.
#pragma once
#include <array>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

namespace builtin_interfaces::msg {
struct Time {
  int32_t sec = 0;
  uint32_t nanosec = 0;
  bool operator==(const Time&) const = default;
};
}  // namespace builtin_interfaces::msg
namespace std_msgs::msg {
struct Header {
  builtin_interfaces::msg::Time stamp;
  std::string frame_id;
  bool operator==(const Header&) const = default;
};
}  // namespace std_msgs::msg
namespace sensor_msgs::msg {
struct PointField {
  std::string name;
  uint32_t offset = 0;
  uint8_t datatype = 0;
  uint32_t count = 0;
  bool operator==(const PointField&) const = default;
};
struct PointCloud2 {
  using SharedPtr = std::shared_ptr<PointCloud2>;
  using ConstSharedPtr = std::shared_ptr<const PointCloud2>;
  std_msgs::msg::Header header;
  uint32_t height = 0, width = 0;
  std::vector<PointField> fields;
  bool is_bigendian = false;
  uint32_t point_step = 0, row_step = 0;
  std::vector<uint8_t> data;
  bool is_dense = false;
};
}  // namespace sensor_msgs::msg
namespace point_cloud_interfaces::msg {
struct CompressedPointCloud2 {
  std_msgs::msg::Header header;
  uint32_t height = 0, width = 0;
  std::vector<sensor_msgs::msg::PointField> fields;
  bool is_bigendian = false;
  uint32_t point_step = 0, row_step = 0;
  std::vector<uint8_t> compressed_data;
  bool is_dense = false;
  std::string format;
};
}  // namespace point_cloud_interfaces::msg

namespace tl {
template <class E>
struct unexpected {
  E e;
  explicit unexpected(E v) : e(std::move(v)) {}
  const E& value() const { return e; }
};
template <class E>
unexpected<std::decay_t<E>> make_unexpected(E&& e) {
  return unexpected<std::decay_t<E>>(std::forward<E>(e));
}
template <class T, class E>
class expected {
  std::variant<T, E> v_;

 public:
  expected() = default;
  template <class U, std::enable_if_t<std::is_constructible_v<T, U&&> && !std::is_same_v<std::decay_t<U>, expected>, int> = 0>
  expected(U&& u) : v_(std::in_place_index<0>, std::forward<U>(u)) {}
  template <class G>
  expected(unexpected<G> u) : v_(std::in_place_index<1>, std::move(u.e)) {}
  bool has_value() const { return v_.index() == 0; }
  explicit operator bool() const { return has_value(); }
  const T& value() const { return std::get<0>(v_); }
  T& value() { return std::get<0>(v_); }
  const E& error() const { return std::get<1>(v_); }
};
}  // namespace tl

namespace rcl_interfaces::msg {
struct IntegerRange {
  int64_t from_value = 0, to_value = 0;
  uint64_t step = 0;
  IntegerRange& set__from_value(int64_t v) { from_value = v; return *this; }
  IntegerRange& set__to_value(int64_t v) { to_value = v; return *this; }
  IntegerRange& set__step(uint64_t v) { step = v; return *this; }
};
struct FloatingPointRange {
  double from_value = 0, to_value = 0, step = 0;
  FloatingPointRange& set__from_value(double v) { from_value = v; return *this; }
  FloatingPointRange& set__to_value(double v) { to_value = v; return *this; }
  FloatingPointRange& set__step(double v) { step = v; return *this; }
};
struct ParameterDescriptor {
  std::string name;
  uint8_t type = 0;
  std::string description, additional_constraints;
  bool read_only = false, dynamic_typing = false;
  std::vector<IntegerRange> integer_range;
  std::vector<FloatingPointRange> floating_point_range;
  ParameterDescriptor& set__integer_range(std::vector<IntegerRange> r) { integer_range = std::move(r); return *this; }
  ParameterDescriptor& set__floating_point_range(std::vector<FloatingPointRange> r) { floating_point_range = std::move(r); return *this; }
};
struct ParameterType {
  static constexpr uint8_t PARAMETER_NOT_SET = 0, PARAMETER_BOOL = 1, PARAMETER_INTEGER = 2, PARAMETER_DOUBLE = 3, PARAMETER_STRING = 4;
};
struct SetParametersResult {
  bool successful = false;
  std::string reason;
};
}  // namespace rcl_interfaces::msg

// C types of the middleware
struct rcl_serialized_message_t {
  uint8_t* buffer = nullptr;
  size_t buffer_length = 0, buffer_capacity = 0;
};
enum rmw_qos_reliability_policy_t { RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT };
enum rmw_qos_durability_policy_t { RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT, RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, RMW_QOS_POLICY_DURABILITY_VOLATILE };
struct rmw_qos_profile_t {
  size_t depth = 10;
  rmw_qos_reliability_policy_t reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  rmw_qos_durability_policy_t durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
};
inline const rmw_qos_profile_t rmw_qos_profile_default{};

namespace rclcpp {
struct Logger {};
inline Logger get_logger(const std::string&) { return {}; }
struct Time {
  int64_t ns = 0;
  int64_t nanoseconds() const { return ns; }
};
struct Clock {
  using SharedPtr = std::shared_ptr<Clock>;
  Time now() const { return {}; }
};
inline thread_local unsigned stub_errors = 0;  // messages logged as errors by this thread
inline void stubLog(bool error) { stub_errors += error; }

class QoS {
  rmw_qos_profile_t p_;

 public:
  QoS(size_t depth = 10) { p_.depth = depth; }
  QoS& reliable() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE; return *this; }
  QoS& best_effort() { p_.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT; return *this; }
  QoS& transient_local() { p_.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL; return *this; }
  QoS& durability_volatile() { p_.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE; return *this; }
  const rmw_qos_profile_t& get_rmw_qos_profile() const { return p_; }
  rmw_qos_profile_t& get_rmw_qos_profile() { return p_; }
};
class TopicEndpointInfo {
 public:
  QoS q;
  const QoS& qos_profile() const { return q; }
};

class ParameterValue {
 public:
  std::variant<std::monostate, bool, int64_t, double, std::string> v;
};
class Parameter {
  std::string name_;

 public:
  std::variant<std::monostate, bool, int64_t, double, std::string> v;
  Parameter() = default;
  Parameter(std::string n, std::variant<std::monostate, bool, int64_t, double, std::string> x) : name_(std::move(n)), v(std::move(x)) {}
  const std::string& get_name() const { return name_; }
  template <class T>
  T get_value() const {
    return std::get<T>(v);
  }
  bool as_bool() const { return std::get<bool>(v); }
  int64_t as_int() const { return std::get<int64_t>(v); }
  double as_double() const { return std::get<double>(v); }
  std::string as_string() const { return std::get<std::string>(v); }
};

// owns its buffer, as the real one: freed on destruction
class SerializedMessage {
  rcl_serialized_message_t m_;

 public:
  SerializedMessage() = default;
  SerializedMessage(const uint8_t* p, size_t n) {
    m_.buffer = static_cast<uint8_t*>(malloc(n ? n : 1));
    if (n) memcpy(m_.buffer, p, n);
    m_.buffer_length = m_.buffer_capacity = n;
  }
  SerializedMessage(const SerializedMessage&) = delete;
  SerializedMessage& operator=(const SerializedMessage&) = delete;
  ~SerializedMessage() { free(m_.buffer); }
  rcl_serialized_message_t& get_rcl_serialized_message() { return m_; }
  const rcl_serialized_message_t& get_rcl_serialized_message() const { return m_; }
  size_t size() const { return m_.buffer_length; }
};

struct SubscriptionBase {
  using SharedPtr = std::shared_ptr<SubscriptionBase>;
  std::string topic, type;
  QoS qos;
  virtual ~SubscriptionBase() = default;
  const char* get_topic_name() const { return topic.c_str(); }
};
struct GenericSubscription : SubscriptionBase {
  using SharedPtr = std::shared_ptr<GenericSubscription>;
  std::function<void(std::shared_ptr<SerializedMessage>)> callback;
};
struct GenericPublisher {
  using SharedPtr = std::shared_ptr<GenericPublisher>;
  std::string topic, type;
  QoS qos;
  size_t subscribers = 1;
  std::vector<std::vector<uint8_t>> sent;
  size_t get_subscription_count() const { return subscribers; }
  size_t get_intra_process_subscription_count() const { return 0; }
  void publish(const SerializedMessage& m) {
    const auto& r = m.get_rcl_serialized_message();
    sent.emplace_back(r.buffer, r.buffer + r.buffer_length);
  }
};
using PublisherBase = GenericPublisher;

class NodeOptions {
 public:
  std::map<std::string, Parameter> overrides;
  NodeOptions& use_intra_process_comms(bool) { return *this; }
};
class Node : public std::enable_shared_from_this<Node> {
 public:
  using SharedPtr = std::shared_ptr<Node>;
  explicit Node(const std::string& name, const NodeOptions& o = {}) : options_(o), name_(name) {}
  virtual ~Node() = default;
  template <class T>
  T declare_parameter(const std::string& n, const T& d) {
    auto it = options_.overrides.find(n);
    params_[n] = it != options_.overrides.end() ? it->second : Parameter(n, d);
    return std::get<T>(params_[n].v);
  }
  Parameter get_parameter(const std::string& n) const {
    auto it = params_.find(n);
    if (it == params_.end()) throw std::runtime_error("undeclared parameter " + n);
    return it->second;
  }
  std::vector<TopicEndpointInfo> get_publishers_info_by_topic(const std::string&) const { return endpoints; }
  GenericSubscription::SharedPtr create_generic_subscription(const std::string& topic, const std::string& type, const QoS& q,
                                                             std::function<void(std::shared_ptr<SerializedMessage>)> cb) {
    auto s = std::make_shared<GenericSubscription>();
    s->topic = topic;
    s->type = type;
    s->qos = q;
    s->callback = std::move(cb);
    subs.push_back(s);
    return s;
  }
  GenericPublisher::SharedPtr create_generic_publisher(const std::string& topic, const std::string& type, const QoS& q) {
    auto p = std::make_shared<GenericPublisher>();
    p->topic = topic;
    p->type = type;
    p->qos = q;
    pubs.push_back(p);
    return p;
  }
  template <class T>
  bool get_parameter(const std::string& n, T& out) const {
    auto it = params_.find(n);
    if (it == params_.end()) return false;
    out = it->second.get_value<T>();
    return true;
  }
  bool has_parameter(const std::string& n) const { return params_.count(n) != 0; }
  Logger get_logger() const { return {}; }
  Clock::SharedPtr get_clock() const { return std::make_shared<Clock>(); }
  const char* get_name() const { return name_.c_str(); }
  static inline std::vector<TopicEndpointInfo> endpoints;
  std::vector<std::shared_ptr<GenericSubscription>> subs;
  std::vector<std::shared_ptr<GenericPublisher>> pubs;

 private:
  NodeOptions options_;
  std::string name_;
  std::map<std::string, Parameter> params_;
};
}  // namespace rclcpp

#define RCLCPP_STUB_LOG(error, logger, ...) \
  do {                                      \
    (void)(logger);                         \
    char stub_log_buf[512];                 \
    snprintf(stub_log_buf, sizeof stub_log_buf, __VA_ARGS__); \
    ::rclcpp::stubLog(error);               \
  } while (0)
#define RCLCPP_DEBUG(l, ...) RCLCPP_STUB_LOG(false, l, __VA_ARGS__)
#define RCLCPP_INFO(l, ...) RCLCPP_STUB_LOG(false, l, __VA_ARGS__)
#define RCLCPP_WARN(l, ...) RCLCPP_STUB_LOG(false, l, __VA_ARGS__)
#define RCLCPP_ERROR(l, ...) RCLCPP_STUB_LOG(true, l, __VA_ARGS__)
#define RCLCPP_FATAL(l, ...) RCLCPP_STUB_LOG(true, l, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE RCLCPP_DEBUG
#define RCLCPP_INFO_ONCE RCLCPP_INFO
#define RCLCPP_WARN_ONCE RCLCPP_WARN
#define RCLCPP_ERROR_ONCE RCLCPP_ERROR
#define RCLCPP_STUB_THROTTLE(error, l, clock, ms, ...) \
  do {                                                  \
    (void)(clock);                                      \
    (void)(ms);                                         \
    RCLCPP_STUB_LOG(error, l, __VA_ARGS__);             \
  } while (0)
#define RCLCPP_DEBUG_THROTTLE(l, c, ms, ...) RCLCPP_STUB_THROTTLE(false, l, c, ms, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(l, c, ms, ...) RCLCPP_STUB_THROTTLE(false, l, c, ms, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(l, c, ms, ...) RCLCPP_STUB_THROTTLE(false, l, c, ms, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(l, c, ms, ...) RCLCPP_STUB_THROTTLE(true, l, c, ms, __VA_ARGS__)
#define RCLCPP_STUB_STREAM(error, l, x) \
  do {                                  \
    (void)(l);                          \
    std::ostringstream stub_log_out;    \
    stub_log_out << x;                  \
    ::rclcpp::stubLog(error);           \
  } while (0)
#define RCLCPP_DEBUG_STREAM(l, x) RCLCPP_STUB_STREAM(false, l, x)
#define RCLCPP_INFO_STREAM(l, x) RCLCPP_STUB_STREAM(false, l, x)
#define RCLCPP_WARN_STREAM(l, x) RCLCPP_STUB_STREAM(false, l, x)
#define RCLCPP_ERROR_STREAM(l, x) RCLCPP_STUB_STREAM(true, l, x)
#define RCLCPP_COMPONENTS_REGISTER_NODE(X)

namespace point_cloud_transport {
template <class M>
class SimplePublisherPlugin {
 public:
  using TypedEncodeResult = tl::expected<std::optional<M>, std::string>;
  virtual ~SimplePublisherPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual void declareParameters(const std::string& base_topic) = 0;
  virtual std::string getDataType() const = 0;
  virtual TypedEncodeResult encodeTyped(const sensor_msgs::msg::PointCloud2& raw) const = 0;
  // the node's parameter store, as seen by the plugin
  std::map<std::string, double> doubles;
  std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<rclcpp::Parameter>&)> param_cb;

 protected:
  template <class T>
  bool declareParam(const std::string& name, const T& value, const rcl_interfaces::msg::ParameterDescriptor& = {}) {
    doubles.emplace(name, value);
    return true;
  }
  // the plugins pass the value before the descriptor or after it, depending on the release
  template <class T>
  bool declareParam(const std::string& name, const rcl_interfaces::msg::ParameterDescriptor&, const T& value) {
    doubles.emplace(name, value);
    return true;
  }
  template <class T>
  bool getParam(const std::string& name, T& value) const {
    auto it = doubles.find(name);
    if (it == doubles.end()) return false;
    value = T(it->second);
    return true;
  }
  template <class F>
  void setParamCallback(F f) {
    param_cb = f;
  }
};
template <class M>
class SimpleSubscriberPlugin {
 public:
  using DecodeResult = tl::expected<std::optional<sensor_msgs::msg::PointCloud2::ConstSharedPtr>, std::string>;
  virtual ~SimpleSubscriberPlugin() = default;
  virtual std::string getTransportName() const = 0;
  virtual void declareParameters() = 0;
  virtual std::string getDataType() const = 0;
  virtual DecodeResult decodeTyped(const M& compressed) const = 0;
};
}  // namespace point_cloud_transport
