// Stand-in for the one class of jsoncons that cbor.hpp's writer uses, which is not installed here: RFC 8949 encoding with
// shortest headers, definite lengths, and single precision where it loses nothing, as jsoncons documents it.
// (jsoncons also refuses text that is not UTF-8, containers whose count differs from what was announced, and nesting deeper than 1024.)
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string_view>
#include <vector>
namespace jsoncons { namespace cbor {
class cbor_bytes_encoder {
  std::vector<uint8_t> &o_;
  void be(uint64_t v, int n) { while (n--) o_.push_back((uint8_t)(v >> 8 * n)); }
  void head(int major, uint64_t v) {
    uint8_t m = (uint8_t)(major << 5);
    if (v < 24) o_.push_back(m | (uint8_t)v);
    else if (v <= 0xff) { o_.push_back(m | 24); be(v, 1); }
    else if (v <= 0xffff) { o_.push_back(m | 25); be(v, 2); }
    else if (v <= 0xffffffff) { o_.push_back(m | 26); be(v, 4); }
    else { o_.push_back(m | 27); be(v, 8); }
  }
  void bytes(const void *p, std::size_t n) { std::size_t k = o_.size(); o_.resize(k + n); if (n) std::memcpy(o_.data() + k, p, n); }
public:
  explicit cbor_bytes_encoder(std::vector<uint8_t> &o) : o_(o) {}
  cbor_bytes_encoder(const cbor_bytes_encoder &) = delete;
  void null_value() { o_.push_back(0xf6); }
  void bool_value(bool b) { o_.push_back(b ? 0xf5 : 0xf4); }
  void int64_value(int64_t v) { if (v >= 0) head(0, (uint64_t)v); else head(1, ~(uint64_t)v); }
  void uint64_value(uint64_t v) { head(0, v); }
  void double_value(double d) {
    float f = (float)d;
    if ((double)f == d) { uint32_t u; std::memcpy(&u, &f, 4); o_.push_back(0xfa); be(u, 4); }
    else { uint64_t u; std::memcpy(&u, &d, 8); o_.push_back(0xfb); be(u, 8); }
  }
  void string_value(std::string_view s) { head(3, s.size()); bytes(s.data(), s.size()); }
  void byte_string_value(const std::vector<uint8_t> &b) { head(2, b.size()); bytes(b.data(), b.size()); }
  void begin_array(std::size_t n) { head(4, n); }
  void end_array() {}
  void begin_object(std::size_t n) { head(5, n); }
  void end_object() {}
  void key(std::string_view k) { string_value(k); }
};
} }
