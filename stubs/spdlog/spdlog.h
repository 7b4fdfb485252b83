// Stand-in for spdlog: a logger that is always off (dReal's default).  It
// keeps the build of a check short and the logging code out of the encoding.
#pragma once
#include <memory>
#include <string>
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
class logger {
 public:
  bool should_log(level::level_enum l) const { return l >= level_ && level_ != level::off; }
  void set_level(level::level_enum l) { level_ = l; }
  void set_pattern(const std::string&) {}
  template <typename... A> void trace(const A&...) {}
  template <typename... A> void debug(const A&...) {}
  template <typename... A> void info(const A&...) {}
  template <typename... A> void warn(const A&...) {}
  template <typename... A> void error(const A&...) {}
  template <typename... A> void critical(const A&...) {}
 private:
  level::level_enum level_{level::off};
};
inline std::shared_ptr<logger> get(const std::string&) { return nullptr; }
inline std::shared_ptr<logger> stderr_color_mt(const std::string&) { return std::make_shared<logger>(); }
}  // namespace spdlog
