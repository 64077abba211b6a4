// A logger that keeps what it is given, for both drivers.
#pragma once

#include <bnl/base/log.hpp>

#include <string>
#include <vector>

struct kept {
  const char *level;
  std::string file;
  std::string function;
  int line;
  std::string text;
};

inline const char *
level_text(bnl::base::log::level level)
{
  using L = bnl::base::log::level;
  switch (level) {
    case L::trace: return "trace";
    case L::debug: return "debug";
    case L::info: return "info";
    case L::warning: return "warning";
    case L::error: return "error";
  }
  return "?";
}

struct keeper : bnl::base::log::api {
  mutable std::vector<kept> all;

  void
  log(bnl::base::log::level level, const char *file, const char *function, int line,
      const char *format, const fmt::format_args &args) const override
  {
    all.push_back({ level_text(level), file, function, line, fmt::vformat(format, args) });
  }
};
