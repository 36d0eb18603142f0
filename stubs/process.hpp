// Declarations of the part of tiny-process-library 2.0.4 that buildcc uses.
// The library itself is not installed in this sandbox; only the declarations
// are needed to resolve the calls in buildcc/lib/env/src/execute.cpp.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace TinyProcessLib {
class Process {
public:
  typedef std::string string_type;
  Process(const std::vector<string_type> &arguments,
          const string_type &path = string_type(),
          std::function<void(const char *bytes, size_t n)> read_stdout = nullptr,
          std::function<void(const char *bytes, size_t n)> read_stderr = nullptr,
          bool open_stdin = false);
  Process(const string_type &command, const string_type &path = string_type(),
          std::function<void(const char *bytes, size_t n)> read_stdout = nullptr,
          std::function<void(const char *bytes, size_t n)> read_stderr = nullptr,
          bool open_stdin = false);
  ~Process() noexcept;
  int get_exit_status() noexcept;
  bool try_get_exit_status(int &exit_status) noexcept;
  bool write(const char *bytes, size_t n);
  bool write(const std::string &str);
  void close_stdin() noexcept;
  void kill(bool force = false) noexcept;
};
} // namespace TinyProcessLib
