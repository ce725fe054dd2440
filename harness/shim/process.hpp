// Stand-in for tiny-process-library (not available offline). Same public
// surface as the parts /repo uses; what a command does is decided by the
// harness (recording stub) or, in `real` mode, by /bin/sh.
#pragma once
#include <functional>
#include <memory>
#include <string>

namespace TinyProcessLib {

struct Config {
  std::size_t buffer_size = 131072;
  bool inherit_file_descriptors = false;
};

class Process {
public:
  using id_type = int;
  using fd_type = int;
  using string_type = std::string;
  using reader = std::function<void(const char *bytes, size_t n)>;

  Process(const string_type &command, const string_type &path = string_type(),
          reader read_stdout = nullptr, reader read_stderr = nullptr,
          bool open_stdin = false, const Config &config = {}) noexcept;
  ~Process() noexcept;

  id_type get_id() const noexcept;
  int get_exit_status() noexcept;
  bool try_get_exit_status(int &exit_status) noexcept;
  void kill(bool force = false) noexcept;

private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
};

} // namespace TinyProcessLib
