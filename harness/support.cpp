#include "exec_stub.hpp"
#include "process.hpp"

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <mutex>
#include <thread>
#include <vector>

#include "spdlog/sinks/null_sink.h"
#include "spdlog/spdlog.h"

void harness_init() {
  if (getenv("PBT_LOG"))
    return;
  auto l = spdlog::null_logger_mt("pbt");
  spdlog::set_default_logger(l);
}

namespace stub {
static Handler g_handler;
void set_handler(Handler h) { g_handler = std::move(h); }
} // namespace stub

namespace TinyProcessLib {

struct Process::Impl {
  pid_t pid{-1};
  int status{-1};
  bool waited{false};
  std::thread reader;
};

Process::Process(const string_type &command, const string_type &path, reader out,
                 reader err, bool, const Config &config) noexcept
    : impl_(new Impl) {
  if (stub::g_handler) {
    impl_->status = stub::g_handler(command, path, out, err);
    impl_->waited = true;
    return;
  }
  int o[2] = {-1, -1}, e[2] = {-1, -1};
  if (out && pipe2(o, O_CLOEXEC) != 0)
    return;
  if (err && pipe2(e, O_CLOEXEC) != 0)
    return;
  pid_t pid = fork();
  if (pid == 0) {
    if (out)
      dup2(o[1], 1);
    if (err)
      dup2(e[1], 2);
    setpgid(0, 0);
    if (!path.empty() && chdir(path.c_str()) != 0)
      _exit(EXIT_FAILURE);
    execl("/bin/sh", "/bin/sh", "-c", command.c_str(), nullptr);
    _exit(EXIT_FAILURE);
  }
  if (out)
    close(o[1]);
  if (err)
    close(e[1]);
  impl_->pid = pid;
  if (out || err) {
    size_t bs = config.buffer_size;
    impl_->reader = std::thread([=]() {
      pollfd f[2] = {{out ? o[0] : -1, POLLIN, 0}, {err ? e[0] : -1, POLLIN, 0}};
      std::vector<char> buf(bs);
      int open_ = (out ? 1 : 0) + (err ? 1 : 0);
      while (open_ > 0) {
        int r = poll(f, 2, -1);
        if (r < 0 && errno == EINTR)
          continue;
        for (int i = 0; i < 2; i++) {
          if (f[i].fd < 0 || !f[i].revents)
            continue;
          ssize_t n = read(f[i].fd, buf.data(), buf.size());
          if (n > 0)
            (i == 0 ? out : err)(buf.data(), (size_t)n);
          else if (n == 0 || errno != EINTR) {
            close(f[i].fd);
            f[i].fd = -1;
            open_--;
          }
        }
      }
    });
  }
}

Process::~Process() noexcept {
  if (impl_->reader.joinable())
    impl_->reader.join();
}
Process::id_type Process::get_id() const noexcept { return impl_->pid; }
int Process::get_exit_status() noexcept {
  if (impl_->waited)
    return impl_->status;
  if (impl_->pid < 0)
    return -1;
  int st = 0;
  pid_t r;
  do {
    r = waitpid(impl_->pid, &st, 0);
  } while (r < 0 && errno == EINTR);
  if (impl_->reader.joinable())
    impl_->reader.join();
  impl_->waited = true;
  if (r < 0)
    impl_->status = -1;
  else if (WIFEXITED(st))
    impl_->status = WEXITSTATUS(st);
  else if (WIFSIGNALED(st))
    impl_->status = 128 + WTERMSIG(st);
  return impl_->status;
}
bool Process::try_get_exit_status(int &s) noexcept {
  s = get_exit_status();
  return true;
}
void Process::kill(bool force) noexcept {
  if (impl_->pid > 0)
    ::kill(-impl_->pid, force ? SIGTERM : SIGINT);
}

} // namespace TinyProcessLib
