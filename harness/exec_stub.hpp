#pragma once
#include <functional>
#include <string>
namespace stub {
using Reader = std::function<void(const char *, size_t)>;
// returns the exit status of the "process"
using Handler = std::function<int(const std::string &command, const std::string &cwd,
                                  const Reader &out, const Reader &err)>;
// empty handler => commands really run through /bin/sh
void set_handler(Handler h);
} // namespace stub
