// the command line programs of the repository as simulated processes: standard
// streams, exit and files belong to the simulator
#pragma once
#include "core.h"
#include <string>
#include <vector>

namespace console {

struct In {
  std::string data;
  long fail_at = -1;      // bytes delivered before reads fail with EIO
  uint32_t chunk = 0;     // at most this many bytes per read, 0 = all
  uint64_t seed = 1;      // of the chunk sizes
  int bufsize = -1;       // -1 default, 0 none
  size_t pos = 0;         // bytes delivered
  int reads = 0;
};
struct Out {
  std::string data;
  int bufsize = -1;       // -1 line buffered (terminal), 0 none, >0 full
};
extern In in;
extern Out out, err;
// called before every read from standard input
extern void (*on_read)();

struct Result {
  bool exited = false; // by exit() rather than by returning
  int status = 0;
};
// run main of a program to its end; buffers are flushed as at the end of a process
Result run(int (*entry)(int, char **), const std::vector<std::string> &args);
void reset();

} // namespace console
