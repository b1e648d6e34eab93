// Simulated file system seam. The harness executable defines the libc file functions, so that libstdc++ (streams and
// std::filesystem) and the code under test reach an in-memory tree below /sim; every other path goes to the real system.
// Each operation may meet a seeded fault; hard faults are logged so that an oracle can tell what was allowed to fail.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

namespace vfs {
enum Kind { kFile, kDir, kLink, kFifo };
struct Node {
  Kind kind = kFile;
  std::string data;   // file content, link target
  std::map<std::string, std::shared_ptr<Node>> kids;
  unsigned mode = 0644;
  int64_t mtime_ns = 0;
  uint64_t ino = 0;
  uint64_t version = 0;  // bumped by every change of the content
  bool eio = false;      // device errors: every read fails
  int64_t eio_at = -1;   // reads at or beyond this offset fail
};
using P = std::shared_ptr<Node>;

enum Op { kOpen, kRead, kWrite, kSeek, kClose, kStat, kOpenDir, kReadDir, kCloseDir, kMeta, kNumOps };
const char* OpName(Op op);
struct FaultRec {
  Op op;
  std::string path;
  int err;
};

// Starts the simulated file system (empty /sim). Call once per run.
void Start();
void Stop();  // back to passing everything through
P Root();     // /sim
P Add(const std::string& path, Kind kind, std::string data = "", unsigned mode = 0644);  // creates parents
P Find(const std::string& path, bool follow = true);
bool Remove(const std::string& path);
void SetCwd(const std::string& path);  // virtual current directory
std::string Cwd();

// Fault plan. All probabilities are out of 1000 and drawn per operation; ops restricted by mask (1 << Op).
struct Plan {
  unsigned hard = 0;         // hard error
  unsigned hard_mask = ~0u;
  unsigned shorten = 0;      // short read/write
  unsigned eintr = 0;
  int nth = 0;               // the nth operation of nth_mask from now fails hard (1-based; 0 none)
  unsigned nth_mask = ~0u;
  bool sticky = false;       // ... and all of the mask after it
  int64_t disk_room = -1;    // bytes the disk still takes (-1: unlimited)
  bool dir_seek_max = true;  // lseek(dir, END): LLONG_MAX as ext4/overlay, else a small number as tmpfs
  bool unknown_dtype = false;
  std::function<bool(const std::string& path)> only;  // faults only on these paths
};
void SetPlan(const Plan& plan);
// Draws a plan: mostly healthy, benign, one hard fault, or a hostile system.
enum class Mood { kHealthy, kBenign, kOneHard, kHostile };
Plan DrawPlan(Mood mood, unsigned hard_mask, int horizon);

const std::vector<FaultRec>& HardFaults();
void ClearFaults();
uint64_t Ops();
// Called before every operation (other actors changing the tree); not re-entered.
extern std::function<void(Op, const std::string&)> on_op;
int OpenFds();        // open virtual descriptors, streams and directory handles
std::string FdList();
// std streams behind the seam: content for stdin, capture of stdout/stderr; all with faults of the plan.
// Paths are "<stdin>", "<stdout>" and "<stderr>".
void InstallStd(const std::string& in, bool in_is_dir = false);
// What the process' exit does: flush; true if all output reached the "device".
void FlushStd();
const std::string& StdOut();
const std::string& StdErr();
}  // namespace vfs
