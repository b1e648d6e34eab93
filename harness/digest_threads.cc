// C05: digest and hash computations run by several threads over shared immutable data. Every memory access of the real
// code is a scheduling point; results are judged after the threads ended, so a racy first use is not warmed up.
#include "harness/digest_kinds.h"
#include "harness/hash_kinds.h"
#include "sim/simsched.h"

namespace {
struct Rec { const char* what; int kind; std::vector<std::string> params; std::string msg, got, hex; };
std::vector<sm::Kind> all;
void Init() {
  dk::AddUnkeyed(); dk::AddKeyed(); dk::AddXof(); hk::AddHashes();
  for (auto& k : dk::kinds) all.push_back(std::move(k));
  for (auto& k : hk::kinds) all.push_back(std::move(k));
}
template <size_t N> std::string Hexed(const std::string& s) {
  std::array<uint8_t, N> a{};
  memcpy(a.data(), s.data(), std::min(N, s.size()));
  return mbo::digest::ToHexString(a);
}
void Run() {
  // Few kinds per run, so the same code is hit from several threads.
  const int nk = 1 + sim::Choose(2);
  std::vector<int> use;
  for (int i = 0; i < nk; ++i) use.push_back(sim::Choose(all.size()));
  std::vector<std::string> msgs;
  for (int i = 0; i < 3; ++i) msgs.push_back(sim::Blob(sim::SizeNear(all[use[0]].block, 400)));
  struct Shared { int kind; std::vector<std::string> params; std::string msg; std::unique_ptr<sm::Stream> s; };
  std::vector<Shared> shared;
  if (sim::Chance(2, 3)) for (int i = 0; i < nk; ++i) {
    Shared x; x.kind = use[i];
    x.s = all[x.kind].make(x.params);
    x.msg = sim::Blob(sim::SizeNear(all[x.kind].block, 300));
    { sm::Exact e(x.msg); x.s->Update(e.view()); }
    shared.push_back(std::move(x));
  }
  const int nt = 2 + sim::Choose(2);
  std::vector<std::vector<Rec>> recs(nt);
  sched::Begin();
  for (int t = 0; t < nt; ++t) {
    recs[t].reserve(16);
    const int ops = 1 + sim::Choose(4);
    sched::Spawn([&, t, ops] {
      for (int o = 0; o < ops; ++o) {
        const uint32_t what = sim::Choose(shared.empty() ? 3 : 5);
        Rec r{};
        if (what >= 3) {
          Shared& x = shared[sim::Choose(shared.size())];
          r.kind = x.kind; r.params = x.params; r.msg = x.msg;
          if (what == 3) {
            r.what = "finalise of a shared const stream";
            r.got = x.s->Finalize();
          } else {
            r.what = "copy of a shared const stream";
            auto c = x.s->Clone();
            const std::string b = msgs[sim::Choose(msgs.size())];
            c->Update(b);
            r.msg += b;
            r.got = c->Finalize();
          }
        } else {
          r.kind = use[sim::Choose(use.size())];
          const sm::Kind& k = all[r.kind];
          const std::string& m = msgs[sim::Choose(msgs.size())];
          auto s = k.make(r.params);
          r.msg = m;
          if (what == 0 && k.oneshot) {
            r.what = "one-shot";
            r.got = k.oneshot(r.params, m);
          } else {
            r.what = "own stream";
            const size_t cut = m.empty() ? 0 : sim::Choose(m.size());
            s->Update(std::string_view(m).substr(0, cut));
            if (what == 2) (void)s->Finalize();
            s->Update(std::string_view(m).substr(cut));
            r.got = s->Finalize();
          }
        }
        r.hex = r.got.size() >= 32 ? Hexed<32>(r.got) : Hexed<8>(r.got);
        sim::State(sim::Hash64(all[r.kind].name) * 8 + what + 16 * std::min<uint64_t>(sched::Switches(), 7));
        recs[t].push_back(std::move(r));
      }
    });
  }
  sched::RunAll();
  if (sched::Switches() >= 2) sim::NonTrivial();
  for (int t = 0; t < nt; ++t)
    for (auto& r : recs[t]) {
      const std::string want = all[r.kind].ref(r.params, r.msg);
      SIM_CHECK(r.got == want, "concurrent-mismatch", "t%d %s %s of %zu bytes: got %s, want %s", t, r.what, all[r.kind].name.c_str(),
                r.msg.size(), sim::Hex(r.got, 80).c_str(), sim::Hex(want, 80).c_str());
      std::string hex;
      const size_t n = r.got.size() >= 32 ? 32 : 8;
      for (size_t i = 0; i < n; ++i) { char b[3]; snprintf(b, 3, "%02x", i < r.got.size() ? (unsigned char)r.got[i] : 0); hex += b; }
      SIM_CHECK(r.hex == hex, "concurrent-hex", "t%d ToHexString gave %s, want %s", t, r.hex.c_str(), hex.c_str());
      sim::Ev("t%d %s %s %zu", t, r.what, all[r.kind].name.c_str(), r.msg.size());
    }
  if (!shared.empty()) sim::Probe("run with shared const stream");
}
}  // namespace
const SimHarness kSimHarness = {"C05", Run, Init};
