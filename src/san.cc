// C31: cluster histories and component histories of the other properties, run under AddressSanitizer and UBSan (and, in
// the thorough tier, driven by libFuzzer), with every log line formatted and everything that can be rendered rendered.
// A sanitizer report, a failed assertion, an abort, a fatal halt, or a case that does not end is a violation; what the
// other properties' oracles say is left to their own checks.
#include <stdlib.h>

#include "sim.h"
#include "src/util.h"

using namespace pbt;

namespace {

struct Target {
  const char* prop;
  int weight;
};
const Target kTargets[] = {
    {"C02", 14}, {"C07", 10}, {"C09", 8}, {"C10", 14}, {"C13", 12}, {"C14", 8}, {"C15", 4}, {"C16", 4}, {"C18", 8}, {"C19", 10}, {"C30", 8}, {"C33", 8},
    {"C21", 4}, {"C22", 5}, {"C23", 5}, {"C24", 3}, {"C25", 4}, {"C26", 3}, {"C27", 3}, {"C28", 5}, {"C29", 1},
};

// Status values, logging and the small helpers.
void misc_case(Ctx& c, Rng& g) {
  auto text = [&](size_t cap) {
    size_t n = g.below(4) == 0 ? g.below(cap) : g.below(20);
    std::string s;
    for (size_t i = 0; i < n; i++) s += (char)(g.below(5) ? 'a' + g.below(26) : g.below(2) ? ' ' : '%');
    return s;
  };
  std::vector<craft::Status> st;
  std::vector<std::string> ref;
  for (int i = 0; i < 3; i++) {
    st.push_back(craft::Status::OK());
    ref.push_back("OK");
  }
  for (auto& op : c.t.ops) {
    size_t a = op.w[1] % st.size(), b = op.w[2] % st.size();
    switch (op.w[0] % 5) {
      case 0: {
        std::string s = text(3000);
        st[a] = craft::Status::Error("%s", s.c_str());
        ref[a] = s.substr(0, 1023);
        break;
      }
      case 1: st[a] = st[b]; ref[a] = ref[b]; break;
      case 2: { craft::Status t(st[b]); st[a] = std::move(t); ref[a] = ref[b]; break; }
      case 3: { craft::Status t(std::move(st[b])); st[b] = t; break; }
      default: st[a] = craft::Status::OK(); ref[a] = "OK"; break;
    }
    c.events++;
    for (size_t i = 0; i < st.size(); i++)
      if (st[i].Str() != ref[i]) c.fail("status-text", "a status says '" + std::string(st[i].Str()) + "' instead of '" + ref[i] + "'");
  }
  std::string s = text(200);
  craft::Util::Split(s, ' ');
  craft::Util::Split(std::string_view(s), 'a');
  craft::Util::Trim(s, ' ');
  for (int i = 0; i < 20; i++) {
    int lo = (int)g.below(1000) - 500, hi = lo + (int)g.below(100);
    int x = craft::Util::Random(lo, hi);
    if (x < lo || x > hi) c.fail("random", "a random number is out of its range");
  }
  c.label("misc");
}

void san_case(Ctx& c) {
  g_sanitize = true;
  static const char* forced = getenv("PBT_SAN_TARGET");
  uint64_t total = 1;  // the extra one: misc_case
  for (auto& t : kTargets) total += t.weight;
  uint64_t k = c.h(45) % total;
  const CheckDef* d = nullptr;
  if (forced) d = find_check(forced);
  else
    for (auto& t : kTargets) {
      if (k < (uint64_t)t.weight) { d = find_check(t.prop); break; }
      k -= t.weight;
    }
  if (!d) {
    Rng g(mix64(c.h(1), c.h(2)));
    misc_case(c, g);
    c.nontrivial = true;
    c.summary = "statuses and helpers";
    c.sig = g.next();
    return;
  }
  Ctx in(c.t, d->prop);
  in.verbose = c.verbose;
  auto take = [&] {
    c.events += in.events;
    c.nontrivial = in.nontrivial;
    c.sig = mix64(in.sig, hash_str(d->prop));
    c.summary = d->prop + ": " + in.summary;
    c.label(("target_" + d->prop).c_str());
    c.labels["rendered"] += in.labels["rendered"];
  };
  try {
    d->fn(in);
  } catch (const Violation& v) {
    take();
    c.label(("foreign_" + d->prop).c_str());
    if (v.tag.find("halt") != std::string::npos) throw;
    return;
  }
  take();
}

PBT_CHECK_DEF("C31", san_case, 10, 110, 16000, 500000,
              "a cluster history or a component history of one of the other properties (drawn with weights), under ASan and UBSan, with rendering; "
              "non-trivial: as that property says", "asan");

}  // namespace
