// Addresses, and the settings a network is built from (C26).
#include "kernel.h"
#include "frn/lib/net/builder.h"
#include "frn/lib/net/network.h"
using frn::lib::net::Network;
static std::string ip(unsigned i) { return vp_name("10.0.0.", (long)i + 1); }
static unsigned ipn(unsigned i) { u8 b[4] = {10, 0, 0, (u8)(i + 1)}; unsigned r; memcpy(&r, b, 4); return r; }
// every party of a network of n: whom does it reach, where
static void ports() {
  unsigned n = (unsigned)vp_param("n", 3); int how = (int)vp_param("how", 0), base = 0; // how: 0 all local, 1 from a file, 2 default base port
  K = new Kernel; K->instant = true; if (how != 2) base = (int)vp_sym(32, "base"); if (how == 3) { vp_assume(base >= 1025 && base <= 65535 - (int)(n * n)); how = 0; } std::string file = how == 1 ? [&] { std::string s; for (unsigned i = 0; i < n; i++) s += ip(i) + (i + 1 < n || vp_param("newline", 1) ? "\n" : ""); return vp_file(s); }() : "";
  int refused = 0; std::vector<std::vector<Kernel::Ev>> ev(n);
  for (unsigned i = 0; i < n; i++) {
    Network::Builder b; bool threw = false;
    try {
      b.TransportType(Network::TransportType::eTcp).LocalPeerId((int)i).Size(n); if (how != 2) b.BasePort(base); if (how == 1) b.ConnectionFile(file); else b.AllPartiesLocal();
      K->party[vp_self()] = (int)i; Network net = b.Build(); vp_assert(net.Size() == n && net.LocalPeerId() == (int)i, "as configured"); K->ev.clear(); size_t fds = K->fd.size(); (void)fds; net.Connect(); ev[i] = K->ev; net.Close();
    } catch (...) { threw = true; }
    if (threw) refused++;
  }
  bool fits = how == 2 || (base >= 1025 && base <= 65535 - (int)(n * n)), bad = how != 2 && (base < 1025 || base > 65535);
  if (fits) vp_assert(refused == 0, "a valid configuration is accepted"); if (bad) vp_assert(refused == (int)n, "an invalid base port is refused");
  if (refused) { vp_reach("refused"); vp_reach("end"); return; }
  std::vector<std::vector<unsigned long>> port(n, std::vector<unsigned long>(n, 0)); std::vector<unsigned long> all;
  for (unsigned i = 0; i < n; i++) { vp_assert(ev[i].size() == n - 1, "one connection per other party"); for (unsigned k = 0; k < n - 1; k++) { auto &e = ev[i][k]; unsigned j = k < i ? k : k + 1; vp_assert(e.server == (i < j), "the lower-numbered party listens"); if (!e.server) vp_assert(e.addr == (how == 1 ? ipn(j) : 0u) || (how != 1 && (e.addr & 255) == 127), "the address of that party"); vp_assert((e.port >= 1025) & (e.port <= 65535), "a valid port"); port[i][j] = e.port; } }
  for (unsigned i = 0; i < n; i++) for (unsigned j = i + 1; j < n; j++) { vp_assert(port[i][j] == port[j][i], "both ends of a pair use the same port"); int same = 0; for (auto p : all) same |= p == port[i][j]; vp_assert(!same, "different pairs use different ports"); all.push_back(port[i][j]); }
  vp_reach("end");
}
// any sequence of settings
static void settings() {
  K = new Kernel; K->instant = true; int steps = (int)vp_param("steps", 4), N = (int)vp_param("n", 3); Network::Builder b; bool hasId = false, hasSize = false, hasType = false, tcp = false, hasPort = false, local = false, hasIps = false; int id = 0, port = 9876; unsigned long size = 0; long lines = 0;
  auto consistent = [&](bool complete) { if (hasId && id < 0) return false; if (hasSize && size == 0 && complete) return false; if (hasId && hasSize && (unsigned long)id >= size) return false; if (hasPort && (port < 1025 || port > 65535)) return false; if (hasIps && lines <= 0) return false; if (hasIps && hasSize && !local && (unsigned long)lines != size) return false; if (complete && !(hasId && hasSize && hasType && tcp && (local || hasIps))) return false; return true; };
  std::string files[4] = {"", ip(0), ip(0) + "\n" + ip(1) + "\n", ip(0) + "\n" + ip(1) + "\n" + ip(2)};
  int first = (int)vp_param("first", -1), again = (int)vp_param("again", 0); // refusals after which the caller carries on
  for (int k = 0; k < steps; k++) {
    bool h0 = hasId, h1 = hasSize, h2 = hasType, h3 = tcp, h4 = hasPort, h5 = hasIps, h6 = local; int i0 = id, p0 = port; unsigned long s0 = size; long l0 = lines; // what holds if this setting is refused
    bool threw = false; int op = k == 0 && first >= 0 ? first : (int)vp_choose(0, 6, vp_name("op", k).c_str()); bool wasLocal = local;
    try { switch (op) {
      case 0: hasId = true; id = (int)vp_sym(32, vp_name("id", k).c_str()); b.LocalPeerId(id); break;
      case 1: hasSize = true; size = vp_sym(64, vp_name("size", k).c_str()); b.Size(size); break;
      case 2: hasType = tcp = true; b.TransportType(Network::TransportType::eTcp); break;
      case 3: hasType = true; tcp = false; b.TransportType(Network::TransportType::eFake); break;
      case 4: hasPort = true; port = (int)vp_sym(32, vp_name("port", k).c_str()); b.BasePort(port); break;
      case 5: { hasIps = true; lines = vp_choose(-1, 3, vp_name("lines", k).c_str()); local = false; std::string nm = lines < 0 ? "no such file" : vp_file(files[lines]); b.ConnectionFile(nm); local = wasLocal; break; }
      case 6: local = true; b.AllPartiesLocal(); break;
    } } catch (...) { threw = true; }
    if (threw) { vp_assert(!consistent(false), "only inconsistent settings are refused"); if (again-- > 0) { hasId = h0; hasSize = h1; hasType = h2; tcp = h3; hasPort = h4; hasIps = h5; local = h6; id = i0; port = p0; size = s0; lines = l0; vp_reach("went on"); continue; } vp_reach("refused"); vp_reach("end"); return; }
  }
  // sizes beyond the bound are not built
  if (hasSize && size > (unsigned long)N) { vp_reach("end"); return; }
  bool threw = false; unsigned long c = 0;
  try { Network net = b.Build(); vp_assert(net.Size() == size && net.LocalPeerId() == id, "as configured"); } catch (...) { threw = true; }
  if (!threw) vp_assert(consistent(true), "a network is only built from a consistent and complete configuration"); else { c = size; vp_assert(!consistent(true) || port > 65535 - (int)(c * c), "a consistent configuration is accepted"); }
  vp_reach("end");
}
extern "C" void vp_main() { if (vp_param("part", 0) == 0) ports(); else settings(); }
