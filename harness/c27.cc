// Whole parties over modelled TCP: typed messages and their accounting (C27), start-up and protocol runs (C28).
#include "kernel.h"
#include "proto.h"
#include <iostream>
#include "frn/check.h"
#include "frn/input.h"
#include "frn/input_corr.h"
#include "frn/mult.h"
#include "frn/tcp_network.h"
typedef std::shared_ptr<frn::TcpNetwork> Net;
static Net make(unsigned i, unsigned n) { return frn::TcpNetwork::CreateWithLocalParties(i, n, 6000, false); }
static void setup() { K = new Kernel; K->refuse = (int)vp_param("refuse", 1); K->cap = (size_t)vp_param("cap", 1 << 30); K->chunk = (size_t)vp_param("chunk", 1 << 30); K->splits = (int)vp_param("splits", 0); K->split = K->splits > 0; }
// the numbers of the printed summary, whatever the wording around them
struct Tot { unsigned long sent = 0, recv = 0; bool seen = false; };
static std::vector<Tot> summary(const std::string &s, unsigned id, unsigned n) {
  std::vector<Tot> r(n); size_t i = 0;
  while (i < s.size()) {
    size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = s.substr(i, e - i); i = e + 1; std::vector<unsigned long> num; for (size_t k = 0; k < l.size();) if (l[k] >= '0' && l[k] <= '9') { unsigned long v = 0; while (k < l.size() && l[k] >= '0' && l[k] <= '9') v = v * 10 + (unsigned long)(l[k++] - '0'); num.push_back(v); } else k++;
    bool se = l.find("sent") != std::string::npos, re = l.find("received") != std::string::npos; if (!se && !re) { if (num.size()) vp_assert(num.size() == 1 && num[0] == id, "the summary names the party"); continue; }
    vp_assert(num.size() == 1 + (size_t)se + (size_t)re && num[0] < n && !r[num[0]].seen, "one line per peer, with its totals"); Tot &t = r[num[0]]; t.seen = true; if (se) t.sent = num[1]; if (re) t.recv = num[se ? 2 : 1];
  }
  return r;
}
static void typed() {
  unsigned n = (unsigned)vp_param("n", 4), t = (n - 1) / 3; long pattern = vp_param("pattern", 0), from = vp_param("from", -1), free = vp_param("free", -1); setup(); vp_noyield(1); Rep rep(n, t);
  struct M { int kind; size_t k; std::vector<F> f; std::vector<Shr> s; std::vector<u8> b; }; std::vector<std::vector<std::vector<M>>> ms(n, std::vector<std::vector<M>>(n));
  for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < n; j++) { if (from >= 0 && (long)i != from && (long)j != from) continue; unsigned c = (unsigned)(i * 5 + j * 3) + (unsigned)pattern;
    unsigned many = free == (long)(i * n + j) ? (unsigned)vp_param("many", 3) : 1 + c % 4; for (unsigned q = 0; q < many; q++, c += 7) { M m; m.kind = (int)((c + q) % 3); m.k = (c / 3) % 3; std::string nm = vp_name("m", i, j, q); if (free == (long)(i * n + j)) { m.kind = (int)vp_choose(0, 2, (nm + "kind").c_str()); m.k = (size_t)vp_choose(0, 2, (nm + "size").c_str()); }
      if (m.kind == VALUES) for (size_t x = 0; x < m.k; x++) m.f.push_back(fsym(nm)); else if (m.kind == SHARES) for (size_t x = 0; x < m.k; x++) { Shr s; for (size_t y = 0; y < rep.ShareSize(); y++) s.push_back(fsym(nm)); m.s.push_back(s); } else { m.b.resize(m.k * 3); vp_bytes(m.b.data(), m.b.size(), nm.c_str()); }
      ms[i][j].push_back(m); } }
  std::vector<Net> net(n); vp_noyield(0);
  run_parties(n, [&](unsigned i) {
    K->party[vp_self()] = (int)i; net[i] = make(i, n); vp_assert(net[i]->Id() == i && net[i]->Size() == n, "as configured"); net[i]->Connect();
    for (unsigned j = 0; j < n; j++) for (auto &m : ms[i][j]) { if (m.kind == VALUES) net[i]->Send(j, m.f); else if (m.kind == SHARES) net[i]->SendShares(j, m.s); else net[i]->SendBytes(j, m.b); }
    for (unsigned d = 0; d < n; d++) { unsigned j = (i + d + (unsigned)pattern) % n;
      for (size_t q = 0; q < ms[j][i].size(); q++) { auto &m = ms[j][i][q];
        if (m.kind == VALUES) { std::vector<F> want = m.f; if (pattern & 1) while (q + 1 < ms[j][i].size() && ms[j][i][q + 1].kind == VALUES) { q++; want.insert(want.end(), ms[j][i][q].f.begin(), ms[j][i][q].f.end()); } // several messages in one go
          auto r = net[i]->Recv(j, want.size()); vp_assert(r.size() == want.size(), "as many elements as asked for"); for (size_t x = 0; x < want.size(); x++) feq(r[x], want[x], "the elements sent"); }
        else if (m.kind == SHARES) { auto r = net[i]->RecvShares(j, m.k); vp_assert(r.size() == m.k, "as many shares as asked for"); for (size_t x = 0; x < m.k; x++) { vp_assert(r[x].size() == rep.ShareSize(), "whole shares"); for (size_t y = 0; y < r[x].size(); y++) feq(r[x][y], m.s[x][y], "the shares sent"); } }
        else { size_t cut = m.b.size() && (pattern & 2) ? 1 : m.b.size(); auto r = net[i]->RecvBytes(j, cut); if (cut < m.b.size()) { auto r2 = net[i]->RecvBytes(j, m.b.size() - cut); r.insert(r.end(), r2.begin(), r2.end()); } vp_assert(r.size() == m.b.size(), "as many bytes as asked for"); vp_assert_eq(r.data(), m.b.data(), m.b.size(), 0, "the bytes sent"); } } }
    net[i]->Close();
  });
  for (auto *s : K->conn) { vp_assert(s->closed, "connections are closed"); vp_assert(s->in.empty(), "everything was consumed"); }
  vp_noyield(1); vp_stdout_capture(true); size_t at = 0;
  for (unsigned i = 0; i < n; i++) {
    net[i]->PrintCommunicationSummary(); std::string all = vp_stdout(), mine = all.substr(at); at = all.size(); auto tot = summary(mine, i, n);
    for (unsigned j = 0; j < n; j++) { unsigned long se = 0, re = 0; if (j != i) { int c = 0; for (auto *s : K->conn) if (s->party == (int)i && s->peer == (int)j) { se += s->wrote; re += s->took; c++; } vp_assert(c == 1, "one connection per pair"); } else for (auto &m : ms[i][i]) se = re += m.f.size() * F::ByteSize() + m.s.size() * rep.ShareSize() * F::ByteSize() + m.b.size();
      vp_assert(tot[j].sent == se && tot[j].recv == re, "the totals are the bytes transferred"); }
  }
  vp_stdout_capture(false); vp_reach("end");
}
static void bytes() { // the byte level below: single messages and broadcasts
  unsigned n = (unsigned)vp_param("n", 3); size_t len = (size_t)vp_param("len", 5); setup(); vp_noyield(1); std::vector<std::vector<u8>> all(n), one(n * n); for (unsigned i = 0; i < n; i++) { all[i].resize(len); vp_bytes(all[i].data(), len, vp_name("all", i).c_str()); for (unsigned j = 0; j < n; j++) { auto &o = one[i * n + j]; o.resize((i + 2 * j) % 4); vp_bytes(o.data(), o.size(), vp_name("one", i, j).c_str()); } }
  vp_noyield(0);
  run_parties(n, [&](unsigned i) {
    K->party[vp_self()] = (int)i; frn::lib::net::Network::Builder b; auto net = b.Size(n).LocalPeerId((int)i).TransportType(frn::lib::net::Network::TransportType::eTcp).AllPartiesLocal().BasePort(5000).BuildShared(); net->Connect();
    for (unsigned j = 0; j < n; j++) net->SendTo((int)j, one[i * n + j].data(), one[i * n + j].size()); net->Broadcast(all[i].data(), len); std::vector<u8> again(all[i]); net->Broadcast(again.data(), 2); again.assign(len, 0);
    for (unsigned d = 0; d < n; d++) { unsigned j = (i + d) % n; auto want = one[j * n + i]; want.insert(want.end(), all[j].begin(), all[j].end()); want.insert(want.end(), all[j].begin(), all[j].begin() + 2); std::vector<u8> r(want.size() + 1, 0xa5); size_t cut = want.size() / 2; net->RecvFrom((int)j, r.data(), cut); net->RecvFrom((int)j, r.data() + cut, want.size() - cut); vp_assert_eq(r.data(), want.data(), want.size(), 0, "the bytes sent, in order"); vp_assert(r[want.size()] == 0xa5, "and nothing else"); }
    net->Close();
  });
  for (auto *s : K->conn) vp_assert(s->closed && s->in.empty(), "everything was consumed");
  vp_reach("end");
}
// ---- C28
static std::vector<unsigned> permutation(unsigned n) { // the order in which the parties get to run
  std::vector<unsigned> left, r; for (unsigned i = 0; i < n; i++) left.push_back(i); long fixed = vp_param("order", -1); if (fixed >= 0) { for (unsigned i = 0; i < n; i++) r.push_back((i + (unsigned)fixed) % n); return r; }
  while (left.size()) { long k = left.size() > 1 ? vp_choose(0, (long)left.size() - 1, "order") : 0; r.push_back(left[(size_t)k]); left.erase(left.begin() + k); } return r;
}
static void quiet() { for (auto *s : K->conn) { vp_assert(s->closed, "connections are closed"); vp_assert(s->in.empty(), "everything was consumed"); } }
static void start() {
  unsigned n = (unsigned)vp_param("n", 3); setup(); vp_noyield(1); auto order = permutation(n); std::vector<std::vector<int>> ok(n, std::vector<int>(n, 0)); vp_noyield(0);
  run_parties(n, [&](unsigned k) {
    unsigned i = order[k]; K->party[vp_self()] = (int)i; frn::lib::net::Network::Builder b; auto net = b.Size(n).LocalPeerId((int)i).TransportType(frn::lib::net::Network::TransportType::eTcp).AllPartiesLocal().BasePort(5000).Build(); net.Connect();
    for (unsigned j = 0; j < n; j++) { u8 m[2] = {(u8)i, (u8)j}; net.SendTo((int)j, m, 2); }
    for (unsigned j = 0; j < n; j++) { u8 m[2] = {0xa5, 0xa5}; net.RecvFrom((int)j, m, 2); vp_assert(m[0] == j && m[1] == i, "each channel joins the intended pair"); ok[i][j] = 1; }
    net.Close();
  });
  vp_assert(K->conn.size() == n * (n - 1), "one connection per pair"); quiet(); for (auto &r : ok) for (int x : r) vp_assert(x, "everybody is connected to everybody"); vp_reach("end");
}
// every message of the steps so far was read: the next one from each party is the one sent here
static void drained(unsigned i, unsigned n, Net &net, u8 step) { for (unsigned j = 0; j < n; j++) net->SendBytes(j, std::vector<u8>{(u8)i, (u8)j, step}); for (unsigned j = 0; j < n; j++) { auto r = net->RecvBytes(j, 3); vp_assert(r.size() == 3 && r[0] == j && r[1] == i && r[2] == step, "nothing of the earlier steps is left in the channels"); } }
static void protocols() {
  unsigned n = (unsigned)vp_param("n", 4), t = (n - 1) / 3, batch = (unsigned)vp_param("batch", 1), what = (unsigned)vp_param("what", 0); setup(); vp_noyield(1); auto order = permutation(n); Rep rep(n, t); std::vector<std::vector<Shr>> out(n); std::vector<Net> net(n);
  std::vector<std::unique_ptr<frn::ShrManipulator>> man; for (unsigned i = 0; i < n; i++) man.emplace_back(new frn::ShrManipulator(i, t, n));
  auto finish = [&](unsigned i) { drained(i, n, net[i], 99); net[i]->Close(); }; auto begin = [&](unsigned i) { K->party[vp_self()] = (int)i; net[i] = make(i, n); net[i]->Connect(); };
  if (what == 0) { // multiplications and their check
    Keys keys = sym_keys(rep, "key"); std::vector<Sharing> x, y; for (unsigned k = 0; k < batch; k++) { x.push_back(sym_sharing(rep, vp_name("x", k))); y.push_back(sym_sharing(rep, vp_name("y", k))); }
    std::vector<std::unique_ptr<frn::Correlator>> corr; std::vector<std::unique_ptr<frn::CheckData>> cd; for (unsigned i = 0; i < n; i++) { corr.emplace_back(new frn::Correlator(correlator(rep, i, keys))); cd.emplace_back(new frn::CheckData(t)); }
    vp_noyield(0);
    run_parties(n, [&](unsigned k) { unsigned i = order[k]; begin(i); frn::Mult m(net[i], rep, *man[i], *corr[i], *cd[i]); for (unsigned q = 0; q < batch; q++) m.Prepare(x[q].share[i], y[q].share[i]); out[i] = m.Run(); frn::Check c(net[i], rep, *man[i], *cd[i]); c.ComputeRandomCoefficients(); c.PrepareLinearCombinations(); c.PrepareMsgs(); c.ReconstructMsgs(); finish(i); });
    vp_noyield(1); for (unsigned q = 0; q < batch; q++) { std::vector<Shr> z; for (unsigned i = 0; i < n; i++) { vp_assert(out[i].size() == batch, "one product each"); z.push_back(out[i][q]); } feq(check_sharing(rep, z, "the product is shared consistently"), x[q].value * y[q].value, "the product"); }
  } else if (what == 2) { // everything one after the other over one network: inputs, products of inputs, products of products, their check
    Keys keys = sym_keys(rep, "key"); std::vector<PRG> prg; std::vector<std::vector<F>> secret(n); std::vector<std::vector<Shr>> out2(n); for (unsigned i = 0; i < n; i++) { u8 b[PRG::SeedSize()]; vp_bytes(b, sizeof b, vp_name("seed", i).c_str()); prg.emplace_back(b); for (unsigned q = 0; q < batch; q++) secret[i].push_back(fsym(vp_name("secret", i, q))); }
    std::vector<std::unique_ptr<frn::Correlator>> corr; std::vector<std::unique_ptr<frn::CheckData>> cd; for (unsigned i = 0; i < n; i++) { corr.emplace_back(new frn::Correlator(correlator(rep, i, keys))); cd.emplace_back(new frn::CheckData(t)); }
    vp_noyield(0);
    run_parties(n, [&](unsigned k) {
      unsigned i = order[k]; begin(i); frn::InputSetup s(net[i], rep, prg[i]); auto ic = s.Run(); frn::Input in(net[i], *man[i], ic); in.Prepare(secret[i]); for (unsigned j = 0; j < n; j++) if (j != i) in.PrepareToReceive(j, batch); auto o = in.Run(); if (vp_param("marks", 1)) drained(i, n, net[i], 1);
      frn::Mult m(net[i], rep, *man[i], *corr[i], *cd[i]); for (unsigned q = 0; q < batch; q++) m.Prepare(o[0][q], o[n - 1][q]); out[i] = m.Run(); if (vp_param("marks", 1)) drained(i, n, net[i], 2);
      if (vp_param("deep", 1)) { frn::Correlator more = *corr[i]; for (unsigned q = 0; q < batch; q++) more.GenRandomShare(); frn::Mult m2(net[i], rep, *man[i], more, *cd[i]); m2.Prepare(out[i], std::vector<Shr>(batch, o[1][0])); out2[i] = m2.Run(); }
      frn::Check c(net[i], rep, *man[i], *cd[i]); c.ComputeRandomCoefficients(); c.PrepareLinearCombinations(); c.PrepareMsgs(); c.ReconstructMsgs(); finish(i); });
    vp_noyield(1); for (unsigned q = 0; q < batch; q++) { std::vector<Shr> z, z2; for (unsigned i = 0; i < n; i++) { vp_assert(out[i].size() == batch, "one product each"); z.push_back(out[i][q]); if (out2[i].size() == batch) z2.push_back(out2[i][q]); } F p = secret[0][q] * secret[n - 1][q]; feq(check_sharing(rep, z, "the product is shared consistently"), p, "the product of the inputs"); if (vp_param("deep", 1)) { vp_assert(z2.size() == n, "one product each"); feq(check_sharing(rep, z2, "the second product is shared consistently"), p * secret[1][0], "the product of three inputs"); } }
  } else { // input set-up and input
    std::vector<PRG> prg; std::vector<F> secret; for (unsigned i = 0; i < n; i++) { u8 b[PRG::SeedSize()]; vp_bytes(b, sizeof b, vp_name("seed", i).c_str()); prg.emplace_back(b); secret.push_back(fsym(vp_name("secret", i))); } std::vector<std::vector<std::vector<Shr>>> o(n);
    vp_noyield(0);
    run_parties(n, [&](unsigned k) { unsigned i = order[k]; begin(i); frn::InputSetup s(net[i], rep, prg[i]); auto corr = s.Run(); frn::Input in(net[i], *man[i], corr); in.Prepare(secret[i]); for (unsigned j = 0; j < n; j++) if (j != i) in.PrepareToReceive(j); o[i] = in.Run(); finish(i); });
    vp_noyield(1); for (unsigned j = 0; j < n; j++) { std::vector<Shr> z; for (unsigned i = 0; i < n; i++) { vp_assert(o[i].size() == n && o[i][j].size() == 1, "one share of each input"); z.push_back(o[i][j][0]); } feq(check_sharing(rep, z, "the input is shared consistently"), secret[j], "the input"); }
  }
  quiet(); vp_reach("end");
}
extern "C" void vp_main() { switch (vp_param("part", 0)) { case 0: typed(); break; case 1: bytes(); break; case 2: start(); break; case 3: protocols(); break; } }
