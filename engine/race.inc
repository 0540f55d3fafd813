// ---- data races: two accesses of the code under test to the same bytes, at least one a write, in
// different threads, with no chain of lock, thread start or join between them (included inside Engine)
bool races = false; std::string repoPath = "/repo/";
enum { RC_UNK, RC_STD, RC_REPO, RC_OURS, RC_ATOMIC };
std::unordered_map<const Inst *, u8> rcCache; std::unordered_map<const DIFile *, u8> rcFile;
u8 fileClass(const DIFile *f) {
  auto it = rcFile.find(f); if (it != rcFile.end()) return it->second;
  std::string p = f->getFilename().str(); if (p.size() && p[0] != '/') p = f->getDirectory().str() + "/" + p;
  u8 c = p.compare(0, repoPath.size(), repoPath) == 0 ? RC_REPO : p.find("atomicity.h") != std::string::npos || p.find("shared_ptr") != std::string::npos || p.find("atomic_base.h") != std::string::npos || p.find("/atomic") != std::string::npos ? RC_ATOMIC : p.compare(0, 5, "/usr/") == 0 ? RC_STD : RC_OURS;
  return rcFile[f] = c;
}
u8 instClass(const Inst *I, const FnInfo *fi) {
  auto it = rcCache.find(I); if (it != rcCache.end()) return it->second;
  u8 c = RC_STD; const DILocation *dl = I->src ? I->src->getDebugLoc().get() : nullptr;
  if (I->src) { if (auto *l = dyn_cast<LoadInst>(I->src)) { if (l->isAtomic()) c = RC_ATOMIC; } else if (auto *st = dyn_cast<StoreInst>(I->src)) { if (st->isAtomic()) c = RC_ATOMIC; } }
  if (!dl) { if (c == RC_STD) { auto *sp = fi->f->getSubprogram(); c = sp && sp->getFile() ? fileClass(sp->getFile()) : (u8)RC_STD; } }
  while (dl && c == RC_STD) { auto *sp = dl->getScope()->getSubprogram(); if (sp && sp->getFile()) c = fileClass(sp->getFile()); dl = dl->getInlinedAt(); }
  return rcCache[I] = c;
}
u8 accessClass(State &s) {
  auto &t = s.th[s.cur];
  for (size_t i = t.fr.size(); i-- > 0;) { auto &f = t.fr[i]; u8 c = instClass(&f.fn->bb[f.bb].in[f.ip], f.fn); if (c != RC_STD) return c; }
  return RC_STD;
}
RaceSt &raceW(State &s) { if (s.race.use_count() > 1) s.race = std::make_shared<RaceSt>(*s.race); return *s.race; }
static void vcJoin(std::vector<u32> &a, const std::vector<u32> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
void raceThread(State &s, int child) { // the child starts after what the parent did
  if (!races) return; if (!s.race) s.race = std::make_shared<RaceSt>(); RaceSt &r = raceW(s);
  if (r.C.size() < s.th.size()) r.C.resize(s.th.size());
  for (size_t i = 0; i < r.C.size(); i++) { if (r.C[i].size() <= i) r.C[i].resize(i + 1, 0); if (!r.C[i][i]) r.C[i][i] = 1; }
  vcJoin(r.C[(size_t)child], r.C[(size_t)s.cur]); r.C[(size_t)s.cur][(size_t)s.cur]++;
}
void raceAcq(State &s, u64 o) { if (!races || !s.race) return; auto it = s.race->L.find(o); if (it == s.race->L.end()) return; RaceSt &r = raceW(s); vcJoin(r.C[(size_t)s.cur], r.L[o]); }
void raceRel(State &s, u64 o) { if (!races || !s.race) return; RaceSt &r = raceW(s); vcJoin(r.L[o], r.C[(size_t)s.cur]); r.C[(size_t)s.cur][(size_t)s.cur]++; }
std::string raceAt(const Inst *I) { std::string r; const DILocation *dl = I && I->src ? I->src->getDebugLoc().get() : nullptr; for (; dl; dl = dl->getInlinedAt()) { auto *sp = dl->getScope()->getSubprogram(); if (!sp || !sp->getFile()) continue; if (fileClass(sp->getFile()) == RC_REPO) return demangle(sp->getLinkageName().str()) + " line " + std::to_string(dl->getLine()); if (r.empty()) r = demangle(sp->getLinkageName().str()); } return r; }
bool raceAccess(State &s, u64 addr, u64 n, bool wr, std::string &msg) {
  if (!races || !s.race || !n) return true; u8 c = accessClass(s); if (c != RC_REPO) return true;
  RaceSt &r = raceW(s); u32 me = (u32)s.cur; auto &C = r.C[me]; auto &fr = s.th[s.cur].fr.back(); const Inst *at = &fr.fn->bb[fr.bb].in[fr.ip];
  for (u64 a = addr & ~7ull; a < addr + n; a += 8) {
    u8 mask = 0; for (unsigned k = 0; k < 8; k++) if (a + k >= addr && a + k < addr + n) mask |= (u8)(1u << k);
    auto &v = r.acc[a]; RaceE *mine = nullptr;
    for (auto &e : v) {
      if (e.tid == me) { if (e.wr == wr) mine = &e; continue; }
      if (!(e.mask & mask) || !(wr || e.wr)) continue;
      if (e.clk > (e.tid < C.size() ? C[e.tid] : 0)) { msg = std::string(wr ? "write" : "read") + " in " + raceAt(at) + (raceAt(at).empty() ? where(s) : "") + ", unordered with the " + (e.wr ? "write" : "read") + " of another thread in " + raceAt(e.at); return false; }
    }
    if (mine) { mine->clk = C[me]; mine->mask = mask; mine->at = at; } else v.push_back({me, C[me], mask, wr, at});
  }
  return true;
}
