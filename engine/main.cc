// symir: symbolic execution of LLVM IR with z3.
//   symir prep OUT.bc IN.bc...            link, mark, internalize, optimise
//   symir run IN.bc OUT.json key=value... explore vp_main
#include <array>
#include <sstream>
#include "engine.hpp"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <fstream>
#include <unistd.h>
#include <sstream>

static int fieldOpOf(const std::string &dem) {
  size_t q = dem.find("frn::lib::math::details::"); // the same operations one level down; the modulus is the last argument
  if (q != std::string::npos && q < 24) {
    std::string n = dem.substr(q + 25); n = n.substr(0, n.find('<'));
    static const char *dn[] = {"addm", "subm", "mulm", "neg", "red"};
    for (int i = 0; i < 5; i++) if (n == dn[i]) return i + 8;
    return -1;
  }
  if (dem.compare(0, 23, "frn::lib::math::Prime<f")) return -1;
  size_t p = dem.find(">::"); if (p == std::string::npos) return -1;
  std::string n = dem.substr(p + 3); n = n.substr(0, n.find('('));
  static const char *nm[] = {"Add", "Subtract", "Multiply", "Negate", "Reduce", "Equal"};
  for (int i = 0; i < 6; i++) if (n == nm[i]) return i;
  return -1;
}
static int prep(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], err, ctx); if (!m) { err.print("symir", errs()); return 2; }
    for (auto &f : *m) if (f.hasAvailableExternallyLinkage()) { f.setLinkage(GlobalValue::LinkOnceODRLinkage); f.setComdat(nullptr); }
    for (auto &g : m->globals()) if (g.hasAvailableExternallyLinkage()) { g.setLinkage(GlobalValue::LinkOnceODRLinkage); g.setComdat(nullptr); }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link error for %s\n", argv[i]); return 2; }
  }
  for (auto &f : *M) {
    if (f.isDeclaration()) continue;
    f.removeFnAttr(Attribute::OptimizeNone);
    std::string n = f.getName().str();
    if (fieldOpOf(demangle(n)) >= 0) { f.removeFnAttr(Attribute::AlwaysInline); f.addFnAttr(Attribute::NoInline); f.setLinkage(GlobalValue::ExternalLinkage); f.setComdat(nullptr); }
  }
  internalizeModule(*M, [](const GlobalValue &g) { if (g.getName() == "vp_main" || g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used") return true; if (auto *f = dyn_cast<Function>(&g)) return fieldOpOf(demangle(f->getName().str())) >= 0; return false; });
  { // drop everything unreachable first
    ModuleAnalysisManager mam; PassBuilder pb; LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager mpm; mpm.addPass(GlobalDCEPass()); mpm.run(*M, mam);
  }
  {
    PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; pto.InlinerThreshold = 60; pto.MergeFunctions = false;
    PassBuilder pb(nullptr, pto); LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    OptimizationLevel lvl = getenv("SYMIR_O0") ? OptimizationLevel::O1 : OptimizationLevel::O2;
    ModulePassManager mpm = pb.buildPerModuleDefaultPipeline(lvl);
    mpm.run(*M, mam);
  }
  std::error_code ec; raw_fd_ostream os(argv[2], ec); if (ec) return 2;
  WriteBitcodeToFile(*M, os); os.close();
  if (getenv("SYMIR_LL")) { raw_fd_ostream o2(std::string(argv[2]) + ".ll", ec); M->print(o2, nullptr); }
  return 0;
}

static int run(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(argv[2], err, ctx); if (!M) { err.print("symir", errs()); return 2; }
  std::string outp = argv[3];
  static Engine E; E.M = M.get(); E.DL = &M->getDataLayout();
  double budget = 600; std::string repo = "/repo/";
  for (int i = 4; i < argc; i++) {
    std::string a = argv[i]; size_t q = a.find('='); if (q == std::string::npos) continue; std::string k = a.substr(0, q), v = a.substr(q + 1);
    if (k == "budget") budget = atof(v.c_str()); else if (k == "maxpaths") E.maxPaths = strtoull(v.c_str(), 0, 0);
    else if (k == "field") { if (v == "0") E.fieldMode = false; else if (v == "127") { FPW = 127; FPBYTES = 16; FP = ((u128)1 << 127) - 1; } }
    else if (k == "tidshift") TIDSHIFT = (unsigned)atoi(v.c_str()); else if (k == "preempt") E.preemptBound = atoi(v.c_str()); else if (k == "delays") E.delays = (u32)atoi(v.c_str()); else if (k == "dedupe") E.dedupe = v != "0";
    else if (k == "qtimeout") E.qTimeout = (unsigned)atoi(v.c_str()) * 1000; else if (k == "brtimeout") E.brTimeout = (unsigned)atoi(v.c_str()) * 1000;
    else if (k == "maxinstrs") E.maxInstrs = strtoull(v.c_str(), 0, 0); else if (k == "conclimit") E.concLimit = atoi(v.c_str());
    else if (k == "samples") E.maxSamples = strtoull(v.c_str(), 0, 0); else if (k == "aesexp") E.aesExp = v != "0"; else if (k == "muluf") E.S.mulUF = v != "0"; else if (k == "races") E.races = v != "0"; else if (k == "repo") E.repoPath = repo = v;
    else E.params[k] = strtoll(v.c_str(), 0, 0);
  }
  g_dead = Obj::make(0, K_HEAP, false); g_dead->dead = true; g_dead->rc = 1000;
  E.deadline = now_s() + budget; E.initBuiltins();
  for (auto &f : *M) {
    auto fi = std::make_unique<FnInfo>(); fi->f = &f; fi->name = f.getName().str(); fi->dem = demangle(fi->name);
    std::string base = fi->name; size_t dot;
    fi->builtin = E.findBuiltin(base);
    if (fi->builtin >= 0 && !f.isDeclaration()) { fi->builtin = E.HN[fi->builtin] == base ? fi->builtin : -1; (void)dot; }
    int fo = fieldOpOf(fi->dem); if (fo >= 0) { bool is127 = fi->dem.find(fo >= 8 ? "__int128" : "Mp127") != std::string::npos; if (is127 == (FPW == 127)) fi->fieldOp = fo; }
    if (auto *sp = f.getSubprogram()) if (sp->getFile()) { std::string p = sp->getFilename().str(); if (p.size() && p[0] != '/') p = sp->getDirectory().str() + "/" + p; fi->inRepo = p.compare(0, repo.size(), repo) == 0; }
    E.fnMap[&f] = fi.get(); E.fns.push_back(std::move(fi));
  }
  State *s0 = new State(); s0->mem.emplace_back(); s0->th.emplace_back(); s0->ms = E.newMS(Model());
  s0->mem[0].add((g_dead->rc++, g_dead)); // index 0: null
  s0->mem[0].add((g_dead->rc++, g_dead)); // index 1: reserved (catch-all selector)
  for (auto &f : *M) { u64 a = E.newObj(*s0, 1, K_FUNC, false); E.obj(*s0, a)->fn = E.fnMap[&f]; E.gaddr[&f] = a; }
  std::vector<GlobalVariable *> gvs;
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) { E.gaddr[&g] = 0; continue; }
    u32 sz = g.isDeclaration() ? 256 : (u32)E.DL->getTypeAllocSize(g.getValueType());
    u64 a = E.newObj(*s0, sz, g.isConstant() && !g.isDeclaration() ? K_CONST : K_GLOBAL, false); E.obj(*s0, a)->gv = &g; E.gaddr[&g] = a; gvs.push_back(&g);
  }
  for (auto *g : gvs) if (g->hasInitializer()) E.initBytes(E.obj(*s0, E.gaddr[g])->b, g->getInitializer());
  E.errnoBase = E.newObj(*s0, 256, K_GLOBAL, false);
  // constructors, then the harness, as one straight sequence: ctors run in a state of their own
  std::vector<std::pair<u32, Function *>> ctors;
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(u32)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  auto *mainF = M->getFunction("vp_main"); if (!mainF) { fprintf(stderr, "no vp_main\n"); return 2; }
  bool ctorFail = false;
  for (auto &c : ctors) {
    u64 before = E.paths, vb = E.viols.size(); E.pushFrame(*s0, s0->th[0], E.fnMap[c.second], {}, -1, nullptr);
    E.runState(s0); if (E.paths != before + 1 || E.viols.size() != vb) { ctorFail = true; fprintf(stderr, "static constructor %s failed\n", c.second->getName().str().c_str()); }
    s0->th[0].fr.clear(); s0->th[0].done = false; s0->th[0].regs.clear();
  }
  E.paths = 0; E.pathSamples.clear(); E.totInstrs = 0; s0->instrs = 0; s0->t0 = 0;
  E.pushFrame(*s0, s0->th[0], E.fnMap[mainF], {}, -1, nullptr);
  E.work.push_back(s0);
  while (!E.work.empty()) {
    if (!E.viols.empty() && now_s() - E.t0 > E.viols[0].t + 30) { bool ok = false; for (auto &v : E.viols) ok |= v.modelOk; if (ok) { E.incomplete++; E.note("stopped some time after a violation was found"); break; } }
    if (now_s() > E.deadline) { E.incomplete++; E.note("time budget exhausted before all paths were explored"); break; }
    if (E.paths + E.pathsErr >= E.maxPaths) { E.incomplete++; E.note("path limit reached"); break; }
    if ((int)E.viols.size() >= E.maxViol) { E.note("stopped after the first violations"); break; }
    State *s = E.work.back(); E.work.pop_back(); s->t0 = s->instrs;
    E.runState(s); delete s;
  }
  // functions of the repository that were executed (inlined ones included)
  std::set<std::string> fset;
  for (auto &fi : E.fns) {
    if (!fi->hits || !fi->f) continue;
    if (fi->inRepo) fset.insert(fi->dem);
    for (auto &bb : *fi->f) for (auto &in : bb) { const DILocation *dl = in.getDebugLoc(); while (dl) { auto *sp = dl->getScope()->getSubprogram(); if (sp && sp->getFile()) { std::string p = sp->getFilename().str(); if (p.size() && p[0] != '/') p = sp->getDirectory().str() + "/" + p; if (p.compare(0, repo.size(), repo) == 0) fset.insert(demangle(sp->getLinkageName().str().empty() ? sp->getName().str() : sp->getLinkageName().str())); } dl = dl->getInlinedAt(); } }
  }
  std::ofstream o(outp); auto q = [](const std::string &s) { return "\"" + jesc(s) + "\""; };
  o << "{\"violations\":[";
  for (size_t i = 0; i < E.viols.size(); i++) { auto &v = E.viols[i]; if (i) o << ","; o << "{\"kind\":" << q(v.kind) << ",\"msg\":" << q(v.msg) << ",\"where\":" << q(v.where) << ",\"modelOk\":" << (v.modelOk ? "true" : "false") << ",\"t\":" << v.t;
    auto mm = [&](const char *nm, auto &m) { o << ",\"" << nm << "\":["; for (size_t k = 0; k < m.size(); k++) { if (k) o << ","; o << "[" << q(m[k].first) << "," << q(m[k].second) << "]"; } o << "]"; };
    mm("model", v.model); if (!v.model2.empty()) mm("model2", v.model2);
    o << ",\"sched\":["; for (size_t k = 0; k < v.sched.size(); k++) o << (k ? "," : "") << v.sched[k]; o << "],\"lam\":["; for (size_t k = 0; k < v.lam.size(); k++) o << (k ? "," : "") << q(v.lam[k]); o << "]"; if (v.expect.size()) o << ",\"weak\":" << v.expect; o << "}"; }
  o << "],\"paths\":" << E.paths << ",\"paths_assumed_away\":" << E.pathsAssumed << ",\"paths_error\":" << E.pathsErr << ",\"instructions\":" << E.totInstrs << ",\"forks\":" << E.forks << ",\"deduped\":" << E.dedup << ",\"preempt_cut\":" << E.preemptCut;
  o << ",\"asserts\":" << E.asserts << ",\"assert_trivial\":" << E.assertTrivial << ",\"assert_solver\":" << E.assertSolver << ",\"assert_unknown\":" << E.assertUnknown << ",\"branch_unknown\":" << E.branchUnknown << ",\"incomplete\":" << E.incomplete << ",\"pending\":" << E.work.size();
  o << ",\"queries\":" << E.S.st.queries << ",\"unsat\":" << E.S.st.unsat << ",\"sat\":" << E.S.st.sat << ",\"unknown\":" << E.S.st.unknown << ",\"sweep_lemmas\":" << E.S.st.sweepLemmas << ",\"solver_time\":" << E.S.st.time << ",\"solver_max_ms\":" << E.S.st.maxms << ",\"terms\":" << g_byid.size() << ",\"wall\":" << now_s() - E.t0;
  o << ",\"assert_stats\":{"; { bool f = true; for (auto &a : E.assertStats) { o << (f ? "" : ",") << q(a.first) << ":[" << a.second.first << "," << a.second.second << "]"; f = false; } } o << "}";
  o << ",\"reach\":{"; { bool f = true; for (auto &a : E.reach) { o << (f ? "" : ",") << q(a.first) << ":" << a.second; f = false; } } o << "}";
  o << ",\"functions\":["; { bool f = true; for (auto &a : fset) { o << (f ? "" : ",") << q(a); f = false; } } o << "]";
  o << ",\"notes\":["; { bool f = true; for (auto &a : E.notes) { o << (f ? "" : ",") << q(a); f = false; } } o << "]";
  o << ",\"unsupported\":["; { bool f = true; for (auto &a : E.unsup) { o << (f ? "" : ",") << q(a); f = false; } } o << "]";
  o << ",\"samples\":["; { bool f = true; for (auto &a : E.pathSamples) { o << (f ? "" : ",") << a; f = false; } } o << "]";
  o << ",\"ctor_failed\":" << (ctorFail ? "true" : "false") << "}\n"; o.close();
  fflush(stdout); _exit(0);
}
int main(int argc, char **argv) {
  if (argc >= 4 && !strcmp(argv[1], "prep")) return prep(argc, argv);
  if (argc >= 4 && !strcmp(argv[1], "run")) return run(argc, argv);
  fprintf(stderr, "usage: symir prep OUT IN... | symir run IN OUT.json key=value...\n"); return 2;
}
