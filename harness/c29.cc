// The experiment programs' parameters (C29). Built with -DVP_EXP="frn/exp_X.cc" -DVP_LIMIT=number.
#include "vp.h"
#include <errno.h>
#include <stdlib.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <iostream>
#include "frn.h"
static char a0[] = "exp", a1[24] = "1", a2[24] = "2", a3[24] = "3", a4[24] = "4"; static char *args[] = {a0, a1, a2, a3, a4, nullptr};
static unsigned long val[5]; static int given = 0;
static bool supported() { return given >= 3 && val[1] > 3 && val[1] < 17 && val[2] < val[1] && val[3] < VP_LIMIT; }
static void refused() { vp_assert(!supported(), "supported parameters are accepted"); vp_reach("refused"); vp_reach("end"); vp_end(); }
static void accepted(const char *what) { vp_assert(supported(), what); vp_reach("accepted"); vp_reach("end"); vp_end(); }
// numbers on the command line are whatever the checker says
static unsigned long num(const char *s, char **e) { int k = s[0] - '0'; if (k < 1 || k > 4 || s[1]) vp_fail("an unexpected number"); if (e) *e = (char *)s + 1; return val[k]; }
extern "C" {
unsigned long strtoul(const char *s, char **e, int) { return num(s, e); }
unsigned long long strtoull(const char *s, char **e, int) { return num(s, e); }
#ifdef VP_SYM
long strtol(const char *s, char **e, int) { return (long)num(s, e); }
long long strtoll(const char *s, char **e, int) { return (long long)num(s, e); }
#endif
int socket(int, int, int) { accepted("no network activity with unsupported parameters"); return -1; }
int bind(int, const struct sockaddr *, socklen_t) { accepted("no network activity with unsupported parameters"); return -1; }
int connect(int, const struct sockaddr *, socklen_t) { accepted("no network activity with unsupported parameters"); return -1; }
}
namespace frn {
// what follows is covered by the other properties; nothing else may be built from parameters that are not supported
inline lib::secret_sharing::Replicator<Field> VpReplicator(int n) { if (supported()) accepted("accepted"); return CreateReplicator(n < 4 ? n : 4); }
template <class... A> inline Correlator VpCorrelator(A &&...) { accepted("no correlator with unsupported parameters"); return Correlator(0, CreateReplicator(4)); }
template <class... A> inline ShrManipulator VpManipulator(A &&...) { accepted("no computation with unsupported parameters"); return ShrManipulator(0, 1, 4); }
namespace lib::primitives { struct VpPRG : PRG { VpPRG() { accepted("no computation with unsupported parameters"); } }; }
struct VpTcp { template <class... A> static std::shared_ptr<TcpNetwork> CreateWithLocalParties(unsigned id, std::size_t n, A...) { vp_assert(supported(), "no network with unsupported parameters"); vp_assert(n == val[1] && id == val[2], "with the parameters given"); accepted("accepted"); return nullptr; } };
}
#define CreateReplicator VpReplicator
#define TcpNetwork VpTcp
#define Correlator VpCorrelator
#define ShrManipulator VpManipulator
#define PRG VpPRG
#define main vp_exp_main
#include VP_EXP
#undef main
extern "C" void vp_main() {
  given = (int)vp_choose(0, 4, "given"); for (int i = 1; i <= 4; i++) val[i] = vp_sym(64, vp_name("arg", i).c_str());
  args[given + 1] = nullptr; vp_abort_ok(refused); vp_stdout_capture(true);
  try { vp_exp_main(given + 1, args); } catch (...) {}
  vp_stdout_capture(false); refused();
}
