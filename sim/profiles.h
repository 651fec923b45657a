// Workloads: what is done to the system, when, and what is checked at the end.
#pragma once
#include "world.h"

namespace sim {

struct Gen { int kind; double w; };
std::vector<Op> genOps(std::vector<Gen> mix, int n, Time start, Time end, bool swarm = true);

enum OpKind {
    O_SERVER = 1, O_SERVER_DUP, O_SERVER_END, O_SERVER_RECONN, O_CLIENT, O_CLIENT_DUP, O_CLIENT_CROSS, O_CLIENT_NOSRV, O_CLIENT_END, O_CLIENT_RECONN,
    O_UP, O_DOWN, O_BURST, O_DISC, O_DISC_NONE, O_PAUSE, O_RESUME, O_BLOCK, O_BLOCK_PROXY, O_STALL, O_BADFRAME, O_RST, O_REREG, O_SRV_RPC,
    O_RPC, O_IDLE, O_CHAOS, O_MONITOR, O_REFRESH, O_REFRESH_MANY, O_MON_END, O_CLOCK, O_FDLIMIT, O_FDFREE, O_STOPPING,
    O_CHURN, O_MON_BAD, O_ENG_STOP, O_ENG_START, O_ENG_RESTART, O_ENG_FLIP, O_ENG_CRASH, O_ENG_DESTROY, O_GATE, O_SIGNAL, O_MC_START, O_MC_REFRESH, O_MC_CYCLE, O_MC_RESTART, O_FLOOD, O_LIB_FIRST = 100, O_FAKE_FIRST = 200
};

const char *opName(int k);
bool execCommon(const Op &op);     // false: not one of the common ones
void addInitial(std::vector<Op> &ops, int servers, int clients, Time spread);
void basicSetup(double sslP);
bool probesDone();                 // used as finalReady
void sendRandom(uint64_t r, int dir);

std::vector<ServerSide *> liveServers();
std::vector<Tunnel *> upTunnels();
std::vector<Tunnel *> downTunnels();
size_t sizeOf(uint64_t r);
RawServer *newServer(const std::string &uuid, uint64_t r);
RawClient *newClient(const std::string &su, const std::string &cu, uint64_t r);
std::string anyServerUuid(uint64_t r);
Peer *alivePeer(uint64_t r);
void sendTo(Tunnel *t, int dir, size_t n, uint64_t how);
void go(std::vector<Op> ops, Time end);

bool execEngine(const Op &op);     // engineprofiles.cpp
void setupLib(const std::string &profile);    // libactors.cpp
void setupFakeProxy();             // fakeproxy.cpp
void setupConfig();                // configprofile.cpp
void setupMonTool();               // monactor.cpp
void setupEngine(const std::string &profile); // engineprofiles.cpp

} // namespace sim
