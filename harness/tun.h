// Tunnel sessions: near end (SOCKS client or local client) and far end (target
// or tunnel server), plus the table of hosts the program may dial.
#pragma once
#include "web.h"

struct Host { ConnectPlan plan; std::function<void(SockP)> up; int dials = 0; };
extern std::map<uint64_t, Host> hosts;          // by address << 16 | port
inline uint64_t hkey(uint32_t ip, int port) { return (uint64_t)ip << 16 | (unsigned)port; }
void hosts_install();                           // any other destination is a violation

struct Pair { StreamP a, b; Bytes head; std::string err; };   // a: near, b: far; head: bytes before the session (client role: header)
typedef std::shared_ptr<Pair> PairP;
const int TUN_PORT = 1443, LOCAL_PORT = 1080; const uint32_t TUN_IP = 0x07070707; const int TUN_SERV_PORT = 443;
Conf tun_conf(int mode, const std::vector<std::string> &keys = {"key"});
void far_arrived(SockP s);                       // for accept_far, when another handler takes established connections
Task<StreamP> accept_far(uint64_t key, bool tls);                    // next connection the program makes there
// Established session; role 1: client, 2: server on port, 3: shared port.
Task<PairP> open_pair(int role, int port = TUN_PORT, Bytes key = "key", uint32_t ip = 0x05060708, int dport = 80);

// Exact relay of generated streams in both directions; "" or what went wrong.
struct RelayOpt { size_t max_total = 200000; bool small = false; };
Task<std::string> relay(PairP p, int role, RelayOpt o, std::string *brief);
Bytes stream_bytes(uint64_t id, size_t from, size_t n);
// Host names and a resolver answering from a table.
std::string gen_name();                          // valid: labels 1..63, total 1..253
std::string gen_bad_name();                      // 1..255 bytes, not a valid name
