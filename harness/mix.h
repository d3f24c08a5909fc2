// Misbehaving peers on every input surface, and probes that a worker still serves.
#pragma once
#include "tun.h"

struct Mix {
    int mode = 2; bool calm = false;                 // calm: only registered hosts and names, answered properly
    uint32_t ttl_max = 600; std::map<std::string, uint32_t> names;   // names the resolver answers properly
    bool far_after_header = false;                   // client role: tunnel servers misbehave only after the header
    std::map<Bytes, StreamP> met;                    // client role: sessions by the first 8 local bytes
    std::set<Bytes> expected;
};
extern Mix MX;
void mix_install(int mode);                          // destination and resolver handlers
Bytes mutate(Bytes b);
Task<> misbehave(StreamP s, std::shared_ptr<std::string> how);
Task<> hostile(std::shared_ptr<std::string> how);    // one misbehaving connection, over when its own end is closed
Task<std::string> probe();                           // a well-behaved use of every surface; "" or what was not served
Task<PairP> open_named(int port, Bytes key, std::string name, uint32_t ip, int dport);
Task<PairP> open_local(int id);                      // client role, matched with its far end by content
std::vector<std::pair<int, bool>> mix_ports();       // port, TLS
