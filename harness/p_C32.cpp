// A worker that has nothing to do sleeps: the sessions of C08 (active, slow and stalled at
// any point), with every wake-up of the program counted.
#define prop_rule rule_C08
#define prop_cases_quick quick_C08
#define prop_cases_thorough thorough_C08
#define prop_batch batch_C08
#include "p_C08.cpp"
#undef prop_rule
#undef prop_cases_quick
#undef prop_cases_thorough
#undef prop_batch
const char *prop_rule = "a case is 1..4 sessions as in C08: web over plain and TLS ports, tunnels to addresses and names, local clients in the client role, each active with drawn gaps or stalled at a drawn point of handshake, header, negotiation, lookup, connect, request, response or relay, in either direction; between two things that happen outside the program (bytes, room, ends, connects, time) it may be woken at most 300 times without making a call, 30000 times in all, and ask for events without waiting at most 100 times; non-trivial when a session stalls or a gap is longer than half of the limit";
long prop_cases_quick = 6000, prop_cases_thorough = 100000; int prop_batch = 60;
static bool judged = sim_judge_idle = true;
