// Peers of the program: raw and TLS streams, tunnel/SOCKS/HTTP clients, DNS.
#pragma once
#include "sim.h"
#include <openssl/ssl.h>

struct Stream {
    ConnP c; bool eof = false, err = false, timedout = false; size_t win = 1 << 22;
    size_t total_in = 0, total_out = 0;
    explicit Stream(ConnP c_) : c(c_) {}
    virtual ~Stream() {}
    virtual Task<bool> write(Bytes b);                                  // false: the other side is gone
    virtual Task<Bytes> read(size_t max, uint64_t ms = ~0ULL);          // "" on end, error or time-out
    virtual void close();                                               // orderly
    virtual void reset() { c->rst(); }
    virtual void drain() {}                                             // take what has arrived off the connection
    Task<> nap(uint64_t ms);                                            // sleep, receiving meanwhile
    virtual size_t pending() { return c->readable(); }                  // might give data now
    Task<Bytes> read_exact(size_t n, uint64_t ms = ~0ULL);              // shorter on end
    Task<Bytes> read_all(size_t max = 1 << 26);                         // until the end
};
typedef std::shared_ptr<Stream> StreamP;

struct TlsStream : Stream {
    SSL *ssl = nullptr; BIO *in, *out; bool hs = false, clean = false; int asked = 0, answered = 0; // key updates asked for, key updates seen
    TlsStream(ConnP c_, SSL_CTX *ctx, bool server);
    ~TlsStream();
    Task<bool> handshake(uint64_t ms = ~0ULL);
    Task<bool> write(Bytes b) override;
    Task<Bytes> read(size_t max, uint64_t ms = ~0ULL) override;
    void close() override;
    void drain() override { if (c->readable()) feed(); }
    size_t pending() override;
    void flush(); void feed(size_t max = 1 << 20);
};
SSL_CTX *tls_client_ctx();  // TLS 1.2..1.3, any certificate
SSL_CTX *tls_server_ctx();
void peers_init();          // contexts, before the program is started
extern const char *TEST_CERT, *TEST_KEY; void use_rsa();

// --- tunnel protocol
Bytes auth_header(const Bytes &key, uint32_t magic = 0xa001beef);
Bytes socks_greeting(const Bytes &methods = Bytes(1, 0));
Bytes socks_connect4(uint32_t ip, uint16_t port, int cmd = 1, int ver = 5);
Bytes socks_connect_name(const Bytes &name, uint16_t port);

// --- configuration of the program
struct Conf {
    int mode = 0, serv_port = 0, local_port = 0, local_serv_port = 0; std::vector<int> http, https; std::vector<std::string> keys;
    std::string gw = "9.9.9.9", local_ip = "7.7.7.7", local_auth = "key"; std::string home, index = "index.html"; int loglevel = 0;
    std::string json() const;   // also writes certificate and key file
};
std::string jq(const std::string &s);

// --- HTTP client model
struct HttpResp { int status = 0; std::string reason; std::vector<std::pair<std::string, std::string>> hdr; Bytes body; Bytes raw_head; std::string bad;
    const std::string *get(const std::string &k) const; int count(const std::string &k) const; };
// Parses one response from the stream (leftover bytes stay in buf). bad != "" on malformed/short.
Task<HttpResp> read_response(StreamP s, std::shared_ptr<Bytes> buf, uint64_t ms = ~0ULL);
std::string http_head_problem(const HttpResp &r);   // "" if the head is well formed
std::string http_date(uint64_t ms);

// --- DNS
struct DnsQ { bool ok = false; uint16_t id = 0; std::string name; int qtype = 0, qclass = 0; bool rd = false; std::string why; Bytes question; };
DnsQ dns_parse_query(const Bytes &b);
Bytes dns_name(const std::string &n);
Bytes be16(unsigned v); Bytes be32(uint32_t v);
Bytes dns_header(uint16_t id, unsigned flags, int qd, int an, int ns, int ar);
Bytes dns_rr(const Bytes &name, int type, int cls, uint32_t ttl, const Bytes &rdata);
Bytes dns_a_reply(const DnsQ &q, uint32_t ip, uint32_t ttl);
void dns_send(SockP s, const Bytes &reply);  // datagram from the resolver to the program
std::string ipstr(uint32_t ip);
inline uint32_t dst_ip(SockP s) { return ntohl(s->dst.sin_addr.s_addr); }
inline int dst_port(SockP s) { return ntohs(s->dst.sin_port); }

// --- resources
struct Usage { int socks, files; long pool, ssl, heap; };
Usage usage_now();
std::string usage_diff(const Usage &base, const Usage &now);
