// Model of the web server: a home directory, requests, expected responses.
#pragma once
#include "peers.h"

struct Req {
    std::string method = "GET", target = "/", path = "/"; std::vector<std::pair<std::string, std::string>> hdr; Bytes body; bool keep = false, has_len = false; std::string sep = ": ";
    Bytes head() const; Bytes bytes() const { return head() + body; } std::string brief() const;
};
struct Expect { enum K { FILE_, DATE, ECHO, ERROR_, ERROR_OR_CLOSE } k = ERROR_; Bytes body; std::string type; };

void site_build();                              // creates the home directory (before the program starts)
std::string site_home();
const std::vector<std::string> &site_paths();   // request paths of existing files
Bytes site_content(const std::string &name, size_t n);
void site_add(const std::string &path, const Bytes &content);
Expect expect_for(const Req &r);
std::string mime_of(const std::string &path);
std::string gen_path(int &kind);                // kind: label of what was drawn
Req gen_req(bool keep, int maxbody = 16000, bool plain_target = false);
// "" when the response is what the model expects
std::string judge(const Req &r, const Expect &e, const HttpResp &p);
// One exchange after the request was written: reads and judges the response.
Task<std::string> answer(StreamP s, std::shared_ptr<Bytes> buf, Req r);
Task<StreamP> web_connect(int port, bool tls);  // null when the handshake fails
