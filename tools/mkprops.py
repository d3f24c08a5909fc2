#!/usr/bin/env python3
"""Source of properties.jsonl: edit here, run to regenerate."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Tunnel sessions relay both byte streams exactly",
 "Once a tunnel session is established (on the client side or the server side), every byte one endpoint sends reaches the other endpoint exactly once, in order and unmodified, for any sizes, chunking, flow-control stalls and interleaving of the two directions. When an endpoint closes, everything it sent before closing is delivered to the other endpoint before that one sees the close. While both endpoints keep reading, no received byte stays undelivered waiting for more traffic or a timer.",
 ["schedules", "inputs"], "all interleavings of partial reads, partial writes, write stalls and closes on the two sockets of a session, all payload sizes including several times the relay buffer, both roles, TLS on either side",
 "The unit tests never open a socket; a scripted end-to-end test sees one kernel schedule, never a chosen sequence of short writes, stalls and edge-triggered events in both directions at once.",
 ["src/app/tls_tunnel_s.c", "src/app/tls_tunnel_c.c", "src/common/ssl.c", "src/common/event.c", "src/common/net_send.c"],
 [("paired forward/reverse receive and send callbacks over two buffers", "src/app/tls_tunnel_s.c tls_tunnel_traffic_*"), ("event interest and callback caching around SSL want-read/want-write", "src/common/ssl.c ssl_read/ssl_write")],
 [("per-direction relay buffer", "bytes received from one side, not yet accepted by the other", "con_t.meta of each side of a session"), ("receive-error flags", "endpoint closed, flush then close", "tls_tunnel_session_t.frecv_err_down/up")],
 ["bytes read by the SOCKS client and by the target, and when each sees the close"])

prop("C02", "Tunnel service is admitted exactly for configured keys",
 "On a tunnel port a connection proceeds past authentication exactly when the first 36 bytes inside TLS carry the protocol magic and a 16-byte key field that contains one of the configured keys; every other connection is closed without a reply byte, a DNS query or an outbound connection. The decision depends only on those bytes and on the configured key list: not on fragmentation, and not on keys presented by earlier or concurrent connections.",
 ["inputs", "histories", "configurations"], "all key lists (overlapping, nested, non-ASCII, any size the key file allows, any JSON notation), all presented headers (exact, padded, prefixes, suffixes, one byte off, wrong magic, truncated), all histories of earlier presentations on the same worker",
 "No test touches authentication; admission depends on the matcher's state left by previous connections, so single-connection tests cannot see cross-connection leaks, and key sets that break the matcher are rare.",
 ["src/app/tls_tunnel_s.c", "src/common/aho_corasick.c"],
 [("magic and key check before any SOCKS processing", "src/app/tls_tunnel_s.c tls_tunnel_s_auth_chk"), ("multi-key matcher built from the key file", "src/common/aho_corasick.c")],
 [("matcher cursor", "position in the key automaton; must not survive a connection", "ezac_ctx_t.cur")],
 ["replies, closes, DNS queries and connects seen after the header"])

prop("C03", "SOCKS5 CONNECT dials exactly the request and reports truthfully",
 "For every well-formed greeting and CONNECT request, however fragmented, the server answers 05 00, opens exactly one TCP connection to exactly the requested IPv4 address and port (or the requested name's address and that port), and sends the 10-byte success reply only after that connection is established. Requests with an empty method list, another version, another command, an empty name or an unsupported address type, and requests whose connection fails or times out, end with the client disconnected, without a success reply and, if unsupported, without any outbound connection.",
 ["inputs", "schedules", "fault_sequences"], "all greetings (1..255 methods), all IPv4/port values, names of 1..255 bytes, all commands/versions/types, all fragmentations, connect outcomes (accept, refuse, unreachable, timeout) and client aborts at any point",
 "The parser keeps its state across reads; the tests have no SOCKS traffic, and boundary lengths, fragmentations and connect outcomes multiply far beyond hand-written cases.",
 ["src/app/socks5.c", "src/app/socks5.h", "src/common/net.c"],
 [("byte-wise state machines for the two phases", "src/app/socks5.c s5_p1_req/s5_p2_req"), ("connect result check before the success reply", "src/app/socks5.c s5_cup_connect_chk")],
 [("parser state and counters", "position inside greeting/request", "s5_t.s5_state, methods_cnt, dst_addr_cnt")],
 ["reply bytes on the client connection; address and port given to connect"])

prop("C04", "Host names resolve to an address from the resolver's answer",
 "A CONNECT by host name that is not cached sends one well-formed recursive A query for exactly that name to the configured resolver, and dials the first A record of the answer section of the reply, whatever CNAMEs, other record types, authority/additional records and name compressions surround it. Replies that carry no A record in their answer section, are truncated or malformed, and missing replies (5 s) disconnect the client and never dial an address; datagrams that are not the resolver's reply to this query (other senders, other query, empty) neither decide nor fail nor prolong the lookup.",
 ["inputs", "fault_sequences"], "all valid host names, all answer layouts built from a record grammar (chains, mixed types and classes of name encoding, extra sections, counts), all truncations and single-field corruptions, lost replies and send failures, datagrams of others and late replies to other queries at any moment",
 "The only DNS test checks one host name's encoding; the reply parser has no test at all and its input space is structured and unbounded.",
 ["src/dns/dns.c", "src/dns/dns.h", "src/app/socks5.c"],
 [("query builder", "src/dns/dns.c dns_request_packet/dns_request_host2qname"), ("answer walker", "src/dns/dns.c dns_response_analyze"), ("timeout", "src/dns/dns.c dns_cexp")],
 (), ["datagrams sent to the resolver", "address given to connect"])

prop("C05", "Cached DNS answers are used only within their time to live",
 "After a name has been resolved, later requests for the same name (of up to 256 remembered) reuse the address without a new query while the answer's TTL (capped at three hours) has not elapsed, and never after it has elapsed: then a new query is sent and its answer is used. Answers with TTL zero are never reused, and an address learned for one name is never used for another.",
 ["histories", "inputs"], "all histories of requests for up to 250 names at arbitrary times with answers of arbitrary TTL (0 to 2^32-1) and changing addresses",
 "Needs a controllable clock over hours and histories of lookups; no test covers the cache.",
 ["src/dns/dns.c", "src/common/util/ezhash.c", "src/common/timer.c"],
 [("expiry stamp on insert", "src/dns/dns.c dns_rec_add"), ("lookup", "src/dns/dns.c dns_rec_find"), ("30 s sweep", "src/dns/dns.c dns_rec_chk")],
 [("cache entry expiry", "absolute time after which the address is stale", "dns_cache_t.expire_msec")],
 ["presence of a query and the dialled address for each request"])

prop("C06", "No input can crash, corrupt or hang a worker",
 "Whatever bytes arrive on any listening port (plain HTTP, HTTPS, tunnel, local SOCKS), from a tunnel server, from a target or from the DNS resolver, in whatever fragments and with whatever closes, resets and TLS garbage, the worker neither crashes nor accesses memory out of bounds or after free nor loops without returning to its event loop. Afterwards a fresh well-behaved connection is still served.",
 ["inputs", "histories", "schedules"], "all byte strings on every input surface (grammar-derived, mutated and random), all fragmentations and abort points, several hostile connections in a row or at once",
 "Tests only feed a handful of well-formed values to four data structures; hostile input has no coverage.",
 ["src/http/http_req.c", "src/app/webser.c", "src/app/web_api.c", "src/app/socks5.c", "src/app/tls_tunnel_s.c", "src/app/tls_tunnel_c.c", "src/dns/dns.c", "src/common/ssl.c", "src/common/log.c"],
 [("length limits and state machines of each parser", "src/http/http_req.c, src/app/socks5.c, src/dns/dns.c"), ("session teardown", "src/common/net.c net_free, src/app/tls_tunnel_s.c")],
 (), ["process survival under address sanitizer", "steps executed between two event waits", "service of a later well-behaved connection"])

prop("C07", "Finished connections give back everything they used",
 "When all clients, targets and resolver exchanges of any history have ended (by normal close, abort, refusal, error or timeout), the worker holds no socket, memory-pool block or open file beyond what it held when idle, apart from cached DNS entries whose TTL still runs. A worker therefore serves the same service after any number of connections.",
 ["histories", "fault_sequences"], "all histories of connections of every kind (web, API, keep-alive, tunnel in both roles, shared port), ended at any point by any party, including resource-allocation failures in the middle and crowds of more simultaneous connections and long lists of more names than the worker has room for",
 "A leak of one block per request shows only after a thousand requests and only on particular end paths; tests run no connections.",
 ["src/common/net.c", "src/common/mem.c", "src/app/webser.c", "src/app/tls_tunnel_s.c", "src/app/socks5.c", "src/dns/dns.c", "src/http/http_req.c"],
 [("connection teardown", "src/common/net.c net_free_direct"), ("per-protocol release callbacks", "src/app/webser.c web_release_c, src/app/tls_tunnel_s.c tls_ses_release_*")],
 (), ["open descriptors and live pool blocks after quiescence"])

prop("C08", "Stalled peers are dropped on time, active ones are not",
 "A connection whose peer stops making progress at any stage (first byte, TLS handshake, authentication, negotiation, DNS, connect, request head, request body, response, relay) is closed within a bounded time (at most 15 s per stage), together with its partner connection. A connection that keeps making progress within the stage's time limit (5 s web, 5 s resolver, 10 s tunnel) is never closed by a timer.",
 ["schedules", "histories"], "all stall points and all pacing patterns of gaps below the limits, on every connection kind, with other timers pending",
 "Needs a virtual clock: tests cannot wait through every stall point, and timer re-arming bugs depend on which gaps occurred before.",
 ["src/common/timer.c", "src/common/net.c", "src/common/ssl.c", "src/app/tls_tunnel_s.c", "src/app/webser.c", "src/dns/dns.c"],
 [("one timer per connection re-armed on progress", "src/common/timer.h EZ_TMADD/EZ_TMDEL users"), ("expiry callbacks", "net_exp, tls_ses_exp, web_exp, ssl_cexp, dns_cexp")],
 (), ["virtual time at which each connection is closed"])

prop("C09", "Concurrent connections do not disturb each other",
 "With any mix of simultaneous connections, what one connection's peers observe (bytes, order, completion, close) is the same as if it were alone, no matter when other connections start, stall, abort, reset, fail to connect or fail to allocate, or whether the system was short of descriptors for a while. In particular readiness reported for one connection is never lost because another one was closed in the same round, and no byte crosses from one session to another.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of events over 2..12 concurrent connections of mixed kinds with aborts at arbitrary points, accepts that fail for a while for lack of descriptors or memory, and arbitrary batching and ordering of readiness events",
 "Lost edge-triggered events need a specific batch of readiness events containing both a closing and a victim connection; no test uses the event loop.",
 ["src/common/event.c", "src/common/net.c", "src/app/tls_tunnel_s.c", "src/app/webser.c", "src/common/mem.c"],
 [("cancellation of pending events of freed connections", "src/common/event.c ev_free"), ("accept loop and its retry after a shortage", "src/common/net.c net_accept")],
 [("pending event slots", "events of the current round not yet dispatched", "g_event_t.evs, ev_t.idxr/idxw")],
 ["per-connection transcripts compared with the model of each connection alone"])

prop("C10", "A well-formed HTTP request gets the right answer however it is split",
 "For every well-formed request whose head fits in 4096 bytes (GET or POST, origin or absolute form, any printable header fields including empty values, any order, bodies up to 16000 bytes), the response depends only on the request bytes, never on how they are split into segments: GET of an existing file returns 200 with exactly that file and a media type by extension, GET /echo returns the current date, POST /echo returns exactly the posted body, and a path naming nothing regular, or a file its owner may not read, returns an error status. Every response is well-formed HTTP/1.1 with correct status line, Date, Content-Length and Connection fields.",
 ["inputs", "schedules"], "all requests of the grammar, all segmentations, plain and TLS, all files of a generated site",
 "No test sends HTTP; the parser keeps state across reads so each segmentation is a different execution.",
 ["src/http/http_req.c", "src/app/webser.c", "src/app/web_api.c", "src/common/sys_time.c"],
 [("request-line and header state machines", "src/http/http_req.c"), ("router and file/API responders", "src/app/webser.c, src/app/web_api.c")],
 [("parser state", "position in request line / headers / body", "web_req_t.state, c->meta")],
 ["response bytes parsed by an independent HTTP client model"])

prop("C11", "The web server never discloses files outside its home directory",
 "No request path, whatever its length, dots, slashes, escapes or absolute form, makes the server return content (or sizes) of a file outside the configured home directory, and files are opened only under that directory.",
 ["inputs"], "all request targets, in particular dot-dot sequences combined with padding up to the head limit, doubled slashes, dot segments, escapes, absolute-form targets and trailing dot-dot",
 "The check is on a bounded copy of the path; only generated long or odd paths reach its edges, and no test requests files.",
 ["src/app/webser.c", "src/http/http_req.c"],
 [("rejection of parent-directory sequences", "src/app/webser.c webser_req_router"), ("path construction", "src/app/webser.c webser_req_file")],
 (), ["paths given to open/stat for web content", "response bodies compared with files placed outside the home"])

prop("C12", "Keep-alive connections answer every request once and in order",
 "On a connection whose requests carry Connection: Keep-Alive, each request of any sequence of GETs and POSTs, pipelined or not and however segmented, is answered exactly once, in order and as if it were alone on a connection; after the first request without keep-alive the server answers it and closes. Nothing of one request (headers, body bytes, persistence) leaks into the handling of the next.",
 ["histories", "schedules", "inputs"], "all request sequences of length 1..12 mixing files, errors, echo with bodies, pipelining depth 1..12, all segmentations, plain and TLS",
 "Depends on bytes left in the connection buffer after each request; no test sends two requests.",
 ["src/app/webser.c", "src/http/http_req.c"],
 [("carry-over of unread bytes and per-request state reset", "src/app/webser.c webser_keepalive/webser_start")],
 [("unparsed bytes of the next request", "must be preserved", "c->meta pos..last")],
 ["sequence of responses on one connection"])

prop("C13", "Responses are delivered completely under any flow control",
 "Every 200 response carries exactly Content-Length body bytes equal to the file's content, for files of any size from empty to terabytes, over plain HTTP and HTTPS, no matter how slowly or irregularly the client reads (within the timeout) and how the writes are cut. When the file is appended to or replaced meanwhile the response is one whole earlier or later content, when it is cut the response ends early, and never are more bytes sent than announced.",
 ["schedules", "inputs"], "all file sizes around the 16 KiB transfer block, all sequences of short writes and stalls; appending to, replacing and cutting the file at any moment of the response",
 "A loopback test rarely stalls a write; completion after a stall depends on event registration that only chosen schedules exercise.",
 ["src/app/webser.c", "src/common/ssl.c", "src/common/net_send.c", "src/common/event.c"],
 [("resumable header and file sender", "src/app/webser.c webser_rsp_hdr_send/webser_rsp_payload_send_ff")],
 (), ["bytes received by the client"])

prop("C14", "The shared HTTPS port serves both tunnels and web pages faithfully",
 "In the hidden-server mode one TLS port serves tunnel clients and browsers: a connection whose first four bytes are the tunnel magic is treated exactly like one on a dedicated tunnel port, and any other connection is treated exactly like one on an ordinary HTTPS port, with no byte of its request lost, whatever the sizes and fragmentation of the first bytes.",
 ["inputs", "schedules"], "all first-byte sequences (tunnel headers, requests of any length including shorter than a tunnel header, near-magic prefixes), all fragmentations, followed by full tunnel sessions or keep-alive web sessions",
 "No test starts a server; hand-over of already-read bytes between two protocol modules depends on segmentation.",
 ["src/app/webser.c", "src/app/tls_tunnel_s.c"],
 [("protocol routing on the first bytes", "src/app/webser.c webser_transfer_to_tlstunnel")],
 (), ["web responses and tunnel behaviour on the shared port"])

prop("C15", "Tunnel traffic only ever crosses the network inside TLS 1.2 or later",
 "The tunnel client sends its key, the SOCKS conversation and user data to the tunnel server only inside a completed TLS 1.2-or-later session, and the first application bytes are the 36-byte authentication header followed by exactly the bytes of the local client; with a peer that does not complete such a handshake nothing but handshake bytes are sent and the local client is disconnected. The servers refuse anything below TLS 1.2 and everything that is not TLS on their TLS ports.",
 ["inputs", "schedules", "configurations"], "all protocol-version and cipher offers of the peer, certificates of both common kinds (elliptic curve, RSA), non-TLS peers, handshakes cut or fragmented anywhere, local client data arriving before, during and after the handshake, keys of 1..32 characters",
 "No test performs a handshake; leaks appear only when data arrives during particular handshake phases.",
 ["src/common/ssl.c", "src/app/tls_tunnel_c.c", "src/app/tls_tunnel_s.c", "src/app/webser.c"],
 [("protocol floor and cipher lists", "src/common/ssl.c ssl_load_ctx_certificate"), ("handshake completion gate", "src/app/tls_tunnel_c.c tls_tunnel_c_connect_ssl")],
 (), ["raw bytes on the tunnel socket"])

prop("C16", "The memory pool hands out distinct, zeroed, sufficiently large blocks",
 "Every successful allocation of 1..16384 bytes returns a block of at least that size, 8-byte aligned, all zero, and disjoint from every other live block; contents of live blocks are never changed by the pool. When a size class is exhausted allocation from it fails cleanly (null) and works again after a block of that class is freed, other classes are unaffected, larger requests are refused, and freeing an address that is not a live block is refused without harm.",
 ["histories", "inputs"], "all sequences of allocations, writes and frees over all size classes, including exhaustion of each class and recovery",
 "The unit test allocates and frees a few blocks; exhaustion, recovery and reuse patterns are histories over thousands of operations.",
 ["src/common/mem.c", "src/common/util/queue.c"],
 [("per-class free and in-use lists", "src/common/mem.c mem_pool_alloc/mem_pool_free")],
 [("usable/inuse queues", "each block is in exactly one", "mem_block_t")],
 ["returned pointers and block contents"])

prop("C17", "Timers fire exactly once, in order, neither early nor forgotten",
 "For any sequence of setting, re-setting and cancelling timers while time advances, each armed timer's callback runs exactly once when its deadline has passed and not before, in deadline order, a cancelled or re-set timer never fires for its old deadline, and the reported wait never exceeds the time to the earliest pending deadline. Callbacks may set and cancel timers themselves, and timer slots beyond capacity are refused without harm to the others.",
 ["histories"], "all sequences of set/re-set/cancel/advance over up to the capacity of timers, with callbacks that themselves set and cancel",
 "The only timer test body is commented out; heap-order corruption needs deletion from the middle of particular heap shapes.",
 ["src/common/timer.c", "src/common/util/bheap.c"],
 [("binary heap keyed by deadline with back-indices", "src/common/util/bheap.c"), ("expiry loop", "src/common/timer.c timer_expire")],
 [("heap order and node indices", "parent <= child, node->index is its slot", "heap_t")],
 ["callback order and times under a virtual clock"])

prop("C18", "The hash table behaves as a map with first-insert-wins",
 "For any sequence of insertions, lookups and deletions with arbitrary binary keys and values, a lookup returns exactly the value stored by the first insertion of that key since its last deletion and nothing for absent keys, independent of collisions and table size; stored bytes are copies unaffected by later changes to the caller's buffers; deletion and destruction release everything.",
 ["histories", "inputs"], "all operation sequences over colliding and non-colliding binary keys (embedded NULs, shared prefixes, lengths 1..1000) and table sizes from 1",
 "No stable test exercises collisions, deletion inside chains or binary keys.",
 ["src/common/util/ezhash.c", "src/common/util/queue.c"],
 [("bucket chains with length and byte comparison", "src/common/util/ezhash.c")],
 (), ["lookup results against a reference map; live pool blocks after destruction"])

prop("C19", "Multi-key search reports a match exactly when a key occurs",
 "For any set of byte-string keys and any text, a search started from the reset state reports success exactly when at least one of the keys occurs as a contiguous substring of the text; building, searching and freeing never touch invalid memory.",
 ["inputs"], "all key sets (overlapping, nested, repeated, sharing prefixes and suffixes, all byte values) of up to a few hundred bytes and texts built from their fragments",
 "Failure links matter only for adversarially overlapping keys; no test exists for the matcher.",
 ["src/common/aho_corasick.c"], [("goto/fail automaton", "src/common/aho_corasick.c ezac_compiler/ezac_find")],
 (), ["search result against naive substring search"])

prop("C20", "The ring buffer is a bounded byte queue",
 "For any sequence of pushes and pulls of any sizes, pulled bytes are exactly the pushed bytes in order, a push either stores all its bytes or (when they do not fit) nothing, a pull returns at least one and at most the requested number of available bytes, and the reported length and free space always add up to the capacity.",
 ["histories", "inputs"], "all push/pull sequences over capacities from 1, in particular wrap-around with the write or read position exactly at the end",
 "Not tested at all; the defects live in exact wrap positions.",
 ["src/common/ringbuffer.c"], [("two-segment copy on wrap", "src/common/ringbuffer.c ringbuffer_push/ringbuffer_pull")],
 [("pos/last/datan", "read and write positions and fill level", "ringbuffer_t")], ["bytes out against a reference queue"])

prop("C21", "The binary search tree is an ordered multiset",
 "For any sequence of insertions, deletions and lookups of any 64-bit keys, a lookup finds a node with the key exactly when more copies were inserted than deleted, a deletion succeeds exactly in that case and removes one copy, the element count is right, the links always form a search tree, and freeing the tree releases every node.",
 ["histories", "inputs"], "all insert/delete/find sequences, including leaf, one-child, two-children and root deletions, duplicates, negative keys and empty trees",
 "The unit test performs one deletion of one shape.",
 ["src/common/util/bst.c"], [("successor replacement on deletion", "src/common/util/bst.c bst_del")],
 [("parent/left/right/type links", "shape of the tree", "bst_node_t")], ["find/del results, in-order walk, released memory"])

prop("C22", "Buffers, lists, arrays and queues keep their contents in order",
 "For any sequence of operations, a linked queue holds exactly the inserted, not removed elements in insertion order from either end; an array and a string list return their elements in push order with contents intact; a chained buffer's total length and flattened copy equal the concatenation of its parts, and appends beyond capacity are refused without change; substring search returns the first occurrence inside the given length.",
 ["histories", "inputs"], "all operation sequences and sizes on the utility containers",
 "Unit tests cover three fixed elements per container.",
 ["src/common/util/queue.c", "src/common/util/arr.c", "src/common/util/list.c", "src/common/meta.c", "src/common/sys_string.c"],
 [("intrusive doubly linked list", "src/common/util/queue.c"), ("chained buffers", "src/common/meta.c")],
 (), ["container contents against reference containers"])

prop("C23", "Cipher helpers round-trip and reject tampering",
 "Decrypting what was encrypted returns the original bytes for every length and content, with ciphertext of the same length equal to the standard cipher's output; authenticated decryption fails for every modification of ciphertext or tag, and nothing outside the given buffers is read or written.",
 ["inputs"], "all plaintext lengths 0..several blocks and large, all contents, all single- and multi-bit modifications of ciphertext and tag",
 "No test covers the cipher helpers; tamper rejection is a for-all over modifications.",
 ["src/common/sys_cipher.c"], [("AES-256-CFB8 and AES-256-GCM wrappers", "src/common/sys_cipher.c")],
 (), ["outputs and return values; independent implementation of the ciphers"])

prop("C24", "JSON documents survive parsing and printing",
 "Every JSON value of the supported grammar parses to that value (types, numbers, strings with all escapes, order of members), printing and re-parsing yields an equal value (numbers to a relative 2^-52) in formatted and compact form, and duplicates compare equal. A text with broken brackets, separators, quotes, escapes or literals is refused, with text behind the value only where that is allowed, and no byte string makes the library touch memory outside the document.",
 ["inputs"], "all documents (nesting, escapes, surrogate pairs, numbers of every magnitude, long strings) and all mutations and truncations of them",
 "No test covers the parser that reads the configuration and key files.",
 ["src/common/cJSON.c"], [("recursive descent parser and printer", "src/common/cJSON.c")],
 (), ["parsed trees against an independent reference value"])

prop("C25", "Configuration is loaded exactly as written and oddities are harmless",
 "Every well-typed configuration file yields exactly the written settings, with string values longer than their limit cut at the limit and settings that are absent left at their defaults, and the server then listens on exactly the configured ports (up to 64 of each kind) with the roles given by the mode. Any other file content (wrong types, long arrays, broken JSON, empty file, key files with non-string entries) neither crashes nor corrupts neighbouring settings.",
 ["configurations", "inputs"], "all configuration files: any subset and order of keys, boundary-length strings, arrays of any length, wrong types, truncated JSON; all key files",
 "Tests never load a configuration.",
 ["src/common/config.c", "src/common/listen.c", "src/app/tls_tunnel_s.c", "src/common/cJSON.c"],
 [("field-by-field copy with limits", "src/common/config.c config_parse"), ("port registration", "src/common/listen.c listen_init")],
 (), ["loaded settings; ports and protocols actually listening"])

prop("C26", "Log lines are bounded and contain what was logged",
 "Every enabled log call writes one record to standard output and to the log selected by its channel, consisting of level, timestamp, location and the formatted message cut to the record limit of 512 bytes; no call reads or writes memory beyond the message, whatever its length, and calls above the configured level write nothing. Records already in the logs, of earlier runs or of other processes, are kept.",
 ["inputs", "configurations"], "all message lengths around and far beyond the limit, all levels, channels and configured levels, logs that are empty, hold older records, are opened again or are written by other processes in between",
 "No test checks logging; overlong messages come from request paths.",
 ["src/common/log.c", "src/common/sys_time.c"], [("bounded formatting into a stack buffer", "src/common/log.c log_print")],
 (), ["bytes written to stdout and the two log files"])

prop("C27", "The supervisor keeps its workers running and stops them all",
 "With N configured workers, after any sequence of worker deaths, reload requests and their bursts, exactly N workers are running and serving again within 45 s, every worker that was running when a reload was requested has been replaced, and the recorded process id is still the master's. A stop request, also one racing with deaths and reloads, ends the master and every worker (or the only process, whatever connections it has) and removes the id file.",
 ["fault_sequences", "histories", "schedules"], "all sequences of up to 8 worker deaths, reload requests and spells in which no process can be started, followed by a stop or not, for 1..20 workers and every interleaving of the processes between their system calls; stops of a single process with 0..6 connections at any point",
 "Requires real processes and signal races; no test starts the program.",
 ["src/common/process.c", "src/main.c", "src/common/modules.c"],
 [("signal handlers and sigsuspend loop", "src/common/process.c proc_master_run"), ("reaping and respawn", "src/common/process.c proc_waitpid/proc_fork"), ("id file", "src/main.c proc_pid_create")],
 (), ["process table, id file, service on the listening port"])

prop("C28", "JSON documents can be built and edited piece by piece",
 "A JSON document assembled and changed through the library (values created, appended, inserted, named, referenced, replaced, moved, detached, deleted or set, trees duplicated and compared) always consists of exactly the items that those operations leave, in order and findable by position and name, and prints as that document, into a given buffer only if it fits. An operation that cannot be done (absent item or argument, no memory) says so and changes nothing, nothing is freed twice or kept, and a tree that was only referred to stays as it was.",
 ["histories", "inputs", "fault_sequences"], "all sequences of up to 200 operations on up to eight trees, with any values and member names (also repeated ones and ones differing in case), positions inside and outside, and an allocation failure at any point",
 "No test builds a document; the list links, name ownership and reference flags only go wrong for particular sequences (first, last and only items, items moved between containers, constant names) and for failures in between.",
 ["src/common/cJSON.c", "src/common/cJSON.h"],
 [("doubly linked children with the last item behind the first one", "src/common/cJSON.c add_item_to_array, cJSON_DetachItemViaPointer, cJSON_InsertItemInArray, cJSON_ReplaceItemViaPointer"), ("ownership flags of names and references", "src/common/cJSON.c add_item_to_object, replace_item_in_object, create_reference, cJSON_Delete")],
 [("reference and constant-name flags", "whether an item owns its children and its name", "cJSON.type")],
 ["trees read back by position, by name and through their printed text; live allocations"])

prop("C29", "Setting the clock changes dates, not connections",
 "When the system's clock is set forwards or backwards by any amount while the server runs, active connections are not cut off, stalled ones are still dropped on time, and resolved addresses are still reused exactly within their time to live. Dates sent to web clients show the instant of the clock at which the request was handled, before and after the change and for every calendar date.",
 ["histories", "schedules", "inputs"], "all sequences of clock changes (milliseconds to decades, both directions) at arbitrary moments of tunnels, transfers, stalls and lookup histories; all instants from 1970 to 2199 in all time zones",
 "Needs a clock that can be set in the middle of a session while elapsed time is controlled independently; no test involves time.",
 ["src/common/sys_time.c", "src/common/timer.c", "src/dns/dns.c", "src/app/webser.c", "src/app/web_api.c"],
 [("time taken once per round of the event loop", "src/common/sys_time.c systime_update"), ("timer keys and cache expiry in that time", "src/common/timer.c tm_add, src/dns/dns.c dns_rec_add")],
 [("cached time", "milliseconds for timers, text for dates and logs", "time_msec, time_str_gmt in src/common/sys_time.c")],
 ["closes of connections and queries in elapsed time; Date fields and the date service"])

prop("C30", "Threads can share the memory pool and a ring buffer",
 "When several threads allocate, use and free pool blocks, every live block belongs to one thread only, keeps its contents, and no block is lost or handed out twice. When threads push to and pull from one ring buffer, every byte is pulled at most once, pushes stay whole and in order, counts are right, and nothing is lost; no thread waits for ever.",
 ["schedules", "histories"], "all interleavings of 2..4 threads at the granularity of single memory accesses and lock operations, over all short histories of allocations, frees, pushes and pulls, with pools and buffers near full and near empty",
 "The failures need a thread switch between two particular instructions; no test starts a thread.",
 ["src/common/mem.c", "src/common/util/ringbuffer.c"],
 [("lock around the lists of a pool", "src/common/mem.c mem_pool_alloc/mem_pool_free"), ("lock around positions and count", "src/common/util/ringbuffer.c")],
 (), ["addresses and contents of blocks; bytes pulled and counts reported"])

prop("C31", "The command line controls exactly the recorded server",
 "A reload or stop request on the command line sends that request's signal once, to exactly the process whose id is recorded, and nothing to anyone when the record is absent or does not hold a process id; other arguments send nothing, and none of these runs starts a server or changes a file. A start whose configuration cannot be read or whose ports cannot be opened does not run and leaves the record of an earlier server as it was; a start that succeeds has recorded its own id before it serves.",
 ["inputs", "configurations", "fault_sequences"], "all argument lists, all contents of the id file, all answers of the system to the signal; all configurations in which any one port cannot be opened, foreground and daemon, with and without workers",
 "No test runs the program's entry point; a wrong id would signal other processes of the machine, so that it can only be observed with the process calls replaced.",
 ["src/main.c", "src/common/process.c", "src/common/config.c", "src/common/listen.c"],
 [("argument decision", "src/main.c option_parse"), ("reading and writing the record", "src/common/process.c proc_pid_form_file, src/main.c proc_pid_create"), ("order of the start", "src/main.c main")],
 [("id file", "decimal id of the running server", "S5_PATH_PID")],
 ["signals sent (recorded, never delivered); id file and other files after the run"])

prop("C32", "A worker with nothing to do sleeps",
 "While no peer sends, reads, connects or closes and no time limit is due, a worker waits without being woken again and again, whatever connections it holds and at whatever point they have stopped. Each thing that happens costs a bounded number of wake-ups.",
 ["interleavings", "fault_sequences", "inputs"], "all combinations of active, slow and stalled sessions of every kind and role, stalled at any point and in either direction, all orders of events",
 "A loop that spins still answers every request correctly, so that no test of results notices it; it shows only in the number of wake-ups of a worker whose connections have stopped at particular points.",
 ["src/common/event.c", "src/common/timer.c", "src/common/process.c", "src/common/ssl.c", "src/app/tls_tunnel_s.c"],
 [("edge-triggered registration of connections", "src/common/event.c ev_epoll_opt"), ("time until the next limit", "src/common/timer.c timer_expire"), ("loop of a worker", "src/common/process.c proc_worker_run")],
 (), ["waits for events and their results between two changes outside the program"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
