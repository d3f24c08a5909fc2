"""Helpers of the demonstrations: configuration, start, clients."""
import json, os, socket, ssl, struct, subprocess, sys, threading, time
T = sys.argv[1]
PORTS = dict(http=18080, https=18443, tun=18444, local=18445)

def start(mode=2, keys=("key",), home=None, gw="127.0.0.1", procs=0, **kw):
    home = home or T + "/home/"
    os.makedirs(home, exist_ok=True)
    json.dump(list(keys), open(T + "/keys.json", "w"))
    c = dict(sys_daemon=0, sys_process=procs, sys_log_level=0, ssl_crt_path=T + "/crt.pem", ssl_key_path=T + "/key.pem", s5_mode=mode,
             s5_serv_port=PORTS["tun"], s5_serv_auth_path=T + "/keys.json", s5_serv_gw=gw, s5_local_port=PORTS["local"],
             s5_local_serv_port=PORTS["tun"], s5_local_serv_ip="127.0.0.1", s5_local_auth="key", http_arr=[PORTS["http"]],
             https_arr=[PORTS["https"]], http_home=home, http_index="index.html")
    c.update(kw)
    json.dump(c, open(T + "/s5/config/config.json", "w"))
    p = subprocess.Popen([T + "/prog"], env=dict(os.environ, LD_PRELOAD=os.environ.get("PRELOAD", "")), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    port = {1: PORTS["local"], 2: PORTS["tun"]}.get(mode, PORTS["https"])
    for _ in range(100):
        try:
            socket.create_connection(("127.0.0.1", port), 1).close(); return p
        except OSError:
            time.sleep(0.05)
    p.kill(); print("the program did not start"); os._exit(99)

def tls(port, rcvbuf=None):
    s = socket.socket()
    if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.settimeout(8); s.connect(("127.0.0.1", port))
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT); x.check_hostname = False; x.verify_mode = ssl.CERT_NONE
    return x.wrap_socket(s)

def header(key=b"key"): return struct.pack(">I", 0xa001beef) + key.ljust(16, b"\0") + b"\0" * 16

def recvn(s, n):
    b = b""
    while len(b) < n:
        try: d = s.recv(n - len(b))
        except (OSError, ssl.SSLError): return b
        if not d: return b
        b += d
    return b

def tunnel(dst=None, name=None, port=80, key=b"key", at=None, rcvbuf=None):
    s = tls(at or PORTS["tun"], rcvbuf); s.settimeout(15)
    s.sendall(header(key)); s.sendall(b"\5\1\0")
    if recvn(s, 2) != b"\5\0": return None
    if name is None: s.sendall(b"\5\1\0\1" + socket.inet_aton(dst) + struct.pack(">H", port))
    else: s.sendall(b"\5\1\0\3" + bytes([len(name)]) + name + struct.pack(">H", port))
    r = recvn(s, 10)
    return s if len(r) == 10 and r[1] == 0 else None

def listener(port, ip="127.0.0.1", backlog=20):
    l = socket.socket(); l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); l.bind((ip, port)); l.listen(backlog); return l

def http(raw, port=None, timeout=6, pieces=None, gap=0.05, s=None):
    """Sends raw (or its pieces) and returns everything received until the end."""
    s = s or socket.create_connection(("127.0.0.1", port or PORTS["http"]), 5); s.settimeout(timeout)
    for p in pieces or [raw]:
        s.sendall(p)
        if pieces: time.sleep(gap)
    out = b""
    try:
        while True:
            d = s.recv(65536)
            if not d: break
            out += d
    except OSError: pass
    s.close(); return out

def resolver(answer, ip="127.0.0.1"):
    """UDP resolver; answer(name, query) -> reply bytes or None. Runs in a thread."""
    u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); u.bind((ip, 53)); seen = []
    def run():
        while True:
            q, a = u.recvfrom(2000); p = 12; n = []
            while q[p]: n.append(q[p + 1:p + 1 + q[p]]); p += 1 + q[p]
            name = b".".join(n); seen.append(name); r = answer(name, q)
            if r: u.sendto(r, a)
    threading.Thread(target=run, daemon=True).start(); return seen

def a_reply(q, ip, ttl=60): return q[:2] + b"\x81\x80\0\1\0\1\0\0\0\0" + q[12:] + b"\xc0\x0c\0\1\0\1" + struct.pack(">I", ttl) + b"\0\4" + socket.inet_aton(ip)

def verdict(p, ok, why=""):
    dead = p is not None and p.poll() is not None
    if p is not None: p.kill()
    print("ok" if ok and not dead else "FAILED: " + (why or "") + (" (the program ended)" if dead else "")); sys.stdout.flush()
    os._exit(0 if ok and not dead else 1)
