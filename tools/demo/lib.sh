# Sourced by the demonstrations (run in the repository): builds in a scratch
# directory, with the program's fixed paths redirected into it.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo-XXXXXX) || exit 99
PIDS=""
cleanup() { for p in $PIDS; do kill -9 "$p" 2>/dev/null; done; rm -rf "$T"; }
trap cleanup EXIT
SRCS() { find "$T/src" -name '*.c' ! -path '*/test/*' "$@"; }
INC() { find "$T/src" -type d | sed 's/^/-I/'; }
prepare() {
    cp -r src "$T/src" && mkdir -p "$T/s5/logs" "$T/s5/config" || exit 99
    find "$T/src" -name '*.[ch]' -exec sed -i "s#/usr/local/s5/#$T/s5/#g" {} +
}
build_program() { prepare; gcc -O1 -g -w $(INC) $(SRCS) -o "$T/prog" -lssl -lcrypto -lpthread -lm || exit 99; }
# build_unit file.c: links a driver with everything but the program's own main
build_unit() {
    prepare; sed -i 's/\bint main *(/int program_main(/' $(grep -lE '\bint main *\(' $(SRCS))
    gcc -O1 -g -w ${SAN:-} $(INC) "$HERE/$1" $(SRCS) -o "$T/unit" -lssl -lcrypto -lpthread -lm || exit 99
}
certs() { openssl req -x509 -newkey rsa:2048 -nodes -keyout "$T/key.pem" -out "$T/crt.pem" -days 30 -subj /CN=demo >/dev/null 2>&1 || exit 99; }
smallbuf() { gcc -shared -fPIC "$HERE/smallbuf.c" -o "$T/smallbuf.so" -ldl || exit 99; export PRELOAD="$T/smallbuf.so"; }
