#!/bin/bash
# usage: run.sh <property-id>   (VERIF_TIER=quick|thorough, VK_ONLY=<case> to replay)
V="$(cd "$(dirname "$0")" && pwd)"
R="${VK_REPO:-/repo}"
export VK_VERIF="$V" VK_REPO="$R"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off GONOSUMDB='*' GOFLAGS
B="$V/.build"; mkdir -p "$B/bin" "$V/replays" "$V/evidence"
ID="$1"
case "$ID" in
 A*|a*|D*|E*|F*|B05|B06|C11) T=hval;;
 B0[1-4]|B0[78]|C0*|C10) T=hocto;;
 *) echo "unknown property $ID"; exit 2;;
esac
exec 9>"$B/lock"; flock 9
case "$T" in
 hval) python3 "$V/tools/overlay.py" "$V" "$R" "$B/overlay.json" || exit 2
   (cd "$R" && go build -overlay "$B/overlay.json" -o "$B/bin/hval" ./zzverif/hval && { [ "$ID" != E01 ] || go build -o "$B/bin/localrpki" ./cmd/localrpki; } &&
   { [ "$ID" != C11 ] || { go build -race -o "$B/bin/octorpki-race" ./cmd/octorpki && go build -race -o "$B/bin/ctrpki-race" ./cmd/ctrpki && go build -overlay "$B/overlay.json" -o "$B/bin/rsync-fake" ./zzverif/fakersync; }; }) || { echo "harness build failed"; exit 2; };;
 hocto)
  (cd "$V/tools/instr" && GOFLAGS= GO111MODULE=off go build -o "$B/bin/instr" main.go) || exit 2
  # less instrumentation when the full one does not fit the code
  ok=
  for level in 3 2 1; do
   rm -rf "$B/instr"; mkdir -p "$B/instr"
   "$B/bin/instr" $level "$R" "$B/instr" "$B/instr.json" cmd/octorpki sync/lib || exit 2
   python3 "$V/tools/overlay.py" "$V" "$R" "$B/overlay-hocto.json" "$B/instr.json" || exit 2
   (cd "$R" && go build -gcflags=github.com/cloudflare/cfrpki/zzverif/vhook=-complete=0 -overlay "$B/overlay-hocto.json" -o "$B/bin/hocto" ./cmd/octorpki) 2>"$B/build.err" && { ok=1; break; }
   cat "$B/build.err" >&2
  done
  [ -n "$ok" ] || { echo "harness build failed"; exit 2; }
  # a disk in memory when there is room
  if [ -w /dev/shm ] && [ "$(df -Pk /dev/shm | awk 'NR==2{print $4}')" -gt 1000000 ]; then export TMPDIR=/dev/shm; fi
  export VERIF_LEVEL=$level VERIF_RSYNC_BIN="$B/bin/rsync-fake"
  (cd "$R" && go build -overlay "$B/overlay-hocto.json" -o "$VERIF_RSYNC_BIN" ./zzverif/fakersync && { [ "$ID" != C05 ] || go build -o "$B/bin/ctrpki" ./cmd/ctrpki; }) || { echo "harness build failed"; exit 2; };;
esac
flock -u 9
"$B/bin/$T" "$ID" 2>"$B/stderr.$ID"; rc=$?
tail -c 4000 "$B/stderr.$ID" >&2
if [ $rc -ne 0 ] && [ $rc -ne 1 ] && grep -qE '^(fatal error|panic|runtime: goroutine stack exceeds)' "$B/stderr.$ID"; then
 # the code under test took the whole process down
 head -c 20000 "$B/stderr.$ID" > "$V/replays/$ID-crash.txt"
 echo "VIOLATION property=$ID replay=$V/replays/$ID-crash.txt"
 exit 1
fi
exit $rc
