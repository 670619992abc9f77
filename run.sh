#!/bin/bash
# run.sh ID [--replay FILE]: builds /repo's working tree and the harness into a scratch directory and runs one check.
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough), VERIF_REPO (default /repo; for development only).
set -u
export LC_ALL=C.UTF-8 LANG=C.UTF-8
HOME_DIR=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
ID=$1
shift
J17=/usr/lib/jvm/java-17-openjdk-amd64/bin
J11=/usr/lib/jvm/java-11-openjdk-amd64/bin
[ -x $J11/javac ] || J11=$J17
W=$(mktemp -d /tmp/vp-run.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
NETTY=$(find /root/.gradle/caches/modules-2 -name 'netty-common-4*.jar' -o -name 'netty-buffer-4*.jar' 2>/dev/null | grep -v sources | sort | tr '\n' ':')
[ -n "$NETTY" ] || { echo "ERROR: netty jars not found"; exit 2; }
ASM=$(ls /opt/veriftools/java/bytecode/asm-9*.jar | head -1)
mkdir -p "$W/c" "$W/i" "$W/h"
find "$REPO"/*/src/main/java -name '*.java' | grep -v '/build/' | sort >"$W/src.txt"
$J11/javac -nowarn -g -encoding UTF-8 -source 8 -target 8 -cp "$NETTY" -d "$W/c" @"$W/src.txt" >"$W/javac.log" 2>&1 \
  || { grep -v '^warning' "$W/javac.log" | head -30; echo "ERROR: /repo does not compile"; exit 2; }
for d in "$REPO"/*/src/main/resources; do [ -d "$d" ] && cp -r "$d/." "$W/c/"; done
$J17/javac -nowarn -g -encoding UTF-8 --release 8 -Xlint:-options -cp "$W/c:$NETTY:$ASM" -d "$W/h" "$HOME_DIR"/harness/src/vp/*.java >"$W/javac.log" 2>&1 \
  || { head -30 "$W/javac.log"; echo "ERROR: the harness does not compile against /repo"; exit 2; }
$J17/java -Xshare:auto -XX:TieredStopAtLevel=1 -cp "$W/h:$ASM" vp.Instrument "$W/c" "$W/i" || { echo "ERROR: instrumentation failed"; exit 2; }
ulimit -c 0
timeout -k 10 885 $J17/java -Xmx8g -Xss4m -XX:MaxDirectMemorySize=2g -XX:+UseParallelGC -XX:-OmitStackTraceInFastThrow \
  -Dfile.encoding=ISO-8859-1 -Duser.language=tr -Duser.country=TR -Duser.timezone=Asia/Kolkata -Dio.netty.leakDetection.level=disabled -Dio.netty.noPreferDirect=false \
  -cp "$W/i:$W/h:$NETTY" vp.Main "$HOME_DIR" "$W/i" "$ID" "$TIER" "$SEED" "$@" 2>"$W/err.txt"
rc=$?
grep -av 'slf4j\|SLF4J' "$W/err.txt" | head -60 >&2
[ $rc -le 2 ] || { echo "INCONCLUSIVE: the run ended with $rc"; rc=2; }
exit $rc
