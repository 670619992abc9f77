#!/bin/bash
# Everything is built per run by run.sh; this only reports whether what it needs is there.
set -e
cd "$(dirname "$0")/.."
/usr/lib/jvm/java-17-openjdk-amd64/bin/javac -version
ls /opt/veriftools/java/bytecode/asm-9*.jar
find /root/.gradle/caches/modules-2 -name 'netty-buffer-4*.jar' | head -1
mkdir -p evidence
