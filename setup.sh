#!/bin/bash
# Builds the checker into .build/engine (skipped when the sources have not changed).
set -e
cd "$(dirname "$0")"
export JAVA_HOME=/usr/lib/jvm/java-21-openjdk-amd64
T=/opt/veriftools/java
CP=$T/bytecode/asm-9.7.1.jar:$T/bytecode/asm-tree-9.7.1.jar:$T/z3/z3-turnkey-4.14.1.jar:$T/z3/turnkey-support-1.0.0.jar:$T/z3/jspecify-1.0.0.jar
KEY=$(cat engine/src/symx/*.java | sha256sum | cut -c1-16)
OUT=.build/engine-$KEY
if [ ! -f "$OUT/done" ]; then
  mkdir -p .build
  TMP=$(mktemp -d .build/tmp.XXXXXX)
  "$JAVA_HOME/bin/javac" -nowarn -proc:none -d "$TMP" -cp "$CP" engine/src/symx/*.java
  touch "$TMP/done"
  mv -T "$TMP" "$OUT" 2>/dev/null || rm -rf "/verif/$TMP"
fi
echo "$CP" > /dev/null
