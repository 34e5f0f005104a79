#!/bin/bash
# check.sh PROPERTY quick|thorough [extra options]
# Compiles the repository's current sources and the harnesses, then checks them symbolically.
cd "$(dirname "$0")" || exit 2
PROP=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift 2
export JAVA_HOME=/usr/lib/jvm/java-21-openjdk-amd64
T=/opt/veriftools/java
CP=$T/bytecode/asm-9.7.1.jar:$T/bytecode/asm-tree-9.7.1.jar:$T/z3/z3-turnkey-4.14.1.jar:$T/z3/turnkey-support-1.0.0.jar:$T/z3/jspecify-1.0.0.jar
./setup.sh >&2 || { echo "engine build failed"; exit 2; }
KEY=$(cat engine/src/symx/*.java | sha256sum | cut -c1-16)
S=$(mktemp -d /tmp/symx-check.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
REPO=${SYMX_REPO:-/repo}
mkdir -p "$S/repo" "$S/h"
find "$REPO/src/main/java" -name '*.java' > "$S/src.txt"
"$JAVA_HOME/bin/javac" -encoding UTF-8 -nowarn -proc:none -g --release 8 -d "$S/repo" @"$S/src.txt" 2> "$S/log" || { cat "$S/log"; echo "repository does not compile"; exit 2; }
# only this property's harnesses and what they use
{ find harness/src/sym -name '*.java'; grep -rl "property = \"$PROP\"" harness/src/h; } > "$S/hsrc.txt"
"$JAVA_HOME/bin/javac" -encoding UTF-8 -nowarn -proc:none -g --release 8 -implicit:class -sourcepath harness/src -d "$S/h" -cp "$S/repo:$CP" @"$S/hsrc.txt" 2> "$S/log" || { cat "$S/log"; echo "harness does not compile"; exit 2; }
if [ "$TIER" = thorough ]; then B=${SYMX_BUDGET:-600}; else B=${SYMX_BUDGET:-240}; fi
"$JAVA_HOME/bin/java" -Xmx10g -XX:+UseParallelGC $SYMX_JVM -cp ".build/engine-$KEY:$CP" symx.Main \
  --property "$PROP" --tier "$TIER" --seed "${VERIF_SEED:-1}" --budget "$B" --harness "$S/h" --repo "$S/repo" \
  --evidence "$PWD/evidence/$PROP.json" --known "$PWD/known-findings.txt" "$@"
RC=$?
exit $RC
