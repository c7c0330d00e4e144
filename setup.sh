#!/bin/sh
# Compiles the arithmetic backing of tla/Num.tla and builds /repo's extensions. Offline, idempotent.
set -e
cd "$(dirname "$0")"
mkdir -p build/classes
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/vp/NumOverrides.java
