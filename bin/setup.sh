#!/bin/bash
# Compiles the Java evaluation of Rat.tla (exact rationals for TLC); offline.
here="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$here/build/classes" "$here/build/mpl" "$here/evidence"
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$here/build/classes" "$here"/java/*.java
