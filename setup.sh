#!/bin/sh
# Compiles the Java meaning of RealArith.tla.
cd "$(dirname "$0")" && mkdir -p build/ov evidence && javac -cp /opt/veriftools/tla/tla2tools.jar -d build/ov spec/ov/*.java
