#!/bin/sh
# build the engine, test its term simplifier, and prebuild every library of /repo
set -e
cd "$(dirname "$0")"
mkdir -p work/eng
make -s -C engine OUT="$PWD/work/eng" -j8
work/eng/selftest 20000 "${VERIF_SEED:-1}"
python3 tools/build.py sys std bio thread crypto date escfmt fileutil flate http inifile iter json math regex
