#!/bin/bash
# Builds the Python module (components/wrapper + components/core of /repo's working tree) and the
# simulator's interposer into DIR. usage: build_py.sh DIR
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1"
DIR=$(cd "$1" && pwd)
REPO=${WFSIM_REPO:-/repo}
. /opt/vp/env.sh
mkdir -p "$DIR"
if [ ! -e "$DIR/libsimshim.so" ] || [ "$HERE/py/shim.c" -nt "$DIR/libsimshim.so" ]; then
  gcc -O2 -g1 -Wall -Wextra -fPIC -shared -fno-builtin-malloc -o "$DIR/libsimshim.so.tmp" "$HERE/py/shim.c" -ldl -lpthread
  mv "$DIR/libsimshim.so.tmp" "$DIR/libsimshim.so"
fi
STAMP=$(cat "$HERE/build_py.sh" "$HERE/py/gilhook.h" /opt/vp/env.sh | sha256sum | cut -c1-16)-$REPO
if [ "$(cat "$DIR/stamp" 2>/dev/null)" != "$STAMP" ]; then
  rm -rf "$DIR/cmake"
fi
if [ ! -f "$DIR/cmake/build.ninja" ]; then
  LAUNCH=
  if command -v ccache > /dev/null; then LAUNCH="-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"; fi
  cmake -S "$REPO" -B "$DIR/cmake" -G Ninja $LAUNCH \
    -DCMAKE_BUILD_TYPE=RelWithDebInfo \
    -DCMAKE_CXX_FLAGS="$WARN -Wno-tsan -fsanitize=thread -include $HERE/py/gilhook.h" \
    -DCMAKE_MODULE_LINKER_FLAGS="-fno-sanitize=thread -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort" \
    -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1 -g1 -DNDEBUG" \
    -DCMAKE_PROJECT_wrenfold_INCLUDE=/opt/vp/cmake/offline_deps.cmake \
    -DWF_NANOBIND_CMAKE_DIR=/opt/vp/nanobind-2.12.0/nanobind/cmake \
    -DPython_ROOT_DIR="$VENV" -DPython_EXECUTABLE="$VENV/bin/python" \
    -DPython_FIND_VIRTUALENV=ONLY \
    -DWF_BUILD_TESTS=OFF -DWF_BUILD_EXAMPLES=OFF -DWF_BUILD_BENCHMARKS=OFF \
    -DWF_BUILD_STUBS=OFF -DWF_BUILD_DOCS=OFF -Wno-deprecated
  echo "$STAMP" > "$DIR/stamp"
fi
ninja -C "$DIR/cmake" -j "$(nproc)" pywrenfold
mkdir -p "$DIR/mod"
for f in "$DIR"/cmake/components/wrapper/pywrenfold*.so; do ln -sfn "$f" "$DIR/mod/$(basename "$f")"; done
