#!/usr/bin/env bash
# Builds the framework: the LLVM pass, the run-time library, and /repo twice
# (instrumented, and plain for replays).  Incremental.
#   setup.sh [all|sym|plain]
set -euo pipefail
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
unset LD_PRELOAD
what=${1:-all}
here=$(cd "$(dirname "$0")" && pwd)
B=$here/build
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
venv=/opt/venv
torch=$venv/lib/python3.12/site-packages/torch

tools() {
  if [ ! -e "$B/K2Sym.so" ] || [ "$here/engine/pass.cpp" -nt "$B/K2Sym.so" ] || [ "$here/engine/ops.h" -nt "$B/K2Sym.so" ]; then
    rm -f "$B/K2Sym.so"
    clang++ -O1 -shared -fPIC $(llvm-config-18 --cxxflags) "$here/engine/pass.cpp" -o "$B/K2Sym.tmp"
    mv "$B/K2Sym.tmp" "$B/K2Sym.so"
    rm -rf "$B/sym"
  fi
  if [ ! -e "$B/libk2symrt.so" ] || [ "$here/engine/rt.cpp" -nt "$B/libk2symrt.so" ] || [ "$here/engine/ops.h" -nt "$B/libk2symrt.so" ]; then
    clang++ -O2 -g -shared -fPIC -std=c++17 -fno-builtin-malloc "$here/engine/rt.cpp" -ldl -o "$B/libk2symrt.tmp"
    mv "$B/libk2symrt.tmp" "$B/libk2symrt.so"
  fi
}

common=(-S /repo -G Ninja -DCMAKE_MODULE_PATH=/opt/vp/cmake -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_STANDARD=17
  -DK2_WITH_CUDA=OFF -DK2_ENABLE_TESTS=OFF -DK2_ENABLE_BENCHMARK=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON
  -DPython3_EXECUTABLE=$venv/bin/python -DTORCH_LIBRARY=$torch/lib/libtorch.so
  "-DTORCH_LIBRARIES=$torch/lib/libtorch.so;$torch/lib/libtorch_cpu.so;$torch/lib/libc10.so"
  -DTORCH_CXX_FLAGS=-D_GLIBCXX_USE_CXX11_ABI=0)

sym() {
  tools
  if [ ! -e "$B/sym/build.ninja" ]; then
    # the same sources and definitions as /opt/vp/build.sh, through the pass
    l="-Wl,-Bsymbolic-functions -L$B -lk2symrt -Wl,-rpath,$B"
    cmake -B "$B/sym" "${common[@]}" -DCMAKE_CXX_COMPILER=/usr/bin/clang++ \
      "-DCMAKE_CXX_FLAGS=-fpass-plugin=$B/K2Sym.so" \
      "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG -fno-vectorize -fno-slp-vectorize -ffp-contract=off" \
      "-DCMAKE_SHARED_LINKER_FLAGS=$l" "-DCMAKE_MODULE_LINKER_FLAGS=$l" "-DCMAKE_EXE_LINKER_FLAGS=$l" > "$B/sym.cmake.log" 2>&1 ||
      { tail -50 "$B/sym.cmake.log"; return 1; }
  fi
  cmake --build "$B/sym" -j "$(nproc)" --target _k2 > "$B/sym.log" 2>&1 || { tail -50 "$B/sym.log"; return 1; }
}

plain() {
  if [ ! -e "$B/plain/build.ninja" ]; then
    cmake -B "$B/plain" "${common[@]}" -DCMAKE_CXX_COMPILER=/usr/bin/g++ > "$B/plain.cmake.log" 2>&1 ||
      { tail -50 "$B/plain.cmake.log"; return 1; }
  fi
  cmake --build "$B/plain" -j "$(nproc)" --target _k2 > "$B/plain.log" 2>&1 || { tail -50 "$B/plain.log"; return 1; }
}

case $what in
  all) sym && plain ;;
  sym) sym ;;
  plain) plain ;;
esac
