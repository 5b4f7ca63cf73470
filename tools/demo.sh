#!/bin/bash
# cwd: the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++14 -g -w -fwrapv -include cstring -D__error_t_defined=1 -Isource/lib_common -Isource -I"$here" \
  "$here/demo.cpp" -o "$tmp/demo" -Wl,--start-group _build/libnano_lib_vm.a \
  _build/libnano_lib_builtin.a _build/libnano_lib_compiler.a _build/libnano_lib_common.a \
  -Wl,--end-group || exit 2
cd "$tmp" && timeout 100 ./demo
