#!/bin/bash
# builds the failing-input search against the sources in a repository: build.sh REPO BUILDDIR EXE
set -e
REPO="$1"; B="$2"; EXE="$3"
D="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$B/gen" "$B/o"
/usr/bin/protoc --cpp_out="$B/gen" -I "$REPO" "$REPO/src/raftpb/raft.proto"
FL="-std=c++17 -O1 -g0 -w -fno-access-control -I$B/gen -I$REPO -I$REPO/src -I$D"
{
  find "$REPO/src" -name '*.cc' ! -name '*_test.cc' ! -name 'raft_test_util.cc' ! -name '*.pb.cc'
  echo "$B/gen/src/raftpb/raft.pb.cc"
  ls "$D"/*.cc
} > "$B/list"
compile() { /usr/bin/g++ $FL -c "$1" -o "$B/o/$(echo "$1" | md5sum | cut -c1-16).o"; }
export -f compile; export FL B
xargs -a "$B/list" -P 8 -I{} bash -c 'compile {}'
/usr/bin/g++ -o "$EXE" "$B"/o/*.o -lprotobuf -lpthread
