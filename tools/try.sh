#!/bin/bash
# tools/try.sh PATCH [PROPERTY...]: applies PATCH to a scratch copy of /repo, compiles its tests and examples there, runs demo.sh beside the patch if
# there is one (on both trees), then the checks of the properties named. Used while developing; no check depends on it.
P=$(realpath "$1"); shift
W=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo/. "$W/" && cd "$W" && rm -rf _build && git checkout -q -- . && git apply "$P" || { echo "PATCH DOES NOT APPLY"; exit 2; }
grep -q . /dev/null; bad=0
compile() { g++ -std=c++20 -w -fsyntax-only -I include -I test "$1" >/dev/null 2>&1 || echo "BREAKS $1"; }
export -f compile
B=$(ls test/*.cpp example/*.cpp | xargs -P 8 -I{} bash -c 'compile {}')
[ -n "$B" ] && { echo "TESTS: $B"; exit 2; }
echo "tests compile"
D=$(dirname "$P")/demo.sh
if [ -f "$D" ]; then
  (cd /repo && timeout 300 bash "$D" >/dev/null 2>&1); a=$?
  (cd "$W" && timeout 300 bash "$D" >/dev/null 2>&1); b=$?
  echo "demo: unchanged $a, patched $b"
fi
cd /verif
for p in "$@"; do VF_REPO=$W timeout 900 python3 -m vf $p 2>&1 | tail -3 | cut -c1-400; done
