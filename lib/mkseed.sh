#!/bin/bash
# mkseed.sh ID : checks seeded/ID in a scratch copy: applies, builds, tests pass, demo 0 without / nonzero with
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/seedw.$id
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"; cd "$W/repo" || exit 2
fail() { echo "SEED $id: $1"; rm -rf "$W"; exit 1; }
build() { (cd src && rm -f *.o crasm && make CC=gcc all >/dev/null 2>"$W/log") || fail "does not build: $(tail -3 "$W/log")"; }
build
timeout 300 bash "$S/demo.sh" >"$W/d0" 2>&1 || fail "demo fails on the unchanged tree: $(tail -3 "$W/d0")"
git apply "$S/patch.diff" || fail "patch does not apply"
build
n=0; for f in test/*.asm; do t=$(basename "${f%.asm}"); (cd test && make -B CC=gcc "$t.out" >/dev/null 2>&1) && n=$((n+1)) || echo "  test $t fails"; done
[ "$n" = 11 ] || fail "only $n tests pass"
timeout 300 bash "$S/demo.sh" >"$W/d1" 2>&1 && fail "demo passes with the patch"
echo "SEED $id: ok ($(tail -1 "$W/d1"))"
rm -rf "$W"
