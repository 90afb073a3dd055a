#!/bin/bash
# tools/seed.sh ID: takes the change in the scratch copy /tmp/seedrepo (a clone of /repo) as seeded/ID/patch.diff, adds the demo
# harness, and confirms: builds, tests pass, demo passes on the unchanged tree and fails with the patch. /repo is not touched.
set -u
id="$1"; d=/verif/seeded/$id; r=/tmp/seedrepo; mkdir -p "$d"
cp /verif/tools/demo/common.rs /verif/tools/demo/demo.sh "$d/"; chmod +x "$d/demo.sh"
if [ "${2:-}" != "keep" ]; then git -C $r diff -- src >"$d/patch.diff"; fi
[ -s "$d/patch.diff" ] || { echo "$id: empty patch"; exit 1; }
git -C $r checkout -q -- .
git -C /repo apply --check "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
(cd $r && bash "$d/demo.sh" >/tmp/seed.out 2>&1); a=$?
[ $a = 0 ] || { echo "$id: demo fails on the unchanged tree ($a)"; tail -5 /tmp/seed.out; exit 1; }
git -C $r apply "$d/patch.diff"
(cd $r && RUSTC_WRAPPER= timeout 300 cargo test --offline >/tmp/seed.test 2>&1); t=$?
(cd $r && bash "$d/demo.sh" >/tmp/seed.out 2>&1); c=$?
git -C $r checkout -q -- .
echo "$id: unchanged=$a tests=$t ($(grep -o '[0-9]* passed' /tmp/seed.test | tr '\n' ' ')) patched=$c"; tail -2 /tmp/seed.out
