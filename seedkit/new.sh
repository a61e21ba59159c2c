#!/bin/bash
# new.sh ID: (re)creates seeded/ID from the scratch worktree /tmp/wt and resets the latter
set -e
d=$(dirname "$(readlink -f "$0")")/../seeded/$1
mkdir -p "$d"
cp -r "$(dirname "$0")/stubs" "$(dirname "$0")/kit.py" "$(dirname "$0")/demo.sh" "$d/"
git -C /tmp/wt diff > "$d/patch.diff"
git -C /tmp/wt checkout -q -- .
wc -l "$d/patch.diff"
