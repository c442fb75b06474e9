#!/bin/bash
# Reverts each fix: commit of /repo in a scratch copy and runs the check of its property against it (development aid).
# usage: tools/revert_fixes.sh [COMMIT...]
here=$(cd "$(dirname "$0")/.." && pwd)
[ $# -gt 0 ] || set -- $(sed -n 's/^fixed: property=P[0-9]* \([0-9a-f]*\) .*/\1/p' "$here/KNOWN_FINDINGS.txt")
for c in "$@"; do
  pid=$(sed -n "s/^fixed: property=\(P[0-9]*\) $c .*/\1/p" "$here/KNOWN_FINDINGS.txt")
  D=$(mktemp -d) || exit 3
  git clone -q /repo "$D/repo" && cd "$D/repo" || exit 3
  if git -c user.name=v -c user.email=v@v revert -n "$c" >/dev/null 2>&1 && go build -o /dev/null ./cmd/j8a 2>/dev/null; then
    mkdir "$D/verif" && (cd "$here" && tar -c --exclude=.git --exclude=evidence --exclude=replays --exclude=seeded .) | tar -x -C "$D/verif"
    out=$(cd "$D/verif" && VERIF_REPO=$D/repo ./check.sh "$pid" 2>&1 | grep -m1 -E "VIOLATION|ERROR|^ok|held")
    echo "$c $pid $(echo "$out" | cut -c1-90)"
  else
    echo "$c $pid (does not revert on its own: later fixes build on it)"
  fi
  cd / && rm -rf "$D"
done
