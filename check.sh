#!/bin/bash
# check.sh ID: decides one property against /repo's working tree.   check.sh --replay FILE: runs a recorded case again.
# The harness is a separate module that replaces github.com/akito0107/xsqlparser by /repo, so every run compiles /repo
# as it is. VERIF_SEED and VERIF_TIER (quick, thorough) as in MANIFEST.json.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
export VERIF_DIR="$here"
tmp=$(mktemp -d) || exit 2
child=
trap 'rm -rf "$tmp"' EXIT
trap '[ -n "$child" ] && kill -TERM "$child" 2>/dev/null; wait "$child" 2>/dev/null; exit 2' TERM INT
cp "$here"/harness/go.mod "$here"/harness/go.sum "$tmp"/
flags=
[ "$1" = C24 ] && flags="-race -gcflags=all=-d=checkptr=0"
if [ "$1" = --replay ] && grep -q '"property": "C24"' "$2"; then flags="-race -gcflags=all=-d=checkptr=0"; fi
if ! (cd "$here/harness" && go build $flags -modfile="$tmp/go.mod" -o "$tmp/verif" .) >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log" >&2
  echo "the harness does not build against /repo" >&2
  exit 2
fi
export TMPDIR="$tmp"
if [ "$1" = --replay ]; then "$tmp/verif" replay "$2" & else "$tmp/verif" check "$1" & fi
child=$!
wait "$child"
