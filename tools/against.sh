#!/bin/bash
# tools/against.sh TREE PROPERTY... : development aid; runs checks against a scratch tree instead of /repo
# (the registered checks always run against /repo).  Prints one line per property; replays are left in
# /tmp/against.replays.
set -u
tree=$(cd "$1" && pwd); shift
v=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/against.XXXXXX)
trap 'rm -rf -- "$w"' EXIT
cp -a "$v/run.sh" "$v/harness" "$w/"
[ -n "${NOCORPUS:-}" ] || cp -a "$v/corpus" "$w/" 2>/dev/null
sed -i "s#=> /repo#=> $tree#" "$w/harness/go.mod"
for p in "$@"; do
	out=$(cd "$w" && bash run.sh "$p" "${TIER:-quick}" 2>&1); st=$?
	echo "== $p exit=$st"; echo "$out" | grep -v '^ *[0-9]* [a-z]' | head -${LINES_MAX:-6} | cut -c1-400
	mkdir -p /tmp/against.replays; cp "$w"/replays/* /tmp/against.replays/ 2>/dev/null
done
