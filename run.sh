#!/bin/bash
# run.sh PROPERTY [TIER]  : build the harness against /repo's working tree and run the checks of a property
# run.sh replay FILE      : re-run one case file
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed.
set -u
root=$(cd "$(dirname "$0")" && pwd)
. "$root/harness/env.sh"
what=${1:?usage: run.sh PROPERTY [TIER] | run.sh replay FILE}
scratch=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 2
trap 'rm -rf -- "$scratch"' EXIT
cd "$root/harness" || exit 2
CGO_ENABLED=0 go build -o "$scratch/vh-main" . || { echo "build failed" >&2; exit 2; }
prop=$what
if [ "$what" = replay ]; then
	prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
fi
for mode in $("$scratch/vh-main" modes "$prop"); do
	case $mode in
	race) CGO_ENABLED=1 go build -race -o "$scratch/vh-race" . ;;
	386) GOARCH=386 CGO_ENABLED=0 go build -o "$scratch/vh-386" . ;;
	esac || { echo "build failed ($mode)" >&2; exit 2; }
done
case $prop in
C26) GOARCH=386 CGO_ENABLED=0 go build -o "$scratch/vh-386" . || { echo "build failed (386)" >&2; exit 2; } ;;
C23) CGO_ENABLED=0 go build -o "$scratch/vh-gzip" github.com/chronos-tachyon/flate/cmd/gzip || { echo "build failed (gzip)" >&2; exit 2; } ;;
esac
if [ "$what" = replay ]; then
	"$scratch/vh-main" replay "$2" "$root" "$scratch"
else
	"$scratch/vh-main" run "$prop" "${2:-${VERIF_TIER:-quick}}" "$root" "$scratch"
fi
