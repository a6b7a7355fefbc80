#!/bin/sh
# tryrevert.sh COMMIT PROP: does the check report the defect again if the fix is reverted? (scratch copy)
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d /tmp/tryrevert-XXXXXX)
git clone -q /repo "$w/r"
if git -C "$w/r" -c user.name=x -c user.email=x@x revert -n "$1" >/dev/null 2>&1; then
    cp -a "$here" "$w/v"
    VERIF_REPO="$w/r" "$w/v/run.sh" check "$2" > "$w/out" 2>&1
    echo "$1 $2 exit $? $(grep -A1 '^run' "$w/out" | head -2 | cut -c1-160 | tr '\n' ' ')"
else
    echo "$1 $2 does not revert cleanly"
fi
rm -rf "$w"
