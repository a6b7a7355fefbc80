#!/bin/sh
# trybug.sh ID [PROP...]: run the checks (default: the planted property's) against the planted bug, from a scratch copy
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
w=$(mktemp -d /tmp/trybug-XXXXXX)
git clone -q /repo "$w/r" && git -C "$w/r" apply "$here/seeded/$id/patch.diff" || { echo "patch does not apply"; rm -rf "$w"; exit 2; }
props=${*:-$(/opt/venv/bin/python -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
cp -a "$here" "$w/v"
for p in $props; do
    VERIF_REPO="$w/r" "$w/v/run.sh" check "$p" > "$w/out" 2>&1
    echo "$id $p exit $? $(grep -c '^VIOLATION' "$w/out") violation; $(tail -1 "$w/out")"
    grep -v '^seed' "$w/out" | head -${LINES_SHOWN:-3} | cut -c1-300
done
rm -rf "$w"
