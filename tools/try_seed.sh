#!/bin/bash
# try_seed.sh ID [tier] [PROP]: run a check against a planted bug. /repo itself is left
# alone: a patched copy is mounted over it in a private mount namespace.
# ID may also be the path of a patch, with PROP given.
id=$1; tier=${2:-quick}
d=/verif/seeded/$id
if [ -d "$d" ]; then
	patch=$d/patch.diff
	prop=${3:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
else
	patch=$1; prop=$3; id=$(basename "$patch" .diff)
fi
w=$(mktemp -d /tmp/try-XXXXXX)
trap 'rm -rf -- "$w"' EXIT
cp -a /repo "$w/repo"
mkdir "$w/verif" && cp -a /verif/go /verif/tools /verif/run.sh /verif/known_findings.txt "$w/verif/" && mkdir "$w/verif/evidence"
git -C "$w/repo" checkout -q -- . 
git -C "$w/repo" apply "$patch" || exit 2
log=/tmp/try-$id-$prop.log
unshare -Urm bash -c "mount --bind '$w/repo' /repo && cd '$w/verif' && timeout 900 ./run.sh $prop $tier" > "$log" 2>&1
rc=$?
echo "$id $prop rc=$rc $(grep -c "^VIOLATION property=$prop" "$log") violations; $(tail -1 "$log" | cut -c1-150)"
