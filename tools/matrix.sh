#!/bin/bash
# matrix.sh [ID...]: for each seeded change, its property's quick check on the patched tree. Works on committed copies
# of /repo and /verif, bound over both in a mount namespace of its own, so neither is touched.
if [ -z "$MATRIX" ]; then
	T=$(mktemp -d /tmp/matrix.XXXXXX) || exit 2
	trap 'rm -rf "$T"' EXIT
	git clone -q /repo "$T/repo" && git clone -q "$(cd "$(dirname "$0")/.." && pwd)" "$T/verif" || exit 2
	MATRIX=$T unshare -Urm bash "$T/verif/tools/matrix.sh" "$@"
	exit
fi
mount --bind "$MATRIX/repo" /repo && mount --bind "$MATRIX/verif" /verif && cd /verif || exit 2
for i in ${@:-$(ls seeded)}; do
	p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
	git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
	o=$(VERIF_SEED=1 bash check.sh "$p" quick 2>&1); r=$?
	git -C /repo checkout -q -- .
	if [ $r = 1 ] && grep -q "VIOLATION property=$p" <<<"$o"; then echo "$i: caught by $p"; else echo "$i: MISSED by $p (exit $r) $(tail -2 <<<"$o")"; fi
done
