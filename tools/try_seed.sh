#!/bin/bash
# try_seed.sh ID [PROP]: run the check of a planted bug's property against a scratch copy with the bug
VD=${VD:-$(cd "$(dirname "$0")/.."; pwd)}; D=$VD/seeded/$1; P=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
W=/tmp/tr_$1; rm -rf $W; mkdir -p $W; cp -a /repo/fastvpinns $W/; (cd $W && git init -q . && git apply $D/patch.diff) || exit 9
echo "== $1 $P"; VERIF_REPO=$W python3 $VD/check.py $P --tier ${TIER:-quick} 2>&1 | cut -c1-260; rm -rf $W
