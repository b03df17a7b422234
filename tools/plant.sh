#!/bin/bash
# plant.sh ID...: for seeded/ID with edit.py (in /tmp/plant/ID/edit.py: edits files below its argv[1]) or an existing patch.diff,
# confirm in a scratch copy that it builds, passes the tests, that the demo tells the trees apart, and what the checks say.
cd /verif
one() {
  id=$1; S=/tmp/plant/$id; D=/verif/seeded/$id; mkdir -p $S $D
  rm -rf "$S/repo"; cp -a /repo "$S/repo"
  if [ -f $S/edit.py ]; then python3 $S/edit.py $S/repo || { echo "$id: EDIT FAILED"; return; }
    git -C $S/repo diff > $D/patch.diff; [ -f $S/demo.py ] && cp $S/demo.py $D/demo.py; [ -f $S/meta.json ] && cp $S/meta.json $D/meta.json
  else git -C $S/repo apply $D/patch.diff || { echo "$id: PATCH FAILED"; return; }; fi
  [ -s $D/patch.diff ] || { echo "$id: EMPTY PATCH"; return; }
  python3 tools/mk_demolib.py $D/demolib.py
  cat > $D/demo.sh <<'X'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && PYTHONPATH="$R/src:$D" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python "$D/demo.py"
X
  (cd /repo && bash $D/demo.sh > $S/demo0.log 2>&1); d0=$?
  (cd $S/repo && bash $D/demo.sh > $S/demo1.log 2>&1); d1=$?
  if [ "$NOTEST" != 1 ]; then
  (cd $S/repo && PYTHONPATH=$S/repo/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests > $S/test.log 2>&1); t=$(tail -1 $S/test.log)
  fi
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  c=$(VERIF_REPO=$S/repo VERIF_EVIDENCE=/tmp/plant/$id VERIF_SEED=${SEED:-1} python3-vt run.py $P 2>&1 | grep -E "^VIOLATION|cases" | tail -1 | cut -c1-120)
  echo "$id [$P]: demo clean=$d0 patched=$d1 | tests: $t | check: $c"
  rm -rf "$S/repo"
}
for i in "$@"; do one $i & while [ $(jobs -r | wc -l) -ge ${J:-4} ]; do sleep 0.5; done; done; wait
