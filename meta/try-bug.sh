#!/bin/bash
# try-bug.sh ID [CHECK...]: the seeded bug ID builds, passes the stable tests, fails its demo; which checks see it
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
D=/verif/seeded/$1; id=$1; shift
[ $# = 0 ] && set -- $(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $D/meta.json)
[ -n "$NODEMO" ] || { bash /opt/vp/build.sh >/tmp/bug.log 2>&1; bash $D/demo.sh >/tmp/demo0.log 2>&1 && echo "$id: demo ok unchanged" || { echo "$id: DEMO FAILS UNCHANGED"; tail -5 /tmp/demo0.log; }; }
git apply $D/patch.diff || exit 2
if bash /opt/vp/build.sh >/tmp/bug.log 2>&1; then
  bash $D/demo.sh >/tmp/demo1.log 2>&1 && echo "$id: DEMO PASSES CHANGED" || echo "$id: demo fails changed: $(tail -1 /tmp/demo1.log)"
  [ -n "$NOTEST" ] || bash /verif/meta/test-repo.sh | grep stable
  for c in "$@"; do (cd /verif; ./check $c >/tmp/bug-$c.log 2>&1; echo "$id: check $c exit $? $(grep -a VIOLATION /tmp/bug-$c.log | head -1)"); done
else echo "$id: BUILD FAILS"; fi
git checkout -q -- . ; bash /opt/vp/build.sh >/tmp/bug.log 2>&1
