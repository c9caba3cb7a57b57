#!/bin/bash
# tryseed.sh ID PROP NEEDS WHAT: the change in /repo's working tree becomes seeded/ID if it builds, passes
# the tests and its demo fails; then the demo must pass without it.
cd /verif; mkdir -p seeded/$1
[ -f seeded/$1/demo.sh ] || { cp tools/demo_template.sh seeded/$1/demo.sh; chmod +x seeded/$1/demo.sh; }
grep -q "mod sim" seeded/$1/demo.rs && cp tools/demo/sim.rs seeded/$1/
(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json) > /tmp/tryseed.log 2>&1
tail -1 /tmp/tryseed.log
bash seeded/$1/demo.sh > /tmp/demo.log 2>&1; r=$?; echo "with the change: demo exits $r"; tail -3 /tmp/demo.log
python3 tools/mkseed.py "$@"
bash /opt/vp/build.sh > /tmp/tryseed.log 2>&1
bash seeded/$1/demo.sh > /tmp/demo.log 2>&1; r=$?; echo "without: demo exits $r"; tail -3 /tmp/demo.log
