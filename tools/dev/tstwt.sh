# run tests of /tmp/wt by rsync into /repo? no: use git patch
cd /tmp/wt && git diff HEAD > /tmp/wt.patch && cd /repo && git status --short | grep -v '^??' && exit 1
git -C /repo apply --index /tmp/wt.patch && bash /tmp/tst.sh
