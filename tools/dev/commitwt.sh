# commitwt.sh 'msg' : commit everything tracked in /repo, sync wt
cd /repo && git add -u src && git commit -qm "$1" && git log --oneline | head -1; cd /tmp/wt && git reset -q --hard && git pull -q /repo main
