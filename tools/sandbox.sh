#!/bin/bash
# sandbox.sh NAME CMD...: runs CMD with private copies of /repo and /verif mounted over them (a mount namespace); results stay in /tmp/w/NAME
N=/tmp/w/$1; shift
mkdir -p $N
[ -d $N/repo ] || cp -a /repo $N/repo
rsync -a --delete --exclude build --exclude evidence /verif/ $N/verif/ 2>/dev/null || { mkdir -p $N/verif; (cd /verif && tar cf - --exclude=./build --exclude=./evidence .) | (cd $N/verif && tar xf -); }
mkdir -p $N/verif/build $N/verif/evidence
exec unshare -m bash -c 'mount --make-rprivate /; mount --bind '$N'/repo /repo && mount --bind '$N'/verif /verif && cd /verif && exec "$@"' x "$@"
