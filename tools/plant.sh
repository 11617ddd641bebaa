#!/bin/bash
# plant.sh SPEC.py [id..]: plant.py on copies of /repo, /verif and /opt/vp (in a
# mount namespace of its own), the result copied to /verif/seeded
s=/tmp/pl; mkdir -p $s
rsync=; for d in repo verif; do mkdir -p $s/$d; done
rm -rf /tmp/pl/verif; cp -a /verif $s/verif
if [ -d $s/repo/target ]; then
  # keep the build products, take the sources as they are
  (cd /repo && git ls-files -z | xargs -0 cp --parents -pu -t $s/repo)
  rm -rf /tmp/pl/repo/.git; cp -a /repo/.git $s/repo/.git; git -C $s/repo checkout -q -- .
else
  rm -rf /tmp/pl/repo; cp -a /repo $s/repo
fi
rm -rf /tmp/pl/vp; cp -a /opt/vp $s/vp
spec=$(realpath "$1"); shift
cp "$spec" $s/spec.py
unshare -m bash -c "
mount --bind $s/repo /repo && mount --bind $s/verif /verif && mount --bind $s/vp /opt/vp || exit 3
python3 /verif/tools/plant.py $s/spec.py $*"
cp -a $s/verif/seeded/. /verif/seeded/
