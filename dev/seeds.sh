cd /verif
for i in "$@"; do ./tools_seed.sh $i 2>&1 | tail -4; done
