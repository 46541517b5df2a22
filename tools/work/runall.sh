# usage: runall.sh seed
cd /verif
for i in $(seq -w 1 29); do
  bash check.sh C$i --seed $1 > /tmp/ra.$i.out 2>&1; rc=$?
  if [ $rc != 0 ]; then echo "C$i rc=$rc"; grep -a -E "VIOLATION|test " /tmp/ra.$i.out | head -3; fi
done; echo done seed $1
