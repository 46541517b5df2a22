# usage: seedcheck.sh patch check [test]
d=/tmp/sc.$$; cp -a /repo $d; git -C $d apply $1; cd /verif; HIKU_REPO=$d VERIF_OUT=/tmp/osc bash check.sh $2 ${3:+--test $3} 2>&1 | tail -4; rm -rf $d
