#!/bin/bash
# run all checks against a copy
mkdir -p $2
cd /verif
for i in $(seq -w 1 29); do HIKU_REPO=$1 VERIF_OUT=$2 bash check.sh C$i > $2/C$i.log 2>&1; echo "C$i $?"; done
