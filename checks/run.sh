#!/bin/bash
# usage: run.sh C01 [quick|thorough]
cd "$(dirname "$0")/.." || exit 2
id=$1; [ -n "$2" ] && export VERIF_TIER=$2
exec python3 checks/$(echo $id | tr A-Z a-z).py
