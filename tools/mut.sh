#!/bin/bash
# dev helper: mut.sh PROP NAME FILE 'sed-expr' -- contracts on a mutated scratch copy
D=$(mktemp -d); cp -r /repo/tensornetwork $D/
sed -i "$4" $D/tensornetwork/$3; diff -r /repo/tensornetwork $D/tensornetwork | head -${N:-6}
VERIF_REPO=$D $(dirname $0)/rc.sh $1 "$2"
rm -rf $D
