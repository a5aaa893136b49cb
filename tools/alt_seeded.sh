#!/bin/bash
# dev tool: alt_seeded.sh [-j N] [-x 'flags'] ID...: each bug against the check of its property, in scratch copies
j=2; x='-workers 4'
while getopts j:x: o; do case $o in j) j=$OPTARG;; x) x=$OPTARG;; esac; done; shift $((OPTIND-1))
for id in "$@"; do echo $id; done | xargs -P $j -I{} bash -c 'p=$(sed -n "s/.*\"property\": \"\(C[0-9]*\)\".*/\1/p" /verif/seeded/{}/meta.json); timeout 1500 python3 /verif/tools/alt.py -p $p -x "'"$x"'" /verif/seeded/{}/patch.diff'
