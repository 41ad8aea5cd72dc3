#!/bin/bash
# par.sh FAM PROF FROM TO [extra]: try.py over 8 processes, merged output
n=$(( ($4-$3+7)/8 )); d=$(mktemp -d)
for i in 0 1 2 3 4 5 6 7; do a=$(($3+i*n)); b=$((a+n)); [ $b -gt $4 ] && b=$4; [ $a -lt $b ] && timeout 3000 /opt/venv/bin/python "$(dirname "$0")"/try.py $1 $2 $a $b > $d/$i 2>&1 & done; wait
grep -hv '^{' $d/* | cut -c1-900; python3 - $d <<'P'
import sys,glob,ast,collections
c=collections.Counter()
for f in glob.glob(sys.argv[1]+'/*'):
    for l in open(f):
        if l.startswith('{'):
            c.update(ast.literal_eval(l))
print(dict(c))
P
/bin/rm -r "$d"
