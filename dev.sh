#!/bin/bash
# dev.sh BIN SCEN N [seed]: run N seeds on 8 cores, summary
B=/verif/build/dev/$1/$1; S=$2; N=$3; s0=${4:-1}
for k in 0 1 2 3 4 5 6 7; do $B hashes --scenario $S --seed $((s0+k*N/8)) --n $((N/8)) --cpu $k > /tmp/hs.$k 2>/dev/null & done; wait
cat /tmp/hs.? | cut -d' ' -f3,5- | sort | uniq -c | sort -rn | head -20
cat /tmp/hs.? | awk '$3!=1' | head -${5:-6}
awk '{s+=$4} END {print "avg points", s/NR}' /tmp/hs.?
