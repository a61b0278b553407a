# all.sh seed... : all properties at these seeds
cd /tmp/w
for s in "$@"; do for c in $(seq -w 1 32); do o=$(VERIF_SEED=$s timeout 600 bash r.sh C$c quick 2>&1); echo "$o" | grep -q "VIOLATION\|KNOWN\|panic\|rror:" && { echo "seed $s C$c"; echo "$o" | grep "VIOLATION\|KNOWN\|panic\|rror" | cut -c1-700; }; done; echo done seed $s; done
