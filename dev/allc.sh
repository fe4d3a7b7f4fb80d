cd /verif
for i in $(seq -f C%02g ${1:-1} ${2:-26}); do s=$(date +%s); ./check $i > /tmp/out.$i 2>&1; e=$?; echo "$i exit $e $(($(date +%s)-s))s $(grep -E 'NOTE|ERROR' /tmp/out.$i | cut -c1-300)"; done
