cd /verif; for i in "$@"; do s=$(date +%s); SYMX_EVIDENCE=/tmp/ev2 ./check $i > /tmp/out2.$i 2>&1; e=$?; echo "$i exit $e $(($(date +%s)-s))s $(grep -E 'NOTE|ERROR|VIOL|real build' /tmp/out2.$i | cut -c1-300)"; done
