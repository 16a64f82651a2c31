cd /verif; for p in $(ls sa/props | grep -o '^c[0-9][0-9]' | tr c C); do echo $p; done | xargs -P 8 -I{} sh -c 'timeout 1000 python3 check.py {} > /tmp/o.{} 2>&1; echo rc=$? $(grep obligations /tmp/o.{} | tail -1)' | sort
