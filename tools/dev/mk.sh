cd /verif; python3 tools/simbuild.py "$1" ${@:2} > /tmp/libs.txt || { cat /tmp/libs.txt; exit 1; }
awk 'NR>1 && NF==3{printf "%s%s=%s",(c++?",":""),$1,$2}' /tmp/libs.txt > /tmp/LIBS; tail -1 /tmp/libs.txt
