EXE=$(head -1 /tmp/libs.txt); L=$(cat /tmp/LIBS)
[ "$1" = gen ] && { $EXE gen $2 $3 ${4:-0}; exit; }
[ "$1" = one ] && { $EXE gen $2 $3 > /tmp/s.txt; shift 3; $EXE run /tmp/s.txt $L "$@"; exit; }
[ "$1" = b ] && { $EXE batch $2 ${5:-0} $3 1 $4 ${6:-60} $L; exit; }
