# sourced by demo.sh: builds demo.cc against the library in /repo/_build; needs D, T
B=/repo/_build/${CONF:-generic}
g++ -std=gnu++17 -O1 -msse2 -w ${XFL:-} -include cstring -include cstdint -include array -I$B/include -I/repo/include "$D"/demo.cc -o "$T/demo" $B/lib/libqdp.a || { echo "demo does not build"; exit 3; }
