# sourced by demo.sh: builds the parallel library of /repo over the small message layer and demo.cc; needs D (this folder), T (scratch)
mkdir -p "$T/cfg" "$T/o"
sed -e 's/.*ARCH_SCALAR[^_].*//' -e 's/.*ARCH_SCALAR$//' -e 's/.*QDP_USE_LIBXML2.*//' /repo/_build/generic/include/qdp_config_internal.h > "$T/cfg/qdp_config_internal.h"
printf '#undef ARCH_SCALAR\n#define ARCH_PARSCALAR 1\n#define QDP_USE_LIBXML2 1\n' >> "$T/cfg/qdp_config_internal.h"
FL="-std=gnu++17 -O1 -msse2 -w -include cstring -include cstdint -include array -I$T/cfg -I$D -I/repo/include"
for n in ${PSLIB:-map subset random layout io byteorder util stdio profile strnlen crc32 stopwatch rannyu default_allocator generic_threadbind parscalar_init parscalar_layout parscalar_specific scalarsite_specific xmlio iogauge qdpio qio_strings map_obj_disk}; do
  echo "/repo/lib/qdp_$n.cc"; done > "$T/l"
ls "$D"/*.cc >> "$T/l"
xargs -P 8 -I{} sh -c 'g++ '"$FL"' -c {} -o '"$T"'/o/$(basename {}).o || exit 255' < "$T/l" || { echo "demo does not build"; exit 3; }
g++ "$T"/o/*.o -o "$T/demo"
