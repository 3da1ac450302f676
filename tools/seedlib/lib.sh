# demo helper: build sgrid's main and utility code from ./src as a library in a scratch folder,
# link it with a C file and run the result.   usage:  . lib.sh; run_c demo.c [args]
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
LIBS="-lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas -lm"
DEFS="-DLIBSGRID -DNONICOFUNCS -DLEVEL6_Pragmas -DTOPLEVEL_Pragmas -DUMFPACK -DSUITESPARSEQR -DLAPACK -DCBLAS -DFFTW3 -DGSL"
mklib() {
  mkdir -p "$W/t/exe" "$W/t/src" "$W/t/src/Demo"
  cp -a "$REPO/src/main" "$REPO/src/utility" "$W/t/src/"
  cp "$REPO/Makefile" "$REPO/Makefile.subdirs" "$W/t/"
  # a physics module that calls demo_init (if set) while modules are initialised
  printf 'NAME := Demo\nOBJS := sgrid_$(NAME).o\ninclude $(TOP)/Makefile.subdirs\n' > "$W/t/src/Demo/Makefile"
  echo '/* Demo.h */' > "$W/t/src/Demo/Demo.h"
  printf 'int sgrid_Demo(void);\nextern int (*demo_init)(void);\n' > "$W/t/src/Demo/sgrid_Demo.h"
  printf '#include "sgrid.h"\nint (*demo_init)(void) = 0;\nint sgrid_Demo(void) { return demo_init ? demo_init() : 0; }\n' > "$W/t/src/Demo/sgrid_Demo.c"
  rm -f "$W"/t/src/main/main/sgrid_automatic_*
  find "$W/t/src" -name '*.m' -exec touch -d 2000-01-01 {} +
  { for m in s2kit GridIterators LinAlg; do echo "libpaths += src/utility/$m"; done; echo "libpaths += src/Demo"
    printf 'EXEC = sgrid\nEXECDIR = $(TOP)/exe\nCC = gcc\nCXX = g++\nCLINKER = g++\n'
    echo "OFLAGS = -O1 -g -fopenmp -w $DEMO_FLAGS"
    echo "DFLAGS += $DEFS"
    echo 'SPECIALINCS += -I/usr/include/suitesparse'
    echo "SPECIALLIBS += $LIBS"; } > "$W/t/MyConfig"
  make -C "$W/t" -j8 SHELL=/bin/bash .SHELLFLAGS=-ec > "$W/log" 2>&1
  ls "$W"/t/lib/*.a > /dev/null || { tail -20 "$W/log"; echo "demo: no library"; exit 3; }
}
run_c() {
  local c=$1; shift
  mklib
  gcc -g -O1 -fopenmp -w $DEMO_FLAGS $DEFS -I"$W/t/src/main/main" -I"$W/t/src/main/MemoryMan" -I/usr/include/suitesparse \
      -c "$HERE/$c" -o "$W/demo.o" || exit 3
  g++ -fopenmp $DEMO_FLAGS -o "$W/demo" "$W/demo.o" -Wl,--start-group "$W"/t/lib/*.a -Wl,--end-group $LIBS -ldl || exit 3
  cd "$W"
  timeout 120 "$W/demo" "$@" > "$W/out" 2>&1
  local rc=$?
  tail -5 "$W/out"
  return $rc
}
