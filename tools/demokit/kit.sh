# Usage (from demo.sh, cwd = the repository): . kit.sh; kit_build "modules" demo.cpp OUT
# Compiles the named parts of the repository's own sources plus demo.cpp.
HERE=$(cd "$(dirname "$0")" && pwd)
WORK=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$WORK"' EXIT
R=$PWD
kit_build() {
  local mods="core/utilities/ core/dynamic_dispatch/ $1"
  local I="-I$HERE/stubs -I$HERE/stubs/kernel-templates -I/usr/include/x86_64-linux-gnu/openblas-pthread"
  for i in source/include $(cd "$R" && find source/core -type d) external/kernel-templates external/Lbfgsb.3.0 \
           external/RALFit external/RALFit/libRALFit/include; do I="$I -I$R/$i"; done
  local D='-DZNVER_MAX=generic -Dgeneric_AVAILABLE -DAOCLDA_VERSION_STRING="AOCL-DA" -DAOCLDA_GIT_COMMIT="unknown" -DINT_LIB="LP64"'
  local F="-w -fopenmp -O1 -mavx2 -mfma $KIT_FLAGS"
  : > "$WORK/list"
  for f in $(grep -oE 'core/[A-Za-z0-9_/.-]+\.(cpp|c)\b' "$R/source/CMakeLists.txt" | sort -u); do
    [ -f "$R/source/$f" ] || continue
    for m in $mods; do case $f in $m*) echo "$f" >> "$WORK/list"; break;; esac; done
  done
  sort -u "$WORK/list" | xargs -P 8 -I{} sh -c '
    f={}; o='"$WORK"'/$(echo $f | tr / _).o
    case $f in *public*|*da_handle*|*fp16_helpers*|*c_wrapper*|*data_management*|*miscellaneous*|*context*|*csv*|*model_pers*) a=;; *) a=-DARCH_generic;; esac
    case $f in *.c) c=gcc;; *) c="g++ -std=c++17";; esac
    $c '"$F $(printf '%s' "$D" | sed 's/"/\\"/g') $I"' $a -c '"$R"'/source/$f -o $o || echo $f >> '"$WORK"'/bad' 2> "$WORK/cc.log"
  if [ -f "$WORK/bad" ]; then tail -5 "$WORK/cc.log"; echo "demo: build failed"; exit 2; fi
  local fo=
  case " $1 " in *optimization*|*nlls*|*linear_model*) fo="$R/_build/libral_nlls_double_lib.a $R/_build/libral_nlls_single_lib.a";; esac
  local ex=; [ -f "$HERE/aoclsparse_stub.cpp" ] && ex="$HERE/aoclsparse_stub.cpp"
  g++ -std=c++17 -no-pie -rdynamic $F -DAOCLDA_VERSION_STRING='"x"' $I "$HERE/$2" $ex "$WORK"/*.o -o "$WORK/$3" $fo \
    -Wl,--allow-shlib-undefined -Wl,--unresolved-symbols=ignore-all -L/usr/lib/x86_64-linux-gnu/openblas-pthread -lopenblas \
    -lgfortran -lpthread -ldl -lm 2> "$WORK/ld.log" || { tail -5 "$WORK/ld.log"; echo "demo: link failed"; exit 2; }
}
