# Sourced: vbuild FLAVOUR TARGET...   (flavour: empty, san, tsan or fuzz)
# Sets BUILD. Rebuilds whenever the content of /repo's sources changed, whatever
# their modification times say.
vbuild() {
  local flavour=$1; shift
  local repo=${VERIF_REPO:-/repo} opts="" log
  BUILD=$here/build${flavour:+-$flavour}
  [ "$repo" = /repo ] || BUILD=$BUILD-$(echo "$repo" | md5sum | cut -c1-8)
  local cxx=/usr/bin/g++
  case "$flavour" in fuzz) opts=-DVERIF_FUZZ=ON; cxx=/usr/bin/clang++;; san) opts=-DVERIF_SAN=ON;; tsan) opts=-DVERIF_TSAN=ON;; esac
  local flags=-O2; [ "$flavour" = san -o "$flavour" = fuzz ] && flags="-O1 -g1"; [ "$flavour" = tsan ] && flags="-O2 -g1"
  mkdir -p "$BUILD"
  exec 9>"$BUILD/.lock"; flock 9
  log=$BUILD/build.log
  local sum
  sum=$(cd "$repo" && find src python -type f \( -name '*.cc' -o -name '*.h' -o -name '*.proto' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  if [ "$(cat "$BUILD/.sum" 2>/dev/null)" != "$sum" ] && [ -f "$BUILD/build.ninja" ]; then
    rm -rf "$BUILD/CMakeFiles/vq_obj.dir" "$BUILD/CMakeFiles/pb.dir" "$BUILD/CMakeFiles/visqol_cli.dir" "$BUILD/gen"
    rm -rf "$BUILD"/CMakeFiles/c[0-9][0-9].dir
    rm -f "$BUILD/.ninja_deps"
  fi
  if ! { cmake -S "$here" -B "$BUILD" -G Ninja -DREPO="$repo" -DCMAKE_CXX_COMPILER=$cxx \
           -DCMAKE_BUILD_TYPE=None "-DCMAKE_CXX_FLAGS=$flags" $opts && ninja -C "$BUILD" "$@"; } >"$log" 2>&1; then
    echo "build failed:"; tail -n 60 "$log"
    exec 9>&-
    return 2
  fi
  echo "$sum" > "$BUILD/.sum"
  exec 9>&-
}
