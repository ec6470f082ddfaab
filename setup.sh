#!/bin/bash
# setup_cmd: builds every check once, offline.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
source tools/build.sh
plain=(); san=(); tsan=()
for f in props/c[0-9][0-9].cc; do
  p=$(basename "$f" .cc)
  case "$(cat props/$p.flavour 2>/dev/null)" in san) san+=($p);; tsan) tsan+=($p);; *) plain+=($p);; esac
done
vbuild "" visqol_cli "${plain[@]}" || exit 2
[ ${#san[@]} = 0 ] || vbuild san "${san[@]}" || exit 2
[ ${#tsan[@]} = 0 ] || vbuild tsan "${tsan[@]}" || exit 2
echo built
