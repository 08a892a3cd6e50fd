#!/bin/bash
# check.sh <property> [quick|thorough] : rebuild from /repo's working tree and explore.
# check.sh replay <file>              : replay a recorded violation.
# check.sh build                      : only build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/sim" || exit 2
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"
    echo "check.sh: the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
bin="$here/sim/target/release/mokasim"
case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$bin" replay "$2" ;;
    *) if [ -n "${2:-}" ]; then export VERIF_TIER="$2"; fi
       exec "$bin" check "$1" ;;
esac
