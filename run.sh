#!/bin/bash
# run.sh PROPERTY quick|thorough   search for violations of a property in /repo's working tree
# run.sh replay FILE [v]           repeat a recorded run (v: with every step)
# run.sh seed PROFILE FROM TO [v]  perform the runs of some seeds
# run.sh build OUT                 only build the simulator
cd "$(dirname "$0")" || exit 3
VERIF=$PWD
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
REPO=${VERIF_REPO:-/repo}
W=$(mktemp -d /tmp/vsim-build-XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
python3 - "$VERIF" "$REPO" > "$W/overlay.json" <<'P'
import json, glob, os, sys
verif, repo = sys.argv[1:]
print(json.dumps({"Replace": {f"{repo}/verifsim/{os.path.basename(f)}": f
                              for f in glob.glob(verif + "/sim/*.go")}}))
P
(cd "$REPO" && go build -buildvcs=false -overlay "$W/overlay.json" -tags verif -o "$W/raw" ./verifsim) || { echo "the simulator does not build against $REPO"; exit 3; }
"$W/raw" patch "$W/raw" "$W/sim" || exit 3
rm -f "$W/raw"
case "$1" in
build) cp "$W/sim" "$2" ;;
replay | seed) "$W/sim" "$@" ;;
*) "$W/sim" check "$1" "${2:-quick}" "$VERIF" ;;
esac
