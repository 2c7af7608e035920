#!/bin/bash
# Builds the verifier from /verif/gover.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$here/bin" "$here/evidence"
cd "$here/gover" && go build -o "$here/bin/gover" . 
