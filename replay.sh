#!/bin/bash
# Rebuild the natively compiled harness named in a replay file from /repo's
# current sources and run the recorded inputs against it.
exec python3 "$(dirname "$0")/replay.py" "$@"
