#!/bin/bash
# run.sh <property> <quick|thorough>: builds the engine when needed and runs one check against /repo.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-quick}"
bin="$here/bin/gosym"
if ! bash "$here/setup.sh" >/tmp/gosym-setup.$$ 2>&1; then
  cat /tmp/gosym-setup.$$; rm -f /tmp/gosym-setup.$$; exit 3
fi
rm -f /tmp/gosym-setup.$$
exec "$bin" check -prop "$prop" -tier "$tier" -root "$here"
