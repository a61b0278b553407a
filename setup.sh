#!/bin/bash
# setup.sh: warms the build cache by building the harness once, with and
# without the race detector. The checks build it again from /repo's tree.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/check.sh" build || exit 1
