#!/bin/bash
# builds the monitors once (every check rebuilds what it needs)
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && cargo build --offline --quiet -p vpure -p vffi -p vkis
