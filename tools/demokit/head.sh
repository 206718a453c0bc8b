#!/bin/bash
# exit 0: property holds; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
