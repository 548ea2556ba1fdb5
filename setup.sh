#!/bin/bash
# Checks that the simulator's driver builds offline from the committed files.
exec "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/check.sh" properties
