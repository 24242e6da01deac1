#!/bin/bash
# short report of one check (development helper)
cd "$(dirname "$0")/.."; bash check.sh "$@" 2>&1 | grep -v '^ *inputs' | cut -c1-${W:-230} | awk '!/^VIOLATION/{print} /^VIOLATION/{n++} END{if(n)print n" violations"}' | tail -${N:-25}
