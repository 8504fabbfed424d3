#!/bin/bash
# show.sh PROP: short view of the rejected events
for f in $(ls "$(dirname "$0")"/../replay/$1/v*.txt 2>/dev/null | head -${2:-4}); do echo "== $f"; sed -n 2,3p $f | cut -c1-300; grep -B1 -e '#->' $f | cut -c1-${3:-500}; done
