#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
re(){ printf '%b' "$2" > $d/in; timeout 20 apertium/apertium-re$1 < $d/in > $d/out; printf '%b' "$3" > $d/exp; if ! cmp -s $d/out $d/exp; then echo "got: $(cat $d/out)"; echo "want: $(cat $d/exp)"; exit 1; fi; }
re txt 'a[\\\\\\@ ]b' 'a\\@ b'
re txt 'a[\\@ ]b' 'a@ b'
