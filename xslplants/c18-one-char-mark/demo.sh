#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
ds(){ printf '%b' "$2" > $d/in; timeout 20 apertium/apertium-des$1 $4 < $d/in > $d/mid; printf '%b' "$3" > $d/exp; if ! cmp -s $d/mid $d/exp; then echo "got: $(cat $d/mid)"; echo "want: $(cat $d/exp)"; exit 1; fi; }
ds txt "a\nb" "a.[][\n]b.[]" -i
ds txt "a\n\nb" "a.[][\n\n]b.[]" -i
