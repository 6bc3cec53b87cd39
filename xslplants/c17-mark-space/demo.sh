#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
rt(){ printf '%b' "$2" > $d/in; timeout 20 apertium/apertium-des$1 $3 < $d/in > $d/mid && timeout 20 apertium/apertium-re$1 < $d/mid > $d/out; if ! cmp -s $d/in $d/out; then echo "$1 $3: $(cat $d/mid)"; od -c $d/out; exit 1; fi; }
rt txt "One.  Two.\n"
rt txt "a b.\n\n" 
