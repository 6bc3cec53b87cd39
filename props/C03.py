PROP=dict(title="Cleanstream keeps lexical units verbatim and drops the rest",
 statement="For every well-formed stream, apertium-cleanstream writes each lexical unit unchanged and in order and replaces what lies between units by separators only: one for each superblank (followed by the superblank itself with -b) and one before a unit that follows other text; with -n the separator is a newline, every unit starts a line and the output ends with a newline. It terminates without a crash on every input.",
 quantifier=dict(over=["inputs","configurations"],text="every stream over the format's alphabet with escapes inside and outside units and superblanks, non-BMP characters, malformed and truncated input; with and without -n and -b"),
 why_tests_cant="Five fixed streams are tested; escapes, empty blanks, adjacency and truncation combine in ways no list of examples covers.",
 anchors=dict(files=["apertium/apertium_cleanstream.cc"],mechanism=[dict(name="token extraction loop",where="apertium/apertium_cleanstream.cc: main")],observe_at=["standard output of apertium-cleanstream"]))
S=["apertium/apertium_cleanstream.cc"]
CHECK=dict(budget={"quick":50,"thorough":400},bounds="structured streams of up to 3 (thorough 4) elements (unit of 1-3 letters, text letter, superblank) with symbolic letters and escapes; raw inputs of 5 (thorough 6) symbols",
 jobs=[J("s3","cleanstream",S,3,len=3,dump=1),J("s3n","cleanstream",S,2,len=3,n=1),J("s3b","cleanstream",S,2,len=3,b=1),J("r5","cleanstream",S,2,raw=1,len=5),J("r5nb","cleanstream",S,2,raw=1,len=5,n=1,b=1),J("s4","cleanstream",S,9,"thorough",len=4,b=1),J("r6","cleanstream",S,5,"thorough",raw=1,len=6)])
