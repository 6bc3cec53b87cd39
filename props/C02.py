PROP=dict(title="Posttransfer only collapses runs of spaces",
 statement="apertium-posttransfer writes exactly its input with every run of consecutive space characters replaced by one space; all other characters, including null characters, other white space and characters outside the basic plane, come through unchanged and in order (U+FFFF, the platform's own end-of-input mark, aside).",
 quantifier=dict(over=["inputs","configurations"],text="every input character sequence, with and without null flushing"),
 why_tests_cant="There is no test of this tool; the guarantee is about every interleaving of spaces with every other kind of character.",
 anchors=dict(files=["apertium/apertium_posttransfer.cc"],mechanism=[dict(name="space squeezing filter",where="apertium/apertium_posttransfer.cc: processStream")],observe_at=["standard output of apertium-posttransfer"]))
S=["apertium/apertium_posttransfer.cc"]
CHECK=dict(budget={"quick":30,"thorough":300},bounds="all inputs of 6 (thorough 8) symbols from 15 representative characters",
 jobs=[J("p6","posttransfer",S,len=6),J("p6z","posttransfer",S,len=6,z=1),J("p8","posttransfer",S,5,"thorough",len=8),J("p0","posttransfer",S,len=1)])
