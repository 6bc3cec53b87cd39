PROP=dict(title="Word-bound blanks are attached and detached without loss",
 statement="Attaching rewrites every well-formed stream so that each lexical unit is preceded by one merged word-bound blank holding, in opening order and without duplicates, exactly the entries of the blanks open around it, with opening and closing marks removed and all else copied unchanged; closing marks end the innermost open blank, surplus ones are ignored, and a null character ends all of them. Detaching copies the stream unchanged and adds one closing mark after each unit that a word-bound blank precedes. Neither tool crashes or hangs on any input.",
 quantifier=dict(over=["inputs"],text="every stream with nested, overlapping, duplicate, empty and unclosed word-bound blanks, escapes anywhere, superblanks and null characters, plus malformed input"),
 why_tests_cant="Neither tool has a test; nesting, deduplication, escapes and null flushes interact over whole histories of openings and closings.",
 anchors=dict(files=["apertium/wblank-attach.cc","apertium/wblank-detach.cc"],mechanism=[dict(name="stack of open word-bound blanks",where="apertium/wblank-attach.cc: main"),dict(name="closing marks",where="apertium/wblank-detach.cc: main")],observe_at=["standard output of apertium-wblank-attach and apertium-wblank-detach"]))
A=["apertium/wblank-attach.cc","apertium/wblank-detach.cc"]
CHECK=dict(budget={"quick":100,"thorough":800},bounds="structured streams of 3 (thorough 4) elements with rich symbolic contents and of 5 (thorough 7) elements with lean contents, blanks nested to that depth; raw inputs of 5 (thorough 7) symbols",
 jobs=[J("a3","wblank",A,7,len=3),J("a5l","wblank",A,8,len=5,lean=1),J("d3","wblank",A,7,len=3,det=1),J("d4l","wblank",A,2,len=4,det=1,lean=1),J("ar5","wblank",A,2,raw=1,len=5),J("dr5","wblank",A,2,raw=1,len=5,det=1),J("a3w","wblank",A,20,"thorough",len=3,wl=3),J("a4","wblank",A,20,"thorough",len=4),J("a7l","wblank",A,20,"thorough",len=7,lean=1),J("ar7","wblank",A,9,"thorough",raw=1,len=7)])
