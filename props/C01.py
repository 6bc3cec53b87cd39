PROP=dict(title="Pretransfer splits joined lexical units and changes nothing else",
 statement="For every well-formed stream, apertium-pretransfer copies all text, superblanks, escapes and null characters between lexical units unchanged and in order, and replaces each unit by its joined parts as separate units (joined units separated by a space, or by nothing for ~ when compounds are requested), with the invariable queue moved in front of the first tags and the word-bound blank repeated on each part. With -n it first discards the surface form. It terminates, without a crash, on every input whatsoever.",
 quantifier=dict(over=["inputs","configurations"],text="every stream over the format's alphabet, including escapes, nested specials, word-bound blanks, non-BMP characters and truncated or malformed input; every combination of -n, -e and -z"),
 why_tests_cant="The tests run a handful of fixed streams; the guarantee quantifies over every placement of escapes, separators, queues, blanks and truncation points, whose interplay is what breaks.",
 anchors=dict(files=["apertium/pretransfer.cc","apertium/apertium_pretransfer.cc"],mechanism=[dict(name="stream copier and lexical unit rewriter",where="apertium/pretransfer.cc: processStream, procWord, storeAndWriteWblank")],observe_at=["standard output of apertium-pretransfer"]))
PT=["apertium/apertium_pretransfer.cc","apertium/pretransfer.cc"]
CHECK=dict(budget={"quick":60,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides output equality with an independent reference on every path",
 bounds="raw streams of 4 (thorough 6) arbitrary symbols from 12; structured streams of one lexical unit with up to 3 joined parts, queue, tags, a leading text/superblank/word-bound blank/escape, a following unit; all letters symbolic incl. escapes and non-BMP",
 jobs=[J("raw4","pretransfer",PT,raw=1,len=4), J("rawn4","pretransfer",PT,raw=1,len=4,n=1), J("lu","pretransfer",PT,3), J("lun","pretransfer",PT,6,n=1), J("lue","pretransfer",PT,5,e=1), J("rawe6","pretransfer",PT,6,tier="thorough",raw=1,len=6,e=1),J("raw6z","pretransfer",PT,6,tier="thorough",raw=1,len=6,z=0)])
