PROP=dict(title='Transfer neither loses, repeats nor reorders the blanks between words',
 statement="Whatever rules apply, the blanks between words (text, superblanks, escapes) appear in the output of apertium-transfer exactly once and in input order: at the <b/> elements of the rule, as far as there are blanks, and otherwise right after the rule's output. Only single spaces may disappear or be added.",
 quantifier=dict(over=['inputs', 'programs'],text='every sequence of words and blanks within the bounds, with rules that output fewer, as many or more blanks than they matched, output nothing, put blanks first, last, in macros or in expressions'),
 why_tests_cant='The tests run a few fixed streams through one or two rule files; the guarantee quantifies over every stream, so that one character, tag, blank or flush in a place no sample has would break it unnoticed.',
 anchors=dict(files=['apertium/transfer.cc', 'apertium/transfer_base.cc'],mechanism=[{'name': 'blank queue', 'where': 'apertium/transfer.cc: processOut, evalCachedString (blank), flushing after processRule'}, {'name': 'reading blanks', 'where': 'apertium/transfer.cc: readToken'}],observe_at=['standard output of apertium-transfer']))
CHECK=dict(budget={"quick":75,"thorough":700},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds='3 words with 4 blanks of 5 kinds (space, none, superblank with symbolic content and escapes, text incl. non-BMP and escapes, mixed); 4 words with 2 kinds; rule file blanks.t1x; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections',
 jobs=[TT(f"e{s}",f"gen:1:blank:{s}:6",nw=4,tags=-2,bks="1",bs="ab",td="nvq",td1="ABCDFGZY",ld="a",ld2="x",tld="s") for s in (4,5)]+[TT(f"g{s}",f"gen:1:blank:{s}:6",nw=4,tags=-2,bks="31",bs="ab",td="nvq",td1="ABCDFG",ld="a",ld2="x",tld="s") for s in range(1,4)]+[TI(f"gi{s}",rules=f"gen:2:blank:{s}:6",nw=4,bks="31",bs="ab",nt=-1,nl=1,td="SPq",td1="ABCDFG",nd="u",iw=0) for s in range(1,3)]+[TT(f"G{s}",f"gen:1:blank:{s}:12",tier="thorough",nw=5,tags=-2,bks="31",bs="ab",td="nvq",td1="ABCDFGHIJKLM",ld="a",ld2="x",tld="s") for s in range(10,20)]+[TT("b4","blanks.t1x",nw=4,bs="ab",tags=-2,td="nvx",tld="s",bl=2,ld="a",ld2="x"),TT("b2","blanks.t1x",2,nw=2,tags=-2,td="nvx",bl=3,ld="a",ld2="x"),TT("b2w","blanks.t1x",2,nw=2,tags=-2,td="nvx",bl=5,wb=1,bs="a<",ld="a",ld2="x"),TT("b3","blanks.t1x",5,nw=3,bs="a",tags=-2,tld="s",td="nvx",bl=5,ld="a",ld2="x"),
  TT("b5","blanks.t1x",3,tier="thorough",nw=5,tags=-2,td="nvx",tld="s",bl=2,ld="a",ld2="x"),TT("b4l","blanks.t1x",6,tier="thorough",nw=4,tags=-2,td="nvx",tld="s",bl=3,ld="a",ld2="x")])
