PROP=dict(title='Interchunk reorders and edits chunks without touching what is inside',
 statement='apertium-interchunk matches its rules against chunk names and tags only, and applies selection, expressions, blanks and rejection as the rule language says; the contents of every chunk that is output are the exact characters that came in. Chunks no rule covers and all text between chunks come out unchanged.',
 quantifier=dict(over=['inputs', 'programs'],text='every sequence of chunks with symbolic names, tags, contents (braces, carets, dollars and escapes included) and blanks within the bounds'),
 why_tests_cant='The tests run a few fixed streams through one or two rule files; the guarantee quantifies over every stream, so that one character, tag, blank or flush in a place no sample has would break it unnoticed.',
 anchors=dict(files=['apertium/interchunk.cc', 'apertium/interchunk_word.cc', 'apertium/transfer_base.cc'],mechanism=[{'name': 'chunk splitting', 'where': 'apertium/interchunk_word.cc'}, {'name': 'rule execution', 'where': 'apertium/interchunk.cc: evalCachedString, processLet, processChunk, transfer loop'}],observe_at=['standard output of apertium-interchunk']))
CHECK=dict(budget={"quick":75,"thorough":700},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds='2 chunks with 2-letter names, up to 2 tags and one symbolic content character; 3 chunks with blanks of 5 kinds; -w; rule file inter.t2x; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections',
 jobs=[TI(f"{f}{s}",rules=f"gen:2:{f}:{s}:22",nw=4,dup=2,nt=-2,nl=1,td="SP",td1="ABCDFGHIJKLMOQRTUVWXYZ",nd="aB",iw=0) for f,s in [(f,s) for f in ("cond","let","vars","case","clip") for s in range(1,3)]]+[TI("ik",rules="gen:2:clip:5:10",nw=2,nt=2,nl=1,td="SPQ",td1="ABCDFGHIJKS",nd="a",iw=1,ik=1),TI("ik2",rules="gen:2:inter:6:6",nw=2,nt=-1,nl=1,td="S",td1="ABC",nd="a",iw=2,ik=2,ld="a")]+[TI(f"g{s}",rules=f"gen:2:inter:{s}:22",nw=6,dup=3,nt=1,nl=1,td="SP",td1="ABCDFGHIJKLMOQRTUVWXYZ",nd="u") for s in range(1,9)]+[TI(f"gt{s}",rules=f"gen:2:inter:{s}:10",nw=2,nt=2,nl=2,td="SPT",td1="ABCDFGHIJK",nd="aB",iw=1) for s in range(9,12)]+[TI(f"G{s}",rules=f"gen:2:inter:{s}:22",tier="thorough",nw=6,dup=3,nt=2,nl=2,td="SP",td1="ABCDFGHIJKLMOQRTUVWXYZ",nd="uU") for s in range(20,50)]+[TI("i2",nw=2,nt=2,td="SPT",nd="uUn"),TI("iw",nw=2,nt=1,w=1,z=1,td="SPT",nd="uUn"),TI("i3",6,tier="thorough",bs="a}",nw=3,nt=1,nl=1,bl=4,iw=0,td="SP",nd="uU"),TI("i3t",2,nw=3,nt=2,nl=1,iw=0,td="SP",nd="un"),
  TI("i3b",6,tier="thorough",nw=3,nt=1,nl=1,bl=5,iw=0,td="SP",nd="uU"),TI("i4",3,tier="thorough",nw=4,nt=1,nl=1,iw=0,td="SPT",nd="un"),TI("i2l",2,tier="thorough",nw=2,nt=3,nl=3,iw=2,td="SPT",nd="uUn")])
