PROP=dict(title='A rejected rule gives its words back to the remaining rules',
 statement='When a rule rejects itself, the words it matched are read again: with no shifting every rule except the ones already rejected there is tried on the same words, with shifting the given number of words is skipped and matching starts anew after them. No word that is not skipped is lost or processed twice, blanks between them stay in place, and processing always goes on to the end.',
 quantifier=dict(over=['inputs', 'programs'],text='every sequence of words within the bounds against rules that reject with shifting no, yes and by number, after having written output or changed variables or not, nested in choices'),
 why_tests_cant='The tests run a few fixed streams through one or two rule files; the guarantee quantifies over every stream, so that one character, tag, blank or flush in a place no sample has would break it unnoticed.',
 anchors=dict(files=['apertium/transfer.cc', 'apertium/transfer_base.cc', 'apertium/interchunk.cc'],mechanism=[{'name': 'rejection', 'where': 'apertium/transfer_base.cc: processRule, processRejectCurrentRule; apertium/transfer.cc and interchunk.cc: transfer loop, banned rules'}],observe_at=['standard output of apertium-transfer', 'standard output of apertium-interchunk']))
CHECK=dict(budget={"quick":60,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds='3 words with blanks of 3 kinds and 5 words with single spaces for transfer, 3 chunks for interchunk; rule files reject.t1x, inter.t2x. Outside: shifting by more words than the rule matched; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections',
 jobs=[TT(f"g{s}",f"gen:1:reject:{s}:16",nw=5,tags=-2,td="nvq",td1="ABCDFGHIJKLMOQRTv",ld="a",ld2="xY",tld="s") for s in range(1,7)]+[TT(f"gb{s}",f"gen:1:reject:{s}:4",nw=4,bks="31",bs="ab",tags=-2,td="nvq",td1="ABCD",ld="a",ld2="x",tld="s") for s in range(1,3)]+[TI(f"gi{s}",rules=f"gen:2:reject:{s}:16",nw=5,nt=-1,nl=1,td="SPq",td1="ABCDFGHIJKLMOQRTP",nd="uU",iw=0) for s in range(1,7)]+[TT(f"G{s}",f"gen:1:reject:{s}:16",tier="thorough",nw=6,tags=-2,td="nvq",td1="ABCDFGHIJKLMOQRTv",ld="a",ld2="xY",tld="s") for s in range(10,25)]+[TI(f"GI{s}",rules=f"gen:2:reject:{s}:16",tier="thorough",nw=6,nt=-1,nl=1,td="SPq",td1="ABCDFGHIJKLMOQRTP",nd="uU",iw=0) for s in range(10,25)]+[TT("r3","reject.t1x",3,bs="ab",nw=3,tags=-2,td="nv",bl=3,ld="a",ld2="x"),TT("r5","reject.t1x",nw=5,tags=-2,td="nv",ld="a",ld2="x"),TT("r4","reject.t1x",nw=4,tags=-2,td="nv",wb=1,ld="a",ld2="x"),TI("ri3",2,nw=3,nt=1,nl=2,iw=0,td="SPT",nd="un"),TT("rw","reject.t1x",nw=4,tags=-2,td="nv",ld="a",ld2="x",rep=1021,steps=60000000),
  TT("r6","reject.t1x",2,tier="thorough",nw=6,tags=-2,td="nv",ld="a",ld2="x"),TT("r4b","reject.t1x",2,tier="thorough",nw=4,tags=-2,td="nv",bl=4,ld="a",ld2="x"),TI("ri4",2,tier="thorough",nw=4,nt=1,nl=2,iw=0,td="SPT",nd="un")])
