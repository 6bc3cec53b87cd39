PROP=dict(title='Transfer keeps word-bound blanks with the words they came from',
 statement="apertium-transfer gives each output lexical unit the word-bound blanks of the input words whose lemma (or whole form) it was built from, directly or through a variable, joined in order; a rule matching a single word puts that word's blank on every unit it outputs. Nothing else changes a word-bound blank, and none moves to an unrelated unit or past a flush.",
 quantifier=dict(over=['inputs', 'programs'],text='every assignment of (or absence of) symbolic word-bound blanks to the words within the bounds, with rules that reorder, merge, split and drop words and keep words in variables'),
 why_tests_cant='The tests run a few fixed streams through one or two rule files; the guarantee quantifies over every stream, so that one character, tag, blank or flush in a place no sample has would break it unnoticed.',
 anchors=dict(files=['apertium/transfer.cc', 'apertium/transfer_base.cc', 'apertium/transfer_word.cc'],mechanism=[{'name': 'collecting blanks while a unit is built', 'where': 'apertium/transfer.cc: processLu, processMlu, evalCachedString, processLet, processAppend'}, {'name': 'reading', 'where': 'apertium/transfer.cc: readToken, applyWord'}],observe_at=['standard output of apertium-transfer']))
CHECK=dict(budget={"quick":60,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds='2 words with word-bound blanks of up to 2 symbolic characters incl. escapes; 3 words with one symbolic character; rule file wb.t1x; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections',
 jobs=[TT(f"g{s}",f"gen:1:wb:{s}:18",nw=4,dup=2,wb=1,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="a",ld2="xY",tld="s") for s in range(1,9)]+[TP(f"gp{s}",f"gen:3:wb:{s}:10",nw=1,iw=2,nt=-1,nl=1,wb=1,ib=2,nd1="abcdfghijkABCF",tn=-1,q=1,num=0) for s in range(1,4)]+[TT(f"G{s}",f"gen:1:wb:{s}:22",tier="thorough",nw=6,dup=3,wb=1,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="a",ld2="xY",tld="s",tq=1) for s in range(20,40)]+[TT("w2","wb.t1x",nw=2,tags=-2,td="nvx",wb=2,ld="a",ld2="x"),TT("w3","wb.t1x",2,nw=3,tags=-2,td="nvx",wb=1,ld="aB",ld2="xY"),TT("w3c","chunk.t1x",nw=2,tags=-2,td="nvx",wb=2,ld="aB",ld2="xY"),TT("w3a","assign.t1x",nw=3,tags=1,wb=1,ld="aB",ld2="x"),
  TT("w4","wb.t1x",2,tier="thorough",nw=4,tags=-2,td="nvx",wb=1,ld="aB",ld2="xY"),TT("w3b","wb.t1x",6,tier="thorough",nw=3,tags=-2,td="nvx",wb=2,bl=3,ld="a",ld2="x")])
