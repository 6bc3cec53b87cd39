PROP=dict(title="Chunks made by transfer carry the rule's name, case, tags and words",
 statement="With chunk output, each chunk a rule writes has the name given (or the variable named), in the case of the variable given, the rule's chunk tags, and between braces exactly the units and blanks the rule lists, with linked attributes replaced by their number; words no rule covers become default chunks and unknown words unknown chunks around the same unit.",
 quantifier=dict(over=['inputs', 'programs'],text='every sequence of words, unknown ones included, within the bounds, for rules with fixed, variable and cased chunk names, linked tags, several chunks per rule and joined units'),
 why_tests_cant='The tests run a few fixed streams through one or two rule files; the guarantee quantifies over every stream, so that one character, tag, blank or flush in a place no sample has would break it unnoticed.',
 anchors=dict(files=['apertium/transfer.cc', 'apertium/transfer_base.cc'],mechanism=[{'name': 'chunk output', 'where': 'apertium/transfer.cc: processChunk, processTags, evalCachedString (link-to)'}, {'name': 'default chunks', 'where': 'apertium/transfer.cc: Transfer::transfer'}],observe_at=['standard output of apertium-transfer']))
CHECK=dict(budget={"quick":60,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds='1 word with 2-letter lemmas in upper or lower case, 2 words, symbolic tags, word-bound blanks, unknown words; rule file chunk.t1x; with and without -w; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections',
 jobs=[TT(f"{f}{s}",f"gen:c:{f}:{s}:22",nw=6,dup=3,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp") for f,s in [(f,s) for f in ("cond","let","vars","case","clip") for s in range(1,2)]]+[TT("u","chunk.t1x",nw=2,tags=-2,td="nvx",unk=2,ld="aB",ld2="xY")]+[TT(f"g{s}",f"gen:c:chunk:{s}:22",nw=6,dup=3,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp") for s in range(1,9)]+[TT(f"gw{s}",f"gen:c:wb:{s}:10",nw=2,wb=1,tags=-2,td="nv",td1="ABCDFGHIJK",ld="aB",ld2="xY",tld="s",ll=2) for s in range(1,4)]+[TT(f"G{s}",f"gen:c:chunk:{s}:22",tier="thorough",nw=6,dup=3,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp",ll=2,tl=2,tt=1) for s in range(20,50)]+[TT("c1","chunk.t1x",nw=1,tags=-2,td="nvx",ll=2,tl=2,wb=1,unk=1,ld="aBeE"),TT("c2","chunk.t1x",nw=2,tags=-2,td="nvx",ll=1,tl=2,wb=1,unk=1),TT("c2b","chunk.t1x",2,bs="a<",nw=2,tags=-2,td="nvx",bl=4,unk=1,ld="aB",ld2="xY"),TT("c2w","chunk.t1x",nw=2,tags=-2,td="nvx",ll=2,tl=2,w=1),TT("cn","chunk.t1x",nw=2,n=1,tags=-2,td="nvx",ll=2,bl=2),
  TT("c3","chunk.t1x",3,tier="thorough",nw=3,tags=-2,td="nvx",ll=2,tl=2,wb=1,unk=1,ld="aBE",ld2="xY"),TT("c3b","chunk.t1x",3,tier="thorough",nw=3,tags=-2,td="nvx",bl=4,unk=1,ld="aB",ld2="xY")])
