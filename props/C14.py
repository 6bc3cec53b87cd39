PROP=dict(title='A null flush makes the transfer stages forget everything before it',
 statement='With -z, apertium-transfer, apertium-interchunk and apertium-postchunk write everything read before a null character, then the null character, and treat what follows exactly as a fresh input: variables have their initial values, no pattern matches across the null, no rejected rule, word-bound blank or pending text is carried over.',
 quantifier=dict(over=['inputs', 'histories'],text='every two-segment history of words, chunks, blanks, variable assignments and rejections within the bounds'),
 why_tests_cant='The tests flush between fixed sentences that share no state; the guarantee is about every pair of histories before and after the flush, which only shows when the first segment leaves something behind.',
 anchors=dict(files=['apertium/transfer.cc', 'apertium/interchunk.cc', 'apertium/postchunk.cc'],mechanism=[{'name': 'null-flush wrappers', 'where': 'transfer_wrapper_null_flush, interchunk_wrapper_null_flush, postchunk_wrapper_null_flush'}, {'name': 'state reset', 'where': 'tmp_clear and member resets in the three drivers'}],observe_at=['standard output of the three programs with -z']))
CHECK=dict(budget={"quick":80,"thorough":700},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds='two segments of 1-2 words or chunks each, every rule file of the transfer properties, symbolic lemmas, tags, word-bound blanks, blanks of 3-4 kinds; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections',
 jobs=[TT("vt","gen:1:vars:7:22",nw=4,dup=2,nul=2,z=1,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp"),TI("vi",rules="gen:2:vars:8:22",nw=4,dup=2,nul=2,z=1,nt=-1,nl=1,td="SP",td1="ABCDFGHIJKLMOQRTUVWXYZ",nd="uU",iw=0),TP("vp","gen:3:vars:9:22",nw=2,dup=1,nul=1,z=1,iw=-2,nt=-1,nl=1,nd1="abcdfghijklmoqrtuvwxyzABCF",tn=-1,num=1),TT("vc","gen:c:vars:7:22",nw=4,dup=2,nul=2,z=1,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp")]+[TT(f"g{s}",f"gen:1:expr:{s}:22",nw=6,dup=3,nul=3,z=1,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp") for s in range(30,34)]+[TP(f"gp{s}",f"gen:3:post:{s}:22",nw=2,dup=1,nul=1,z=1,iw=-2,nt=-1,nl=1,nd1="abcdfghijklmoqrtuvwxyzABCF",tn=-1,num=1) for s in range(30,34)]+[TI(f"gi{s}",rules=f"gen:2:inter:{s}:22",nw=6,dup=3,nul=3,z=1,nt=-1,nl=1,td="SP",td1="ABCDFGHIJKLMOQRTUVWXYZ",nd="uU") for s in range(30,33)]+[TT(f"gw{s}",f"gen:1:wb:{s}:18",nw=4,dup=2,nul=2,z=1,wb=1,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="a",ld2="xY",tld="s") for s in range(30,32)]+[TT("tm","match.t1x",nw=3,tags=2,ld="a",nul=1,z=1),TT("tv","wb.t1x",nw=3,tags=-2,td="nvx",wb=1,nul=1,z=1,ld="a",ld2="x"),TT("ta","assign.t1x",nw=3,nul=2,z=1,tags=1,ld2="x"),
TT("tb","blanks.t1x",5,nw=3,nul=2,z=1,tags=-2,td="nvx",tld="s",bl=3,ld="a",ld2="x"),TT("tr","reject.t1x",nw=4,nul=2,z=1,tags=-2,td="nv",ld="a",ld2="x"),TT("tc","chunk.t1x",nw=2,nul=1,z=1,tags=-2,td="nvx",wb=1,ld2="x"),
TI("i3",2,nw=3,nt=1,nl=1,nd="uU",bl=2,iw=0,td="SP",nul=1,z=1),TI("i2",nw=2,nt=2,td="SPT",nd="uU",nul=1,z=1),
TP("p2","post.t3x",nw=2,iw=1,nt=1,nd="uU",tn=1,num=1,wb=1,nul=1,z=1),TP("d2","post0.t3x",2,bs="a<",nw=2,iw=1,nt=1,nd="uU",tn=1,num=1,wb=1,bl=2,nul=1,z=1),
TT("tbl","blanks.t1x",5,tier="thorough",nw=3,nul=2,z=1,tags=-2,td="nvx",bl=5,ld="a",ld2="x"),TT("tvl","wb.t1x",3,tier="thorough",nw=4,tags=-2,td="nvx",wb=1,nul=2,z=1,ld="a",ld2="x"),TI("i3l",5,tier="thorough",nw=3,nt=1,nl=1,nd="uU",bl=5,iw=0,td="SP",nul=2,z=1)])
