PROP=dict(title='Postchunk unpacks every chunk into its words with the right tags and case',
 statement="apertium-postchunk replaces each chunk by its words: numbered tags become the chunk's tags with that number, words of a cased chunk take its case unless -w is given, and word-bound blanks and the text between words come out unchanged. Chunks matched by a rule are output as the rule language says.",
 quantifier=dict(over=['inputs', 'programs'],text='every chunk with up to 2 words, symbolic lemmas, numbered and plain tags, queues, word-bound blanks and text before, between and after the words, within the bounds'),
 why_tests_cant='The tests run a few fixed streams through one or two rule files; the guarantee quantifies over every stream, so that one character, tag, blank or flush in a place no sample has would break it unnoticed.',
 anchors=dict(files=['apertium/postchunk.cc', 'apertium/interchunk_word.cc', 'apertium/transfer_base.cc'],mechanism=[{'name': 'unpacking', 'where': 'apertium/postchunk.cc: unchunk, splitWordsAndBlanks, pseudolemma, wordZero'}, {'name': 'rules', 'where': 'apertium/postchunk.cc: transfer loop, processLu, processCallMacro'}],observe_at=['standard output of apertium-postchunk']))
CHECK=dict(budget={"quick":90,"thorough":800},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds='1 chunk with up to 2 words of 2-letter lemmas, 2 tags (numbers up to 12), 2 chunk tags, all kinds of inner text; rules with 2 words; 2 chunks with fewer choices. Outside: blanks before the first or after the last word of a chunk that a rule matched; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections',
 jobs=[TP("rh","gen:3:clip:9:6",nw=1,iw=-2,nl=1,nt=-1,nd1="abcABC",ld="aB-",ll=3,tn=-1,num=0)]+[TP("dh","post0.t3x",nw=1,iw=-2,nl=2,nt=-1,nd1="zZ",ld="aB-",ll=3,tn=-1,num=0)]+[TP(f"{f}{s}",f"gen:3:{f}:{s}:22",nw=2,dup=1,iw=-2,nt=-1,nl=1,nd1="abcdfghijklmoqrtuvwxyzABCF",ld="a-",tn=-1,num=1) for f,s in [(f,s) for f in ("cond","let","vars","case","clip") for s in range(1,3)]]+[TP(f"g{s}",f"gen:3:post:{s}:22",nw=2,dup=1,iw=-2,nt=-1,nl=1,nd1="abcdfghijklmoqrtuvwxyzABCF",tn=-1,num=1) for s in range(1,9)]+[TP(f"gw{s}",f"gen:3:wb:{s}:10",nw=1,iw=2,nt=-1,nl=1,wb=1,ib=2,nd1="abcdfghijkABCF",tn=-1,q=1,num=0) for s in range(4,7)]+[TP(f"G{s}",f"gen:3:post:{s}:22",tier="thorough",nw=2,dup=1,iw=2,nt=-1,nl=1,nd1="abcdfghijklmoqrtuvwxyzABCF",tn=-1,q=1,num=1) for s in range(20,50)]+[TP("d1","post0.t3x",6,nw=1,iw=2,nt=2,ll=1,tn=1,num=1,pre=1,post=1,ib=3,ld="aB\\",nd="nN"),TP("D1","post0.t3x",6,tier="thorough",nw=1,iw=2,nt=2,ll=2,tn=1,num=2,pre=1,post=1,wb=1,ib=5,ld="aB\\",nd="nN"),TP("d1t","post0.t3x",3,nw=1,iw=1,nt=3,ll=2,tn=2,num=2,nl=3,nd="nNe",ld="aBe\\"),TP("dw","post0.t3x",2,nw=1,iw=2,nt=1,w=1,tn=1,num=1,wb=1,ib=3,ld="aB",nd="nN"),
  TP("r1","post.t3x",4,nw=1,iw=2,nt=1,nd="uUN",tn=1,num=1,wb=1,ib=2,ld="aB"),TP("r1q","post.t3x",4,nw=1,iw=2,nt=1,nd="uUN",tn=1,num=1,q=1,ld="aB"),TP("r2","post.t3x",2,nw=1,iw=2,nt=1,nd="uUN",tn=2,num=2,ld="aB"),
  TP("r1l","post.t3x",6,tier="thorough",nw=1,iw=2,nt=1,nd="uUN",tn=2,num=2,wb=1,ib=6,q=1,ld="aB"),TP("d3","post0.t3x",6,tier="thorough",nw=1,iw=3,nt=2,ll=1,tn=1,num=2,pre=1,post=1,wb=1,ib=3,ld="aB",nd="nN")])
