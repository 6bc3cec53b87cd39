PROP=dict(title='Transfer applies the longest matching rule, left to right',
 statement='apertium-transfer reads the lexical units from left to right and at each point applies the rule with the longest matching pattern, the first such rule in the file when several are equally long; a unit no rule covers is output as its translation. A pattern item matches exactly the words whose lemma (compared without upper case) and tag sequence match one of its category items, wildcards included.',
 quantifier=dict(over=['inputs', 'programs'],text='every sequence of lexical units within the bounds, matched against rule files with overlapping, nested, wildcard and lemma-specific categories; also after an arbitrarily placed long prefix'),
 why_tests_cant='The tests run a few fixed streams through one or two rule files; the guarantee quantifies over every stream, so that one character, tag, blank or flush in a place no sample has would break it unnoticed.',
 anchors=dict(files=['apertium/transfer.cc', 'apertium/transfer_base.cc', 'apertium/trx_reader.cc', 'apertium/transfer_data.cc', 'apertium/transferpp.cc'],mechanism=[{'name': 'token loop, longest match and back-off', 'where': 'apertium/transfer.cc: Transfer::transfer, applyWord, applyRule'}, {'name': 'pattern compilation', 'where': 'apertium/trx_reader.cc, apertium/transfer_data.cc'}],observe_at=['standard output of apertium-transfer']))
CHECK=dict(budget={"quick":60,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds="2 words of 2-letter lemmas and up to 2 tags; 3 words with up to 2 tags (thorough 4); symbolic lemma letters and tags over the rule file's alphabet; 3 symbolic words behind 1022 concrete ones so that the token buffer wraps; rule file rules/match.t1x; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections",
 jobs=[TT(f"m{s}",f"gen:1:match:{s}:8",nw=3,tags=2,ld="abA",td="nv",tld="sp",ld2="x") for s in range(1,5)]+[TT(f"mb{s}",f"gen:1:match:{s}:10",nw=6,tags=-1,ld="ab",td="nv",ld2="x") for s in range(1,4)]+[TT(f"mw{s}",f"gen:1:match:{s}:8",nw=2,wb=1,ll=2,tags=2,ld="abAB",td="nv",tld="sp",ld2="x") for s in range(5,9)]+[TI(f"mi{s}",rules=f"gen:2:match:{s}:8",nw=3,nt=2,nl=1,td="SPs",nd="abA",iw=0) for s in range(1,3)]+[TT("mcw","match.t1x",nw=2,wb=1,ll=2,tags=1,ld="aAB\\",td="n")]+[TT(f"M{s}",f"gen:1:match:{s}:12",2,tier="thorough",nw=4,tags=2,ld="abA",td="nv",tld="sp",ld2="x",wb=1) for s in range(10,20)]+[TT("m2","match.t1x",2,nw=2,ll=2,tags=2,ld="abB\\e"),TT("m3","match.t1x",2,nw=3,tags=2,ld="abB"),TT("ms","match.t1x",nw=2,tags=2,td="nv/",tld="sp/",ld="a\\",tt=1),TT("m3u","match.t1x",nw=3,tags=2,ld="ab",unk=1,tq=1),
  TT("wrap","match.t1x",nw=3,tags=-2,tld="s",ld="a",ld2="x",rep=1022,steps=60000000),
  TT("m4","match.t1x",4,tier="thorough",nw=4,tags=2,ld="ab"),TT("m2l","match.t1x",4,tier="thorough",nw=2,ll=3,tags=3,ld="abB\\e"),TT("wrap2","match.t1x",2,tier="thorough",nw=4,tags=-2,tld="sp",ld="ab",ld2="x",rep=1021,steps=60000000)])
