PROP=dict(title='Transfer expressions and instructions compute what the rule says',
 statement='Inside a rule, clip, lit, lit-tag, var, concat, get-case-from, case-of, the comparisons, let, append, modify-case, choose and macro calls have exactly the effect the rule language gives them: an attribute names the part of the word with one of the listed tag sequences, assignments replace that part and nothing else, and variables keep their value until the next flush. With -w the case of the output is never changed.',
 quantifier=dict(over=['inputs', 'programs'],text='every word within the bounds against rule files that exercise each comparison (caseless or not), each part (whole, lem, lemh, lemq, tags, attributes with overlapping multi-tag values), assignments, macros with swapped parameters and nested choices'),
 why_tests_cant='The tests run a few fixed streams through one or two rule files; the guarantee quantifies over every stream, so that one character, tag, blank or flush in a place no sample has would break it unnoticed.',
 anchors=dict(files=['apertium/transfer.cc', 'apertium/transfer_base.cc', 'apertium/apertium_re.cc', 'apertium/transfer_word.cc', 'apertium/transfer_regex.cc'],mechanism=[{'name': 'expression evaluation', 'where': 'apertium/transfer.cc: evalCachedString, processLet, processModifyCase, processCallMacro'}, {'name': 'tests', 'where': 'apertium/transfer_base.cc: processTest, processEqual, processIn, ...'}, {'name': 'attribute regular expressions', 'where': 'apertium/transfer_regex.cc, apertium/apertium_re.cc'}],observe_at=['standard output of apertium-transfer']))
CHECK=dict(budget={"quick":75,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides equality with an independent reference interpreter of the rule language on every path",
 bounds='1 word with 2-letter lemmas on both sides, up to 2 target tags, multiword queues; 2 words; attributes: target tags of up to 2 characters, 3 tags, over a 7-letter alphabet with regex characters; rule files expr, assign, attr; besides, generated rule files (rulegen.py) with broad mixes of instructions, lookahead, macros and rejections',
 jobs=[TT(f"lt{s}",f"gen:1:let:{s}:22",nw=4,dup=2,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="a",ld2="x",tld="s",tt=1) for s in (4,5,6)]+[TT(f"{f}{s}",f"gen:1:{f}:{s}:22",nw=6,dup=3,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp") for f,s in [(f,s) for f in ("cond","let","vars","case","clip") for s in range(1,4)]]+[TT(f"L{f}{s}",f"gen:1:{f}:{s}:22",tier="thorough",nw=6,dup=3,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp",ll=2,tl=2) for f,s in [(f,s) for f in ("cond","let","vars","case","clip") for s in range(1,9)]]+[TT(f"g{s}",f"gen:1:expr:{s}:22",nw=6,dup=3,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp") for s in range(1,11)]+[TT(f"t{s}",f"gen:1:expr:{s}:10",nw=4,dup=2,tags=-2,td="nv",td1="ABCDFGHIJK",ld="aB",ld2="xY",tld="sp",tt=2,q=1,tq=1) for s in range(11,14)]+[TT(f"G{s}",f"gen:1:expr:{s}:22",tier="thorough",nw=6,dup=3,tags=-2,td="nv",td1="ABCDFGHIJKLMOQRTUVWXYZ",ld="aB",ld2="xY",tld="sp",ll=2,tl=2,tt=1) for s in range(20,60)]+[TT("e1","expr.t1x",nw=1,ll=2,tl=2,tags=1,tt=2,td="nvx"),TT("e1l","expr.t1x",2,nw=1,ll=3,tl=2,tags=1,tt=2,td="nvx",ld="aAbB",ld2="xXyY"),TT("e2","expr.t1x",nw=2,ll=1,tl=1,tags=1,td="nvx"),
  TT("a1","assign.t1x",nw=1,ll=2,tl=2,tags=1,td="n",tt=2,q=2,tq=2,ld="aBe"),TT("a2","assign.t1x",nw=2,tags=1,tt=2,q=1,tq=1),TT("a2w","assign.t1x",nw=2,tags=1,w=1,tt=2),
  TT("at","attr.t1x",6,nw=1,tags=-1,td="sgp1+-",tld="sgp1",tw=2,tt=3,ld="a",ld2="x"),
  TT("rf","ref.t1x",nw=1,tags=-2,td="nv",ref=3,ld="aB",ld2="xY",wb=1),TT("rf2","ref.t1x",nw=2,tags=-2,td="nv",ref=3,ld="aB",ld2="x"),
  TT("e3","expr.t1x",3,tier="thorough",nw=3,ll=2,tl=2,tags=1,td="nvx"),TT("a3","assign.t1x",3,tier="thorough",nw=3,tags=1,tt=2,q=1,tq=1,ld2="xY"),TT("at2","attr.t1x",6,tier="thorough",nw=1,tags=2,td="sgp1+-",tld="sgp1",tw=2,tt=3,ld="a",ld2="x")])
