PROP=dict(title='Capitalisation extraction records the case of words and keeps the rest',
 statement="apertium-extract-caps replaces every lexical unit by its first reading (with -s also its surface form) and adds the capitalisation of surface form and lemma as the last entry c:SURFACE/LEMMA of the unit's word-bound blank, keeping the entries that were there. aa, Aa and AA are told apart by the first and last letter. All blanks, superblanks, escapes and null characters are passed through unchanged.",
 quantifier=dict(over=['inputs'],text='every stream of lexical units with any number of readings, joined lemmas, word-bound blanks and escapes, and blanks and flushes between them, within the bounds'),
 why_tests_cant='The tests feed single units with a fixed casing; they have no blanks, no word-bound blanks, no escapes, no second unit and no flush.',
 anchors=dict(files=['apertium/apertium_extract_caps.cc'],mechanism=[{'name': 'unit reading', 'where': 'apertium/apertium_extract_caps.cc: read_lu, read_until_slash'},{'name': 'case of the lemma', 'where': 'apertium/apertium_extract_caps.cc: lemma_case'}],observe_at=['standard output of apertium-extract-caps']))
X=["apertium/apertium_extract_caps.cc"]
CHECK=dict(budget={"quick":75,"thorough":700},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides on every path whether the output equals an independently computed one",
 bounds='2 units (thorough: 3) of up to 2 symbolic letters per surface form and lemma incl. escapes and non-ASCII, up to 2 readings and 2 joined lemmas, word-bound blanks of up to 2 entries, 7 kinds of blanks incl. double flushes',
 jobs=[J("e1p","capsext",X,1,nw=1,bl=1,sl=1,ll=1,pt=3,wb=1,nr=2,sd="aB",ld="aB"),J("e2","capsext",X,2,nw=2,bl=6,sl=1,ll=1,pt=1,wb=2,nr=2,sd="aB\\",ld="aB"),J("e1","capsext",X,2,nw=1,bl=2,sl=3,ll=1,wb=1,nr=3,pt=2,ld="aB\\"),J("e1w","capsext",X,2,nw=1,bl=7,sl=1,ll=2,wb=3,nr=3,pt=1),J("e1s","capsext",X,1,nw=1,bl=2,sl=2,ll=2,wb=3,nr=3,pt=2,s=1,tg=2),J("e2s","capsext",X,1,nw=2,bl=2,sl=2,ll=2,wb=1,nr=1,pt=2,s=1,sd="aB",ld="aB"),J("e3","capsext",X,2,nw=3,bl=3,sl=1,ll=1,wb=2,nr=1,pt=1,sd="aB",ld="aB"),
  J("e1l","capsext",X,2,tier="thorough",nw=1,bl=7,sl=3,ll=2,wb=3,nr=3,pt=2),J("e2l","capsext",X,4,tier="thorough",nw=2,bl=7,sl=2,ll=2,wb=3,nr=3,pt=2),J("e3l","capsext",X,4,tier="thorough",nw=3,bl=4,sl=2,ll=1,wb=2,nr=3,pt=1)])
