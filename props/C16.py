PROP=dict(title='Capitalisation restoration applies the weighted rules to every word',
 statement="For every word, apertium-restore-caps adds up the weights of the rules that match it (given the words around it and the capitalisation recorded in its word-bound blank) and writes it as in the dictionary, in lower case, title case or upper case, whichever weighs most (earlier ones win ties). Blanks, null characters and word-bound blanks are kept, but c: entries are dropped unless -k is given, and matching starts afresh after a null character.",
 quantifier=dict(over=['inputs','programs','histories'],text='every stream of words within the bounds, for rule files with lemma, tag, surface and case conditions, sequences, alternatives, repetitions and segment starts'),
 why_tests_cant='The tests run eight short streams through two rule files; a rule applied twice, in the wrong place or over a flush boundary shows only for particular combinations of rules, case patterns and neighbouring words.',
 anchors=dict(files=['apertium/caps_restorer.cc','apertium/caps_compiler.cc','apertium/apertium_restore_caps.cc'],mechanism=[{'name': 'rule matching and weights', 'where': 'apertium/caps_restorer.cc: process, step'},{'name': 'rule compilation', 'where': 'apertium/caps_compiler.cc: compile_match, compile_or, compile_repeat'},{'name': 'choice and output', 'where': 'apertium/caps_restorer.cc: output_all'}],observe_at=['standard output of apertium-restore-caps']))
X=["apertium/apertium_restore_caps.cc","apertium/caps_restorer.cc"]
def JR(n,rules,w=1,**k): return J(n,"capsrest",X,w,prep="crx",rules=rules,**k)
CHECK=dict(budget={"quick":80,"thorough":700},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides on every path whether the output equals that of an independent reference interpreter of the rule language",
 bounds='rule files c1.crx, c2.crx and c3.crx (ties), compiled by the real compiler; streams of 1 to 4 words with symbolic letters, tags and recorded case, 6 shapes of word-bound blanks, 5 kinds of blanks, flushes',
 jobs=[JR("r1","c1.crx",2,nw=1,ll=2,sl=2,wk=2,bl=1),JR("r1w","c1.crx",1,nw=1,ll=1,sl=1,wk=6,bl=5),JR("r1k","c1.crx",1,nw=1,ll=1,sl=2,wk=6,bl=1,k=1),
  JR("q2","c2.crx",1,nw=2,ll=1,sl=1,smin=2,wk=2,bl=1,lcfix=3,ld="aA",sd="aB",td="ns"),
  JR("q3","c2.crx",1,nw=3,ll=1,wk=2,bl=1,ld="aA",sfix=1,lcfix=3,td="ns"),
  JR("q4","c2.crx",3,nw=4,nul=2,ll=1,wk=2,bl=1,ld="aA",sfix=1,lcfix=3,td="s"),
  JR("q2b","c2.crx",1,nw=2,nul=1,ll=1,wk=2,bl=5,ld="A",sfix=1,lcfix=3,td="s"),
  JR("s1","c3.crx",1,nw=1,ll=2,sl=2,wk=3,bl=1,sd="aB"),JR("s3","c3.crx",1,nw=3,ll=1,wk=2,bl=1,ld="aA",sfix=1,lcfix=4,td="ns"),
  JR("r2","c1.crx",1,nw=2,nul=1,ll=1,sl=1,smin=2,wk=2,bl=1,ld="aA",sd="aB",td="n"),
  JR("r2l","c1.crx",4,tier="thorough",nw=2,ll=2,sl=2,wk=6,bl=3),JR("q3l","c2.crx",4,tier="thorough",nw=3,ll=1,sl=2,wk=6,bl=1,ld="aA",sd="aB",td="ns"),JR("q2l","c2.crx",3,tier="thorough",nw=2,ll=1,sl=2,smin=1,wk=3,bl=1,ld="aA",sd="aB",td="ns"),JR("q4l","c2.crx",4,tier="thorough",nw=4,nul=2,ll=1,sl=1,smin=2,wk=2,bl=1,ld="aA",sd="aB",td="ns")])
