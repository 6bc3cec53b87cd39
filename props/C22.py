PROP=dict(title='Multiple translations are written out as every combination, once each',
 statement="For every longest sequence of words that a rule pattern matches (or else every single word) apertium-multiple-translations writes each combination of the words' translations exactly once: one plainly, several as [{]...[|]....[][}], a translation marked as default first, and only those marked with __ where a word has two of them. Words, escapes and the blanks inside and between sequences are kept, and the program ends on input that stops anywhere.",
 quantifier=dict(over=['inputs','crash_points'],text='every sequence of words of the menu (one to three translations, marked, unknown, escaped, with queue) and of blanks within the bounds, and every prefix of such a text'),
 why_tests_cant='No test runs this program; its output depends on the interplay of longest match, the number of translations of each word and the blanks between them.',
 anchors=dict(files=['apertium/transfer_mult.cc','apertium/apertium-multiple-translations.cc'],mechanism=[{'name':'sequence matching','where':'TransferMult::transfer, applyRule'},{'name':'combinations','where':'TransferMult::writeMultiple, acceptions'}],observe_at=['standard output of apertium-multiple-translations']))
X=["apertium/apertium-multiple-translations.cc","apertium/transfer_mult.cc"]+TRX[3:]
def JM(n,w=1,**k): return J(n,"mult",X,w,prep="mult",**k)
CHECK=dict(budget={"quick":60,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides on every path whether the output equals an independently computed one",
 bounds='a menu of 13 words, patterns of one to three words; up to 3 words (thorough 5), 5 kinds of blanks with symbolic characters, every cut; the bilingual lookup of lttoolbox is a table of its answers to the menu',
 jobs=[JM("m2",1,nw=2,bl=3),JM("m3",2,nw=3,bl=1),JM("m4",2,nw=4,bl=1,menu="abcei"),JM("b3",2,nw=3,bl=5,menu="bcd"),JM("c1",1,nw=2,bl=5,cut=1,menu="ach"),
  JM("m4l",3,tier="thorough",nw=4,bl=1),JM("m5l",3,tier="thorough",nw=5,bl=1,menu="abcdei"),JM("b3l",3,tier="thorough",nw=3,bl=5,menu="abcdh"),JM("c3l",2,tier="thorough",nw=3,bl=5,cut=1,menu="abch")])
