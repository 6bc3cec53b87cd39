PROP=dict(title='The tagger keeps one reading of every word and leaves all else alone',
 statement="With every kind of model (hidden Markov, sliding window, unigram, perceptron; stored, retrained or just trained) apertium-tagger writes for each word exactly one of its readings, or the surface form marked unknown when it has none, with the other readings, surface form and ambiguity mark as -f, -p and -m ask. Blanks, superblanks, escapes and the text after the last word come out as they were, and the words of one text never depend on those of another across a null character.",
 quantifier=dict(over=['inputs','programs','histories'],text='every stream of up to three words of the menu with the blanks, escapes and null characters within the bounds, for each kind of model and option set'),
 why_tests_cant='The tests check a few sentences for a plausible result; a lost blank, a null character, a split reading or an option that goes wrong needs particular combinations of model kind, word shape, neighbouring blank and flush position.',
 anchors=dict(files=['apertium/apertium_tagger.cc','apertium/hmm.cc','apertium/lswpost.cc','apertium/tagger_word.cc','apertium/file_morpho_stream.cc','apertium/stream.cc','apertium/stream_tagger.cc','apertium/sentence_stream.cc','apertium/perceptron_tagger.cc','apertium/unigram_tagger.cc'],mechanism=[{'name':'output of a word','where':'apertium/tagger_word.cc: get_lexical_form, get_all_chosen_tag_first; apertium/stream.cc: outputLexicalUnit'},{'name':'reading of words and blanks','where':'apertium/file_morpho_stream.cc: get_next_word; apertium/stream.cc: get'},{'name':'end of a text','where':'apertium/hmm.cc: tagger; apertium/lswpost.cc: tagger; apertium/sentence_stream.cc: SentenceTagger::tag'}],observe_at=['standard output of apertium-tagger -g']))
TG=["apertium/"+x for x in "apertium_tagger.cc tagger.cc a.cc align.cc analysis.cc collection.cc constant_manager.cc endian_double_util.cc exception_type.cc feature_vec.cc feature_vec_averager.cc file_morpho_stream.cc file_tagger.cc hmm.cc i.cc lemma.cc linebreak.cc lswpost.cc morpheme.cc morpho_stream.cc mtx_reader.cc perceptron_spec.cc perceptron_tagger.cc sentence_stream.cc shell_utils.cc stream.cc stream_tagger.cc tagger_data.cc tagger_data_hmm.cc tagger_data_lsw.cc tagger_data_percep_coarse_tags.cc tagger_flags.cc tagger_utils.cc tagger_word.cc tsx_reader.cc unigram_tagger.cc xml_reader.cc apertium_re.cc".split()]
def JT(n,menu,w=1,**k): return J(n,"tag",TG,w,nolib=1,prep="tg",menu=menu,**k)
def JU(n,w=1,**k): return J(n,"uni",TG,w,nolib=1,**k)
ALL=",".join(map(str,range(24)))
CHECK=dict(budget={"quick":110,"thorough":750},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides on every path whether the output is one of those that keep exactly one reading of every word and everything else",
 bounds='a menu of 25 words (ambiguity of up to four readings, unknown, multiwords, joined and split readings, escapes); streams of up to 3 words, 6 kinds of blanks with symbolic characters, one null character at any place, options f, p, m, z; one model of each kind (rules/tg) plus models trained within the run',
 jobs=[JT("h-bl","0,3,9,10,17",2,nu=2,bl=6,choice=0),JT("h-fz","0,3,5,9,10,11,13,21",1,nu=2,opt="fz",nul=1,bl=2,choice=0),JT("h-pm",ALL,1,nu=2,opt="pm",esc=1,choice=0),
  JT("l-z","0,3,9,10,14,17",1,nu=2,lsw=1,opt="z",nul=1,bl=3,choice=0),JT("l-pm",ALL,1,nu=2,lsw=1,opt="pm",bl=2,esc=1,choice=0),
  JT("p-fz","0,3,9,10,24",2,nu=2,px=1,opt="f",nul=1,bl=3,esc=1,choice=0),JT("p-bl","0,3,24,17",1,nu=2,px=1,opt="pm",bl=6,choice=0),
  JU("ub",2,model=1,nc=0,bl=5,nul=1,esc=1,opt="pm",q=1,np=2,choice=0),JU("uf",1,model=1,nc=0,bl=2,nul=1,esc=1,opt="f",q=1,np=2,choice=0),
  JT("xt",ALL,1,nu=1,px=1,train=1,choice=0),JT("xe","0,3,10,24",1,nu=1,px=1,train=1,skip=1,choice=0),JT("hr",ALL,1,nu=1,train=2,choice=0),JT("lr",ALL,1,nu=1,lsw=1,train=3,choice=0),
  JT("h-bl3",ALL,4,tier="thorough",nu=2,bl=6,nul=1,opt="z",choice=0),JT("l-bl3",ALL,4,tier="thorough",nu=2,lsw=1,bl=6,nul=1,opt="z",choice=0),JT("p-bl3",ALL+",24",4,tier="thorough",nu=2,px=1,bl=6,opt="f",nul=1,choice=0),JT("h-4","0,3,5,9,10,11,13,17,21",2,tier="thorough",nu=4,opt="f",choice=0),JU("ub2",3,tier="thorough",model=2,nc=1,nu=2,bl=5,nul=1,esc=1,opt="fm",q=1,np=2,choice=0)])
