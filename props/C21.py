PROP=dict(title='The readings the tagger chooses are those its model scores highest',
 statement="The sequence of readings apertium-tagger chooses for a text is one its model gives the highest score: transition and emission probabilities for the hidden Markov model, sums over the neighbours' tags for the sliding window, the counts of the training corpus in the chosen formula for the unigram models, feature weights for the perceptron. Preferences, discard rules, unknown words and unseen ambiguity classes are treated as the tagger specification says, and training counts exactly what the corpus shows.",
 quantifier=dict(over=['inputs','programs'],text='every sequence of up to three words of the menu (four in the thorough run), and for the unigram models every small training corpus within the bounds'),
 why_tests_cant='The tests tag a handful of sentences; a wrong index, neighbour, class or count changes the result only for particular sequences of ambiguous words and particular models, so every sequence has to be compared with the best score.',
 anchors=dict(files=['apertium/hmm.cc','apertium/lswpost.cc','apertium/unigram_tagger.cc','apertium/perceptron_tagger.cc','apertium/perceptron_spec.cc','apertium/tagger_utils.cc','apertium/tagger_word.cc','apertium/feature_vec.cc'],mechanism=[{'name':'Viterbi','where':'apertium/hmm.cc: tagger'},{'name':'sliding window','where':'apertium/lswpost.cc: tagger'},{'name':'unigram scores','where':'apertium/unigram_tagger.cc: score, tag'},{'name':'beam search and features','where':'apertium/perceptron_tagger.cc: tagSentence; apertium/perceptron_spec.cc: get_features'},{'name':'ambiguity classes','where':'apertium/tagger_utils.cc: find_similar_ambiguity_class; apertium/tagger_word.cc: discardOnAmbiguity'}],observe_at=['standard output of apertium-tagger -g']))
TG=["apertium/"+x for x in "apertium_tagger.cc tagger.cc a.cc align.cc analysis.cc collection.cc constant_manager.cc endian_double_util.cc exception_type.cc feature_vec.cc feature_vec_averager.cc file_morpho_stream.cc file_tagger.cc hmm.cc i.cc lemma.cc linebreak.cc lswpost.cc morpheme.cc morpho_stream.cc mtx_reader.cc perceptron_spec.cc perceptron_tagger.cc sentence_stream.cc shell_utils.cc stream.cc stream_tagger.cc tagger_data.cc tagger_data_hmm.cc tagger_data_lsw.cc tagger_data_percep_coarse_tags.cc tagger_flags.cc tagger_utils.cc tagger_word.cc tsx_reader.cc unigram_tagger.cc xml_reader.cc apertium_re.cc".split()]
def JT(n,menu,w=1,**k): return J(n,"tag",TG,w,nolib=1,prep="tg",menu=menu,**k)
def JU(n,w=1,**k): return J(n,"uni",TG,w,nolib=1,**k)
ALL=",".join(map(str,range(24)))
CHECK=dict(budget={"quick":100,"thorough":750},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides on every path whether the output is one that an independent exhaustive scorer of the same model ranks highest",
 bounds='models of rules/tg (16 tags, 18 classes; beam 64), for the unigram taggers every corpus of up to two symbolic words on top of six fixed ones; sequences of up to 3 words out of 25 (4 in the thorough run); near-ties within 1e-9 are both accepted',
 jobs=[JT("h-2",ALL,1,nu=2),JT("h-3",ALL,2,nu=3),JT("h-lc",ALL,1,nu=2,lc=1),JT("h-z","0,1,3,5,10,15,20",1,nu=2,nul=1,opt="z"),JT("ht",ALL,1,nu=2,train=4),JT("l-3",ALL,1,nu=3,lsw=1),JT("l-z","0,1,3,5,10,15,20",1,nu=2,lsw=1,nul=1,opt="z"),
  JU("u1",1,model=1,nc=2,ca=2),JU("u2",1,model=2,nc=2,ca=2),JU("u2b",1,model=2,base=2,nc=3,ca=1),JU("u1f",1,model=1,nc=1,ca=3,nt=3,first=1),JU("u33",1,model=3,nc=1,ca=1,cp=3,np=3),JU("u3",2,model=3,nc=1,ca=1,cp=2,np=2),JT("p-2",ALL+",24",1,nu=2,px=1),JT("p-3","0,1,3,5,6,8,10,11,13,21,23,24",2,nu=3,px=1),JT("p-3l",ALL+",24",2,tier="thorough",nu=3,px=1),
  JT("h-4",ALL,4,tier="thorough",nu=4),JT("l-4",ALL,4,tier="thorough",nu=4,lsw=1),JT("p-4",",".join(map(str,[0,1,3,5,6,8,10,11,13,21,23,24])),4,tier="thorough",nu=4,px=1),JU("u3l",4,tier="thorough",model=3,nc=1,ca=2,cp=2,np=2,nt=3),JU("u1l",3,tier="thorough",model=1,nc=3,ca=2,na=3),JU("u2l",3,tier="thorough",model=2,nc=2,ca=2,cp=2,np=2)])
