PROP=dict(title='Sequence rules applied to a tagger model are obeyed',
 statement="With a model to which apertium-tagger-apply-new-rules has applied a tagger definition, no text is tagged with a sequence of two tags that the definition forbids, or one whose second tag is not among those its enforce rule lists, unless every choice of readings has one or is one the model rules out. Among the remaining choices the one the original model scores highest, after normalising each row of transition probabilities, is chosen.",
 quantifier=dict(over=['inputs','programs'],text='every sequence of up to three words of the menu, for definition files with forbid and enforce rules, alone and together'),
 why_tests_cant='No test applies rules to a model; a rule lost or applied to the wrong pair shows only for ambiguous words in the right order.',
 anchors=dict(files=['apertium/apertium_tagger_apply_new_rules.cc','apertium/tsx_reader.cc','apertium/hmm.cc','apertium/tagger_data_hmm.cc'],mechanism=[{'name':'rules','where':'TSXReader::procForbid, procEnforce; HMM::apply_rules'},{'name':'stored model','where':'TaggerDataHMM::read, write'}],observe_at=['standard output of apertium-tagger with the new model']))
TG=["apertium/"+x for x in "apertium_tagger.cc tagger.cc a.cc align.cc analysis.cc collection.cc constant_manager.cc endian_double_util.cc exception_type.cc feature_vec.cc feature_vec_averager.cc file_morpho_stream.cc file_tagger.cc hmm.cc i.cc lemma.cc linebreak.cc lswpost.cc morpheme.cc morpho_stream.cc mtx_reader.cc perceptron_spec.cc perceptron_tagger.cc sentence_stream.cc shell_utils.cc stream.cc stream_tagger.cc tagger_data.cc tagger_data_hmm.cc tagger_data_lsw.cc tagger_data_percep_coarse_tags.cc tagger_flags.cc tagger_utils.cc tagger_word.cc tsx_reader.cc unigram_tagger.cc xml_reader.cc apertium_re.cc".split()]
TG=["apertium/apertium_tagger_apply_new_rules.cc"]+TG
def JT(n,tsx,menu,w=1,**k): return J(n,"tag",TG,w,nolib=1,prep="tg",menu=menu,tsx=tsx,train=5,defs=["-DNEWRULES"],**k)
ALL=",".join(map(str,range(24)))
CHECK=dict(budget={"quick":90,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides on every path whether the output is one that an independent evaluation of rules and model scores highest",
 bounds='three definition files (six forbid rules; one forbid and three enforce rules; four enforce rules) applied to the model of rules/tg; sequences of up to 3 words out of 24 (4 in the thorough run)',
 jobs=[JT("f2","n1.tsx",ALL,1,nu=2),JT("f3","n1.tsx","0,1,2,3,5,6,8,11,15,21,22",2,nu=3),JT("m3","n2.tsx","0,1,2,3,5,6,8,9,11,15,21,22",2,nu=3),JT("m2","n2.tsx",ALL,1,nu=2),JT("e2","n3.tsx",ALL,1,nu=2),JT("e3","n3.tsx","0,1,2,3,4,5,6,8,15,21,22",2,nu=3),
  JT("f3l","n1.tsx",ALL,3,tier="thorough",nu=3),JT("m3l","n2.tsx",ALL,3,tier="thorough",nu=3),JT("e3l","n3.tsx",ALL,3,tier="thorough",nu=3)])
