PROP=dict(title='Every program of the pipeline ends without crashing on any input',
 statement="Whatever characters a deformatter, reformatter, tagger, pretransfer, cleanstream, word-bound blank or capitalisation program or a transfer stage is given, well-formed or not and wherever they stop, it ends: it does not hang, is not killed by a signal and does not touch memory that is not its own. It may report an error or throw an exception instead of writing output.",
 quantifier=dict(over=['inputs','crash_points'],text='every string of up to 4-6 characters over the characters each program treats specially, and longer skeletons of units, chunks and blanks with any character in the places left open, cut anywhere'),
 why_tests_cant='Tests feed well-formed text; a reader that runs past the end shows only for one particular malformed or truncated input, and then depends on what lies behind it in memory.',
 anchors=dict(files=['apertium/transfer.cc','apertium/postchunk.cc','apertium/interchunk.cc','apertium/stream.cc','apertium/file_morpho_stream.cc','apertium/pretransfer.cc','apertium/caps_restorer.cc','apertium/apertium_extract_caps.cc','apertium/apertium_cleanstream.cc','apertium/wblank-attach.cc','apertium/wblank-detach.cc'],mechanism=[{'name':'readers','where':'readToken, applyWord, applyRule, splitWordsAndBlanks, getVecTags, unchunk, Stream::get, Morpheme::read, Analysis::read, FileMorphoStream'}],observe_at=['exit of the programs']))
TG=["apertium/"+x for x in "apertium_tagger.cc tagger.cc a.cc align.cc analysis.cc collection.cc constant_manager.cc endian_double_util.cc exception_type.cc feature_vec.cc feature_vec_averager.cc file_morpho_stream.cc file_tagger.cc hmm.cc i.cc lemma.cc linebreak.cc lswpost.cc morpheme.cc morpho_stream.cc mtx_reader.cc perceptron_spec.cc perceptron_tagger.cc sentence_stream.cc shell_utils.cc stream.cc stream_tagger.cc tagger_data.cc tagger_data_hmm.cc tagger_data_lsw.cc tagger_data_percep_coarse_tags.cc tagger_flags.cc tagger_utils.cc tagger_word.cc tsx_reader.cc unigram_tagger.cc xml_reader.cc apertium_re.cc".split()]
def R(n,main,src,w=1,**k): return J(n,"raw",src,w,defs=["-DMAIN=%s_main"%main],**k)
A=["apertium/"+x for x in "apertium_restore_caps.cc caps_restorer.cc".split()]
MT=["apertium/apertium-multiple-translations.cc","apertium/transfer_mult.cc"]+TRX[3:]
CHECK=dict(budget={"quick":80,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides memory safety and termination on every path",bounds='inputs of up to 4-6 characters over 8-15 special characters, and skeletons of up to 19 characters of which 4-6 are free, cut at every length (thorough: one or two characters more); one rule file or model per program; FSTProcessor look-ups excluded; library internals (ICU, libxml2, lttoolbox) trusted',
 jobs=[R("ext","apertium_extract_caps",["apertium/apertium_extract_caps.cc"],len=6,args="-s"),R("extz","apertium_extract_caps",["apertium/apertium_extract_caps.cc"],len=5,args="-z",dom="^$/<>[]\\0A"),
 R("res","apertium_restore_caps",A,prep="crx",rules="c1.crx",args="@crx.bin",len=6),
 R("resz","apertium_restore_caps",A,2,prep="crx",rules="c1.crx",args="-z,@crx.bin",tpl="[[c:A?/??^?/?$?",dom="^$/<[]\\0;A"),
 R("g","apertium_tagger",TG,nolib=1,prep="tg",args="-g,@t.prob",len=6,bytes=1),
 R("gz","apertium_tagger",TG,nolib=1,prep="tg",args="-gz,@t.prob",len=5,bytes=1,dom="^$/<>[]\\0Aa"),
 R("gw","apertium_tagger",TG,nolib=1,prep="tg",args="-wg,@lsw.prob",len=5,bytes=1),
 R("gu","apertium_tagger",TG,nolib=1,prep="tg",args="-xg,@p.prob",len=5,bytes=1),
 R("gt","apertium_tagger",TG,nolib=1,prep="tg",args="-gf,@t.prob",tpl="^?a?<n?/?a<v>?$",bytes=1),
 R("xt","apertium_tagger",TG,nolib=1,prep="tg",args="-xg,@p.prob",tpl="^?a?<n?/?a<v>?$",bytes=1),
 R("pre","apertium_pretransfer",["apertium/apertium_pretransfer.cc","apertium/pretransfer.cc"],len=6),
 R("pree","apertium_pretransfer",["apertium/apertium_pretransfer.cc","apertium/pretransfer.cc"],len=5,args="-e,-n,-z",dom="^$/<>[]\\+#~0a"),
 R("cl","apertium_cleanstream",["apertium/apertium_cleanstream.cc"],len=6),
 R("wa","wblank_attach",["apertium/wblank-attach.cc"],len=6),R("wd","wblank_detach",["apertium/wblank-detach.cc"],len=6),R("wdt","wblank_detach",["apertium/wblank-detach.cc"],tpl="[[?]?^a?$?[/]]??"),
 R("t","apertium_transfer",TRX,2,prep="trx",rules="match.t1x",args="-b,@rules.xml,@rules.bin",len=5,dom="^$/<>[]\\a"),
 R("tw","apertium_transfer",TRX,2,prep="trx",rules="match.t1x",args="-b,@rules.xml,@rules.bin",tpl="[[???^a<?/?<?$",dom="^$/<]\\a"),
 R("tn","apertium_transfer",TRX,prep="trx",rules="wb.t1x",args="-n,-z,@rules.xml,@rules.bin",len=5,dom="^$/<[]\\0"),
 R("i","apertium_interchunk",ICH,prep="trx",rules="inter.t2x",args="@rules.xml,@rules.bin",len=5,dom="^$<>[]{}\\a"),
 R("p","apertium_postchunk",PCH,2,prep="trx",rules="post.t3x",args="@rules.xml,@rules.bin",len=5,dom="^$<>[]{}\\a"),
 R("p2","apertium_postchunk",PCH,2,prep="trx",rules="post.t3x",args="@rules.xml,@rules.bin",tpl="^?<t>{?^?<?$?}$",dom="^$<[]}\\a1"),
 R("p3","apertium_postchunk",PCH,2,prep="trx",rules="post0.t3x",args="@rules.xml,@rules.bin",tpl="^a<?>{?[[?^a<?$?}?$",dom="^$<[]}\\a1"),
 R("pw","apertium_postchunk",PCH,2,prep="trx",rules="postw.t3x",args="@rules.xml,@rules.bin",tpl="^?<t>{?^a<?>$?}$",dom="^$<}\\abmn"),
 R("pw0","apertium_postchunk",PCH,2,prep="trx",rules="postw.t3x",args="@rules.xml,@rules.bin",tpl="^?<t>{?}$?^a<t>{?}$",dom="^$<}\\abmn"),
 R("i2","apertium_interchunk",ICH,2,prep="trx",rules="inter.t2x",args="-z,@rules.xml,@rules.bin",tpl="^?<n>{?^?<1$?}?$",dom="^$<[]{}\\0a"),
 R("dh","gen_des_html",["gen:des:html"],1,nolib=1,len=4,dom="<>&;![]-\\\"a"),R("rh","gen_re_html",["gen:re:html"],1,nolib=1,len=5,dom="[]^$\\<a",bytes=1),
 R("dr","gen_des_rtf",["gen:des:rtf"],1,nolib=1,len=4,dom="\\{}'[]u9*a",bytes=1),R("rr","gen_re_rtf",["gen:re:rtf"],1,nolib=1,len=5,dom="[]^$\\{a",bytes=1),
 R("tl","apertium_transfer",TRX,2,prep="trx",rules="wb.t1x",args="-b,@rules.xml,@rules.bin",tpl="?^a<?/?a<?>?$",dom="^$/<[]\\a"),
 R("preL","apertium_pretransfer",["apertium/apertium_pretransfer.cc","apertium/pretransfer.cc"],3,tier="thorough",len=8),R("gL","apertium_tagger",TG,3,tier="thorough",nolib=1,prep="tg",args="-g,@t.prob",len=8,bytes=1),R("xL","apertium_tagger",TG,3,tier="thorough",nolib=1,prep="tg",args="-xg,@p.prob",len=7,bytes=1),
 R("tL","apertium_transfer",TRX,3,tier="thorough",prep="trx",rules="match.t1x",args="-b,@rules.xml,@rules.bin",len=7,dom="^$/<>[]\\a"),R("pL","apertium_postchunk",PCH,3,tier="thorough",prep="trx",rules="post.t3x",args="@rules.xml,@rules.bin",len=7,dom="^$<>[]{}\\a"),R("iL","apertium_interchunk",ICH,3,tier="thorough",prep="trx",rules="inter.t2x",args="@rules.xml,@rules.bin",len=7,dom="^$<>[]{}\\a")])
