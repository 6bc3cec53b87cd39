PROP=dict(title='The transfer stages end cleanly on input that stops anywhere',
 statement='apertium-transfer, apertium-interchunk and apertium-postchunk end, without crashing, on every input that is the beginning of a well-formed stream, wherever it stops: inside a lexical unit, a tag, a chunk, a superblank, a word-bound blank or after an escape.',
 quantifier=dict(over=['inputs', 'crash_points'],text='every truncation point (a producer that dies) of streams with symbolic letters, tags, escapes, superblanks and word-bound blanks within the bounds'),
 why_tests_cant='The tests feed complete streams only; the guarantee quantifies over every point at which the producer may stop, and a missed one shows as a hang or crash of the pipeline.',
 anchors=dict(files=['apertium/transfer.cc', 'apertium/interchunk.cc', 'apertium/postchunk.cc', 'apertium/interchunk_word.cc'],mechanism=[{'name': 'token readers', 'where': 'Transfer::readToken, Interchunk::readToken, Postchunk::readToken'}, {'name': 'word splitting', 'where': 'applyWord, InterchunkWord, Postchunk::splitWordsAndBlanks'}],observe_at=['exit and termination of the three programs']))
CHECK=dict(budget={"quick":60,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode, SMT (Z3) decides memory safety, absence of uncaught exceptions and termination on every path",
 bounds='one stream skeleton per tool (3-4 units, superblank, word-bound blank, text, null flush) cut at every character, letters and tags symbolic (3-6 values each), -z and not, -b, chunk and lu output',
 jobs=[J("pe","trraw",PCH,1,prep="trx",rules="post0.t3x",stage=3,defs=["-DPOST"],tpl="^u<>{^L<1>$}$S^U<S><>{W^L<2>$}$",z=0),J("t","trraw",TRX,4,prep="trx",rules="match.t1x",stage=1,tpl="S^L<T>/x<s>$W^a<T>/*xL$B^a<T>/@L$0^a<T>/x<s>$",z=1),
  J("tn","trraw",TRX,prep="trx",rules="chunk.t1x",stage=1,tpl="BS^L<T><T>/L<s>$W^aL<T><T>/*xL$",z=0),J("tq","trraw",TRX,prep="trx",rules="wb.t1x",stage=1,n=1,tpl="W^L<T># L$S^L<T>$",z=0),
  J("i","trraw",ICH,2,prep="trx",rules="inter.t2x",stage=2,defs=["-DINTER"],tpl="S^u<T>{W^L<n>$}$B^u<T>{^LB<n>$S^L$}$0^u<T>{^L$}$",z=1),
  J("p","trraw",PCH,2,prep="trx",rules="post.t3x",stage=3,defs=["-DPOST"],tpl="S^u<T>{W^L<T>$}$B^U<S>{^L<n>$S^L<T>$}$0^u<T>{^L$}$",z=1),
  J("tl","trraw",TRX,4,tier="thorough",prep="trx",rules="wb.t1x",stage=1,tpl="SB^LL<T><T>/xL<s>$BW^aL<T>/*xL$BS^L<T>/@L$0W^a<T>/xL<s>$",z=1),
  J("il","trraw",ICH,2,tier="thorough",prep="trx",rules="inter.t2x",stage=2,defs=["-DINTER"],tpl="SB^uL<T><S>{W^LL<n>$}$B^u<T>{^LB<n>$S^L$}$0^u<T>{^L$}$",z=0),
  J("pl","trraw",PCH,2,tier="thorough",prep="trx",rules="post0.t3x",stage=3,defs=["-DPOST"],tpl="SB^uL<T><S>{BW^LL<T><n>$}$B^U<S>{^L<n>$S^L<T>$}$0^u<T>{^L$}$",z=0)])
