PROP=dict(title='Reformatters write the text and blanks of any stream',
 statement='For every well-formed translated stream, whichever way words and blanks were moved by the translation, a reformatter writes the text with escapes removed and the contents of the superblanks with escapes removed, in the order of the stream, and nothing else: brackets and sentence marks .[] disappear, an escaped reserved character comes out once.',
 quantifier=dict(over=['inputs'],text='every stream of text pieces, single spaces, superblanks and sentence marks in any combination with symbolic characters'),
 why_tests_cant='The tests reformat a few streams that come straight from a deformatter; the translation engine reorders and deletes words and blanks, so the reformatter has to cope with every sequence of them.',
 anchors=dict(files=['apertium/reformat.xsl','apertium/txt-format.xml','apertium/html-format.xml','apertium/odt-format.xml','apertium/rtf-format.xml','apertium/latex-format.xml','apertium/mediawiki-format.xml'],mechanism=[{'name':'unescaping and dropping of marks','where':'apertium/reformat.xsl: rules'}],observe_at=['standard output of apertium-reFORMAT']))
A=dict(mode=2)
E=dict(txt="[]\\/@<>^${}",html="[]^@\\/${}",odt="[]^@\\/$",rtf="\\[]<>@^$/{}")
F=[("txt","txt"),("html","html"),("html-noent","html"),("html-alt","html"),("odt","odt"),("rtf","rtf"),("wxml","html"),("xlsx","html"),("pptx","odt"),("mediawiki","odt"),("xpresstag","html"),("latex","html")]
def D(f,e,k,doc,tc,mc,**x): return FMT(f+"-"+k,f,doc=doc,tc=tc,mc=mc,sc=" \\n@[",esc=E[e],**A,**x)
TC="a.[]\\\\@^$/{}"; MC="a. >[]\\\\@^"
J1=[]
for f,e in F:
    J1+=[D(f,e,"mix","?T%t|?M<%m>|?X.[]|T%t|M%m%s|?X[]|?X.[]|T%t",TC,MC)]
    J1+=[D(f,e,"seq","M%m%s|?X.[]|M%s%m|?T.|?M[%m|T%u|?X.[]|?S |?X.[]|?T%t",TC,MC)]
J2=[D(f,e,"long","?T%t%t|?M<%m%m>|?X.[]|?M%s%m|T%t%u|?S |?M%m%m|?X.[]|?X.[]|T%t|?M%m%s|T.",TC,MC,tier="thorough") for f,e in F]
CHECK=dict(budget={"quick":90,"thorough":800},level="model_checking",technique="symbolic execution of the real LLVM bitcode of the generated scanners, SMT (Z3) decides on every path whether the output equals the unescaped stream",
 bounds='streams of up to 8 pieces (text, superblanks, sentence marks, empty blanks) with up to 6 symbolic characters over 13-16 reserved and plain characters, 12 formats; blanks in temporary files are outside',
 jobs=J1+J2)
