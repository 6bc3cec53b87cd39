PROP=dict(title='Deformatting and reformatting restores the document',
 statement='For every document of a supported format, the output of the reformatter on the output of the deformatter is the document again, byte for byte, whatever the -i and -n options; only entities and control words that stand for a character may come back as that character.',
 quantifier=dict(over=['inputs'],text='every byte string over the characters that are special to the format, up to the stated length, and option set'),
 why_tests_cant='The tests deformat a handful of documents of three formats; the guarantee quantifies over every document, including malformed markup, stray reserved characters and text that looks like an inserted sentence mark.',
 anchors=dict(files=['apertium/deformat.xsl','apertium/reformat.xsl','apertium/txt-format.xml','apertium/html-format.xml','apertium/odt-format.xml','apertium/rtf-format.xml','apertium/latex-format.xml','apertium/mediawiki-format.xml'],mechanism=[{'name':'blank buffer and escaping','where':'apertium/deformat.xsl: printBuffer, escape'},{'name':'unescaping','where':'apertium/reformat.xsl: rules'}],observe_at=['standard output of apertium-desFORMAT | apertium-reFORMAT']))
XR="a<>!-/ &.{}[]\\\\@"
TR="a.[]\\\\@^$/ \\n~"
J1=[FMT("txt","txt",2,raw=7,tc=TR),FMT("txt-n","txt",raw=6,tc=TR,opt="n"),FMT("txt-i","txt",raw=6,tc=TR,opt="i"),FMT("txt-in","txt",raw=6,tc=TR,opt="in"),
 FMT("html","html",3,raw=5,tc=XR),FMT("html-n","html",raw=5,tc="a<p>/ &.[]@",opt="n"),FMT("html-i","html",raw=5,tc="a<p>/ &.[]@",opt="i"),FMT("noent","html-noent",2,raw=6,tc=XR),FMT("alt","html-alt",2,raw=5,tc=XR+"\""),FMT("alt-n","html-alt",raw=5,tc=XR+"\"",opt="n"),
 FMT("odt","odt",2,raw=6,tc=XR),FMT("odt-n","odt",raw=5,tc=XR,opt="n"),FMT("wxml","wxml",2,raw=5,tc=XR),FMT("xlsx","xlsx",2,raw=5,tc=XR),FMT("pptx","pptx",2,raw=5,tc=XR),FMT("rtf","rtf",3,raw=5,tc="a{}\\\\' \\nr.[@"),FMT("rtf-n","rtf",raw=4,tc="a{}\\\\' \\nr.[@",opt="n"),
 FMT("wiki","mediawiki",6,raw=5,tc="a<>=*' &.{}[]\\\\@:\\n"),FMT("xpress","xpresstag",2,raw=5,tc="a<>=:-.[]\\\\@ \\n"),FMT("latex","latex",3,raw=5,tc="a<>!-/_ &.{}[]\\\\@\\n")]
X=dict(tc="a.[\\\\@",sc=" \\n~<",mc="a@[\\\\=",chk=2)
J1+=[FMT("txt-big","txt",4,doc="T%t|?S%s|S%B%s|T%t|?S%s%s|?S%B\n\n",esc="",steps=60000000,**dict(X,sc=" \\n~")),FMT("html-big","html",doc="T%t|?D<b %m%B%m>|T%t|S%B|?M</p%m>|T%u",esc="",steps=60000000,**X)]
def L(f,n,tc,**k): return FMT(f+"-long",f,4,tier="thorough",raw=n,tc=tc,**k)
CHECK=dict(budget={"quick":90,"thorough":800},level="model_checking",technique="symbolic execution of the real LLVM bitcode of the generated scanners, SMT (Z3) decides on every path whether the restored bytes equal the document",
 bounds='documents of up to 5-7 bytes (thorough: 6-9), every byte symbolic over 11-17 characters special to the format, 11 formats, options -n, -i, -i -n; documents with blanks over 8192 characters (temporary files), NUL bytes and invalid UTF-8 are outside',
 jobs=J1+[L("txt",9,TR),L("html",6,XR),L("html-noent",8,XR),L("html-alt",7,XR+"\""),L("odt",8,XR),L("wxml",8,XR),L("xlsx",8,XR),L("pptx",8,XR),L("rtf",6,"a{}\\\\' \\nr.[@"),L("mediawiki",6,"a<>=*' &.{}[]\\\\@:\\n"),L("xpresstag",8,"a<>=:-.[]\\\\@ \\n"),L("latex",7,"a<>!-/_ &.{}[]\\\\@\\n")])
