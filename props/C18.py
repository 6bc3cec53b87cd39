PROP=dict(title='Deformatters put markup into superblanks and nothing else',
 statement='A deformatter writes text as it is, with the reserved characters escaped, and puts every run of markup and white space (other than a single space) into one superblank with reserved characters escaped; entities become the characters they stand for. Where markup ends a sentence, and at the end of the document, it writes the sentence mark .[] before the blank (with -n [] instead, with -i before every superblank instead), and with -o the heading mark where a heading ends.',
 quantifier=dict(over=['inputs'],text='every document built from the stated templates: text, white space, tags, attributes, comments, entities with symbolic characters, optional parts, option sets'),
 why_tests_cant='The tests compare a few sample documents in three formats; here the characters of text, attributes, comments and scripts range over everything special to the format and parts come in all combinations.',
 anchors=dict(files=['apertium/deformat.xsl','apertium/txt-format.xml','apertium/html-format.xml','apertium/odt-format.xml','apertium/rtf-format.xml','apertium/wxml-format.xml','apertium/latex-format.xml','apertium/mediawiki-format.xml'],mechanism=[{'name':'buffering and marks','where':'apertium/deformat.xsl: printBuffer, preDot'},{'name':'markup rules','where':'apertium/*-format.xml: format-rule, replacement-rule'}],observe_at=['standard output of apertium-desFORMAT']))
X=dict(esc="[]^@\\/${}",tc="aB.,[\\\\@^$/}'",mc="a =/\\\\[@\"",sc=" \\n>~",chk=1)
O=dict(esc="[]^@\\/$",tc="aB.,[\\\\@^$/'",mc="a =/\\\\[@\"{",sc=" \\n>~{}",chk=1)
R=dict(esc="\\[]<>@^$/{}",tc="aB.,[@^/<",mc="a1-",sc=" \\n~*$",chk=1)
T=dict(tc="aB.[\\\\@^<>{}$/",sc=" \\t~",chk=1)
W=dict(esc="[]^@\\/$",tc="aB.,\\\\@^$/",mc="a +/\\\\@\"",sc=" \\n>~{}",chk=1)
S="T%t|?S%s%s|T%t"
J1=[FMT("txt","txt",doc="T%t|?S%s|T%u%t|S%s|?D\n\n|T%t|?S%s",**T)]
J1+=[FMT("txt-"+o,"txt",doc="T%t|?S%s|T%u|S%s|?D\r\n\r\n|T%t|?S%s",opt=o,**T) for o in ("n","i","in","o")]
for f in ("html","html-noent"):
    J1+=[FMT(f+"-tags",f,doc="?D<p>|T%t|?S%s|?M<b%m>|T%t|?M</b>|?S%s",**X),FMT(f+"-blocks",f,doc="?D<h2 a%m>|T%t|?H</h2>|?S%s|?D<br>|T%t|?D</p>",**X),
     FMT(f+"-comment",f,doc="T%t|?M<!--%m%m-->|?S%s|?M<script>%m%m</script>|?M{{%m}}|T%t|?M<img %m>",**X)]
for o in ("n","i","o","on"): J1+=[FMT("html-"+o,"html",doc="?D<h1>|T%t|?H</h1>|?S%s|?M<b>|T%t|?D</div>|?S%s",opt=o,**X)]
J1+=[FMT("html-ent","html",doc="?S%s|R&eacute;=é=é|?S%s|T%t|?M&zzz;|?R&#39;='='|?M&amp;|?R&#xe9;=é=é",**X),FMT("html-notrans","html",doc="T%t|?M<apertium-notrans>%m<b>%u</apertium-notrans>|?S%s|?M<style %m>%m</style>|T%t|?M<!doctype%m>|?D<TD>",**X),FMT("html-lt","html",doc="T%t|?S<|S%s|T%t|?D<li>|?D<option %m>|T%t",**X),
 FMT("html-names","html",doc="?D<ul>|?D<tr>|T.|?D</tr>|?D<th>|T%t|?D</option>|?H</title>|T%t",**X),FMT("html-names2","html",doc="?D<ol>|T%t|?D<hr>|?D</TD>|T.|?D</li>|?D<h6>|T%t",**X)]
J1+=[FMT("html-arrow","html",doc="T%t|?M<!--%m%m-->|?M<script>%m%m</script>|T%t|?M<style a>%m</style>|?S%s",**dict(X,mc=">-a</ \\n")),FMT("odt-arrow","odt",doc="T%t|?M<!--%m%m-->|T%t|?S%s",**dict(O,mc=">-a</ \\n"))]
J1+=[FMT("odt-tags","odt",doc="?D<text:p>|T%t|?S%s|?M<text:span %m>|T%t|?R&apos;='='|?D</text:p>",**O),FMT("odt-math","odt",doc="T%t|?M<math:x %m>%m<a>%m</math:x>|?S%s|T%t|?M&amp;",**O),FMT("odt-head","odt",doc="?D<text:h a%m>|T%t|?M<!--%m%u-->|?S%s|T%t|?D</text:h>|?M<?xml%m>",**O)]
J1+=[FMT("rtf-tags","rtf",doc="M{|M\\a%m |T%t|?D\\par |?S%s|T%t|?M}|?R\\rquote ='='|T%t",**R),FMT("rtf-ctl","rtf",doc="T%t|?M\\b%m |?D\\cell\n|?M\\pard%m |T%t|?M{\\i%m |?D\\row |T%t|?D\\par|S\n",**R),FMT("rtf-hex","rtf",doc="T%t|?R\\'e9=é=é|?S%s|T%t|?R\\'e0=à=à|T%t",**dict(R,sc=" ~*$"))]
J1+=[FMT("wxml-tags","wxml",doc="?D<w:p>|T%t|?S%s|?M<w:r %m>|T%t|?D<w:instrText>%m%m</w:instrText>|?R&apos;='='|?D</w:p>",**X),FMT("wxml-skip","wxml",doc="T%t|?M<Properties>%m%m</Properties>|?S%s|?D<w:drawing %m>%m</w:drawing>|T%t|?D<pkg:binaryData>%m</pkg:binaryData>|?M<w:pPr%m>|T%u",**X)]
J1+=[FMT("xlsx-tags","xlsx",doc="?D<si>|T%t|?S%s|?M<t %m>|T%t|?D<f>%m%m</f>|?R&apos;='='|?D</si>",**X),FMT("pptx-tags","pptx",doc="?D<a:p>|T%t|?S%s|?M<a:t %m>|T%t|?D<p:timing>%m%m</p:timing>|?R&apos;='='|?D</a:p>",**O)]
J1+=[FMT("alt-tags","html-alt",doc="?D<p>|T%t|?S%s|?M<img src=%m alt=\"|T%t|?M\" x%m>|?H</h1>|?T%t",**dict(X,mc="a=/\\\\[@",tc="aB.,[\\\\@^$/}",sc=" \\n~"))]
J1+=[FMT("wiki-tags","mediawiki",doc="T%t|?M''|?S%s|?M[|T%t|?M]|?M{{%m%m}}|?D==|T%t|?M<comment>%m</comment>|?S%s",**W),FMT("wiki-esc","mediawiki",doc="T%t|?M&lt;ref%m&gt;|?S%s|T%t|?M&lt;!--%m--&gt;|?D<p>|?M</b%m>|T%t",**W)]
J1+=[FMT("xp-tags","xpresstag",doc="T%t|?M<b%m>|?S%s|T%t|?D<%m->|T%t",**dict(X,mc="ab/\\\\[",tc="aB.,[\\\\^$/}",sc=" \\n~"))]
J1+=[FMT("latex-tags","latex",doc="T%t|?D<section/><CONTENTS>|?S%s|T%t|?M</CONTENTS-noeos>|?M<textit/> <CONTENTS>|T%t|?M<VERB>%m%m</VERB>|?R&apos;='='",**X),FMT("latex-com","latex",doc="?D<chapter_STAR/>%s<PARAM>|T%t|?M<COMMENT>%m%u</COMMENT>|?S%s|T%t|?D<item/><PARAM>|?M<!--%m-->",**dict(X,sc=" \\n"))]
for j in J1: j["params"]["chk"]=1
J2=[FMT("txt-w","txt",w_=2,tier="thorough",raw=7,tc="a.[]\\\\@^$/ \\n~",chk=1)]+[FMT(f+"-w",f,w_=2,tier="thorough",raw=6,tc="a<>!-/ &.{}[]\\\\@",chk=1) for f in ("html","html-noent","html-alt","odt","wxml","xlsx","pptx","latex")]+[FMT("rtf-w","rtf",w_=2,tier="thorough",raw=5,tc="a{}\\\\' \\nr.[@",chk=1),FMT("wiki-w","mediawiki",w_=2,tier="thorough",raw=5,tc="a<>=*' &.{}[]\\\\@:\\n",chk=1)]
J2+=[FMT("html-long","html",w_=2,tier="thorough",doc="?D<p %m>|T%t|?S%s%s|?M<b%m>|T%t%t|?M</b>|?S%s|?H</h3>|T%t%u|?M<!--%m-->|?R&eacute;=é=é|T%t",**X),FMT("odt-long","odt",w_=2,tier="thorough",doc="?D<text:p %m>|T%t|?S%s%s|?M<text:span %m>|T%t%t|?D</text:p>|?S%s|T%t%u|?M<!--%m-->|?R&apos;='='|T%t",**O),FMT("txt-long","txt",w_=2,tier="thorough",doc="T%t|?S%s%s|T%t%t|S%s|?D\n\n|?S%s|T%t%u|?D\n\n\n\n|T%t|?S%s",**T)]
CHECK=dict(budget={"quick":90,"thorough":800},level="model_checking",technique="symbolic execution of the real LLVM bitcode of the generated scanners, SMT (Z3) decides on every path whether the output equals an independently computed stream",
 bounds='42 document templates over 11 formats with up to 8 optional parts and up to 7 symbolic characters each (text, attributes, comments, white space, multi-byte letters), options -n, -i, -o and combinations; thorough adds well-formedness of the stream for every byte string of length 5-7',
 jobs=J1+J2)
