PROP=dict(title='Mode files run the programs of modes.xml in order, with their files',
 statement="apertium-gen-modes writes for every mode one file that pipes the mode's programs in their order, each with its arguments unchanged and its files as quoted absolute paths, relative ones taken from the directory of modes.xml or, with -f, from the installation path. With -f exactly the modes marked install=\"yes\" are written; without it all, and for each mode with gendebug=\"yes\" also one per step and debug suffix that ends with that step, with its trace option, and its @ variant on untrimmed analysers. A debug mode never replaces a mode the file defines.",
 quantifier=dict(over=['inputs','configurations'],text='every modes.xml with up to two modes of up to three programs (24 kinds of command), arguments and files with symbolic characters, attributes present or absent'),
 why_tests_cant='No test runs apertium-gen-modes; what a mode file contains depends on combinations of attributes, commands and names of other modes.',
 anchors=dict(files=['apertium/gen_modes.cc','apertium/modes.dtd'],mechanism=[{'name':'reading','where':'gen_modes.cc: read_modes, read_program'},{'name':'debug modes','where':'gen_modes.cc: set_debug_suffixes, set_trace_opt, gen_debug_modes'},{'name':'writing','where':'gen_modes.cc: gen_mode, gen_modes'}],observe_at=['the .mode files written']))
from checks import J
def JM(n,w=1,**k): return J(n,"modes",["apertium/gen_modes.cc"],w,nolib=1,**k)
ALL=",".join(map(str,range(24)))
CHECK=dict(budget={"quick":80,"thorough":600},level="model_checking",technique="symbolic execution of the real LLVM bitcode on symbolic modes.xml trees, SMT (Z3) decides on every path that the files written are those an independent reading of the modes gives",
 bounds='modes.xml with 1-2 modes of 1-3 programs, 0-2 arguments each (files with symbolic letters, absolute files, options with symbolic letters), 24 commands, attributes install, gendebug and debug-suff absent or present; with and without -f; std::filesystem and libxml trees modelled, replayed with the real ones',
 jobs=[JM("one",1,np=1,na=1,suff=1,cmds=ALL,inst=1,pref=1),JM("seq",2,np0=1,np=3,na=0,cmds="0,1,4,6,10,19",inst=1),JM("args",1,np=1,na=2,cmds="0,10",args="0,1,2,3,4,5,6",inst=2),JM("two",2,nm=2,np0=2,np=2,na=0,suff=1,cmds="0,1",names="0,1",inst=1,db=2),JM("two2",1,nm=2,np=1,na=1,suff=1,cmds="0,1",args="0,3",names="0,1,3",inst=1,db=2),JM("inst",1,nm=2,np=1,na=1,cmds="0",args="0,1,2",names="0,1,4",full=1),JM("instrel",1,nm=1,np=2,na=1,cmds="0,10",args="1,2,3,5",full=2,rel=1),JM("rel",1,nm=1,np=2,na=1,cmds="0,5",args="0,1,2,5",rel=1,inst=1),
  JM("seql",3,tier="thorough",np0=1,np=3,na=1,suff=1,cmds="0,1,4,5,7,10,15",args="0,3",inst=1),JM("twol",3,tier="thorough",nm=2,np=2,na=1,suff=1,cmds="0,1,10",args="0,1",names="0,1,2,3,4")])
