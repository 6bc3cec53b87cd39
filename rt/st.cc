// Model of lttoolbox's State (transducer state sets) and Alphabet::tokenize for symbolic input symbols.
#include "rt.h"
#include <lttoolbox/state.h>
#include <lttoolbox/trans_exe.h>
#include <lttoolbox/alphabet.h>
#include <lttoolbox/node.h>
#include <map>
#include <set>
typedef std::vector<std::pair<int,double>> Seq;
void State::destroy(){ state.clear(); }
State::State(){} State::~State(){} State::State(State const& s){ copy(s); } State& State::operator=(State const& s){ if(this!=&s) copy(s); return *this; }
void State::copy(State const& s){ state.clear(); for(auto& n:s.state) state.push_back(TNodeState(n.where,new Seq(*n.sequence),n.dirty)); }
size_t State::size() const { return state.size(); }
void State::init(Node* n){ state.clear(); state.push_back(TNodeState(n,new Seq(),false)); epsilonClosure(); }
bool State::apply_into(std::vector<TNodeState>* ns,int const in,int ix,bool dirty){ Node* w=state[ix].where; Seq* base=state[ix].sequence;
  for(auto& t:w->transitions) if(t.first==in){ Dest& d=t.second; for(int j=0;j<d.size;j++){ Seq* v=new Seq(*base); if(d.out_tag[j]!=0) v->push_back({d.out_tag[j],d.out_weight[j]}); ns->push_back(TNodeState(d.dest[j],v,dirty)); } return true; }
  return false; }
void State::epsilonClosure(){ for(size_t i=0;i<state.size();i++) apply_into(&state,0,i,state[i].dirty); }
void State::apply(int const in){ std::vector<TNodeState> n; if(in!=0) for(size_t i=0;i<state.size();i++) apply_into(&n,in,i,state[i].dirty); state=n; }
void State::apply(int const in,int const alt){ std::vector<TNodeState> n; if(in!=0&&alt!=0) for(size_t i=0;i<state.size();i++){ apply_into(&n,in,i,state[i].dirty); apply_into(&n,alt,i,true); } state=n; }
void State::apply(int const in,int const a1,int const a2){ std::vector<TNodeState> n; if(in!=0&&a1!=0) for(size_t i=0;i<state.size();i++){ apply_into(&n,in,i,state[i].dirty); if(in!=a1) apply_into(&n,a1,i,true); if(in!=a2) apply_into(&n,a2,i,true); } state=n; }
void State::step(int const in){ apply(in); epsilonClosure(); } void State::step(int const in,int const alt){ apply(in,alt); epsilonClosure(); } void State::step(int const in,int const a,int const b){ apply(in,a,b); epsilonClosure(); }
void State::step_optional(UChar32 v){ if(v==0) return; std::vector<TNodeState> old=state, n; for(size_t i=0;i<state.size();i++) apply_into(&n,v,i,false); state=n; epsilonClosure(); for(auto& o:old) state.push_back(o); }
bool State::isFinal(std::map<Node*,double> const& f) const { for(auto& s:state) if(f.find(s.where)!=f.end()) return true; return false; }
void State::merge(const State& o){ for(auto& n:o.state) state.push_back(TNodeState(n.where,new Seq(*n.sequence),n.dirty)); }
std::set<std::pair<UString,std::vector<UString>>> State::filterFinalsLRX(std::map<Node*,double> const& f,Alphabet const& a,std::set<UChar32> const& esc,bool,bool,int) const {
  std::set<std::pair<UString,std::vector<UString>>> r; for(auto& s:state){ if(f.find(s.where)==f.end()) continue; std::vector<UString> cur; UString w;
    for(auto& q:*s.sequence){ UString sym; a.getSymbol(sym,q.first,false); if(esc.find(q.first)!=esc.end()) w.push_back(u'\\'); if(sym==u"<$>"){ if(!w.empty()) cur.push_back(w); w.clear(); } else w.append(sym); }
    r.insert(std::make_pair(w,cur)); }
  return r; }
Node* TransExe::getInitial(){ return &node_list[initial_id]; } std::map<Node*,double>& TransExe::getFinals(){ return finals; }
void Alphabet::getSymbol(UString& r,int32_t s,bool up) const { if(s==0) return; if(s>=0) r.push_back((char16_t)s); else r.append(slexicinv[-s-1]); }
std::vector<int32_t> Alphabet::tokenize(UStringView s) const { std::vector<int32_t> r; size_t i=0,n=s.size(); while(i<n){ char16_t c=s[i];
    if(c=='\\'){ i++; if(i<n) r.push_back(s[i]); i++; }
    else if(c=='<'){ size_t j=i+1; while(j<n&&s[j]!='>'){ if(s[j]=='\\') j++; j++; } if(j<n){ r.push_back(operator()(s.substr(i,j-i+1))); i=j+1; } else { r.push_back(c); i++; } }
    else { r.push_back(c); i++; } }
  return r; }
