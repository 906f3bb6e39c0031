//@ rt rt_stream
//@ job attr args=0..2
//@ job parsed args=0..4
//@ job target args=0..6
//@ job copies args=0..4
//@ job action args=0..5
//@ job scope args=0
//@ job far args=0..3
//@ bound integer, character and text attributes and values with every content; texts of up to 4 symbolic bytes; up to 4 copies and assignments in every order
//@ bound texts of up to 130 characters
#include "common.h"
#include "ref_int.h"
namespace su=strtk::util;
static std::string txt(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
template <typename T> static void attr(T v,T w,T x){ su::attribute<T> a; CHECKM(!a.initialised()&&!a.changed(),"empty at first"); CHECK(!(a==v)); std::string s("#"); CHECKM(!strtk::type_to_string(a,s)&&s=="#","an empty attribute has no text"); su::attribute<T> b(v); CHECKM(b.initialised()&&!b.changed(),"initial value"); CHECKM(b.value()==v&&b.previous()==v&&b()==v,"initial value"); T c=b; CHECK(c==v); b=w; CHECKM(b.initialised()&&b.value()==w,"new value"); CHECKM(b.previous()==v,"previous value"); bool same=(v==w); CHECKM(b.changed()==!same,"changed exactly if different"); CHECKM(b==w,"equal to its value"); b=x; CHECKM(b.previous()==w&&b.value()==x,"one step of history"); a=x; CHECK(a.initialised()&&a.value()==x); const su::attribute<T> d(b); CHECK(d.value()==x&&d.previous()==w&&d()==x); }
JOB(attr){ if (arg==0) { int v=sym<int>(),w=sym<int>(),x=sym<int>(); su::attribute<int> u; u=0; attr<int>(v,w,x); } else if (arg==1) attr<std::string>(txt(2),txt(2),txt(1)); else { char v=sym_u8(),w=sym_u8(),x=sym_u8(); attr<char>(v,w,x); } 
   su::attribute<std::string> t("ab"); CHECK("ab"==t&&"b"!=t); }
JOB(parsed){ std::string s=txt(arg); int r=0; bool good=ref_int<int>(s.data(),arg,r); su::attribute<int> a,b(5); CHECKM(strtk::string_to_type_converter(s,a)==good,"accepted exactly if the text is a number"); CHECKM(a.initialised()==good,"initialised exactly if accepted"); if (good) CHECKM(a.value()==r,"value of the text"); CHECK(strtk::string_to_type_converter(s,b)==good); CHECK(b.initialised()); if (good) CHECK(b.value()==r&&b.previous()==5); if (good) { std::string t; CHECK(strtk::type_to_string(b,t)); int q=0; CHECKM(strtk::string_to_type_converter(t,q)&&q==r,"text of the value"); }
   if (arg==0) return;
   su::attribute<std::string> t; su::attribute<int> c; su::attribute<char> d; std::string u="7|"; for(int i=0;i<arg;++i){ sym_assume(s[i]!='|'); u+=s[i]; } u+="|z"; bool ok=strtk::parse(u,"|",c,t,d); CHECKM(ok,"attributes as parse targets"); CHECK(c.initialised()&&c.value()==7&&t.initialised()&&t.value()==s&&d.initialised()&&d.value()=='z'); }
JOB(target){ std::string s=txt(arg==6?0:std::min(arg,4)); int i=-3; unsigned short h=9; std::string t="#"; char c='?'; su::value vi(i),vh(h),vt(t),vc(c),e; CHECKM(!e&&!!vi,"bound or not"); CHECK(vi==vi&&!(e==e)&&!(vi==vh)); int r=0; bool good=ref_int<int>(s.data(),s.size(),r); unsigned short q=0; bool gq=ref_int<unsigned short>(s.data(),s.size(),q);
   if (arg==5) { std::pair<const char*,const char*> p(s.data(),s.data()+s.size()); CHECKM(vi(p)==good,"range form"); if (good) CHECK(i==r); CHECK(vt(p)&&t==s); return; }
   CHECKM(vi(s)==good,"accepted exactly if the text converts"); if (good) CHECKM(i==r,"the bound variable receives it"); CHECKM(vh(s.data(),s.data()+s.size())==gq,"accepted exactly if the text converts"); if (gq) CHECKM(h==q,"the bound variable receives it"); CHECKM(vt(s)&&t==s,"text"); CHECK(vc(s)==(s.size()==1)); if (s.size()==1) CHECK(c==s[0]); CHECKM(!e(s),"an unbound value accepts nothing");
   std::string o="o"; CHECKM(vt.to_string(o)&&o==t,"text of the bound variable"); CHECK(strtk::type_to_string(vt,o)&&o==t); i=42; CHECK(vi.to_string(o)); CHECKM(o=="42","the current value"); o="k"; CHECK(!e.to_string(o)&&o=="k"); }
JOB(copies){ int a=1,b=2; std::string x=txt(1); int r; bool good=ref_int<int>(x.data(),1,r); sym_assume(good); su::value* p=new su::value(a); su::value q(*p),z,y; y=*p; if (arg<3) { delete p; p=0; } su::value w(b); switch(arg){ case 0: { CHECK(q(x)); CHECKM(a==r&&b==2,"a copy reaches the same variable"); break; } case 1: { w=y; CHECK(w(x)); CHECKM(a==r&&b==2,"assignment binds to the other variable"); break; } case 2: { y=w; CHECK(y(x)); CHECKM(b==r&&a==1,"assignment binds to the other variable"); break; } case 3: { w=z; CHECKM(!w&&!w(x)&&a==1&&b==2,"assigning an unbound value unbinds"); su::value c(z); CHECK(!c&&!c(x)); z=q; CHECK(!!z&&z(x)&&a==r); break; } default: { su::value& me=w; w=me; CHECK(w(x)&&b==r&&a==1); w.assign(a); CHECK(w(x)&&a==r); std::vector<su::value> v; for(int i=0;i<3;++i) v.push_back(i%2?su::value(a):su::value(b)); a=b=0; CHECK(v[0](x)); CHECKM(b==r&&a==0,"kept in a container"); CHECK(v[1](x)&&a==r); } } if (p) delete p; }
struct act { std::string* o; int* n; bool res; bool operator()(const unsigned char* b,const unsigned char* e) const { o->assign((const char*)b,e-b); ++*n; return res; } };
JOB(action){ std::string o="#"; int n=0; act f={&o,&n,sym_choose(2)!=0}; std::string s=txt(arg%4); switch(arg){ case 4: { su::semantic_action_impl e; CHECKM(!e&&!e(s)&&!(e==e),"no action"); su::semantic_action_impl a(f); CHECK(!!a&&a==a); break; } case 5: { su::semantic_action_impl* p=new su::semantic_action_impl(f); su::semantic_action_impl q(*p); delete p; CHECKM(q(s)==f.res,"a copy calls the same action"); CHECK(o==s&&n==1); su::semantic_action_impl e,g(e); CHECK(!g&&!g(s)); break; }
   default: { if (arg==0) { s="q"; } for(int i=0;i<arg;++i) sym_assume(s[i]!=','); int a=0,b=0; std::string t="12,"+s+",34"; bool ok=strtk::parse(t,",",a,su::semantic_action(f).ref(),b); CHECKM(n==1&&o==s,"called once with exactly the token"); CHECKM(ok==f.res,"its verdict counts"); CHECK(a==12); if (ok) CHECK(b==34); CHECK(su::semantic_action(f)(s.data(),s.data()+s.size())==f.res&&n==2); std::string u; su::semantic_action_impl a2(f); CHECK(strtk::type_to_string(a2,u)&&u=="semantic_action"); } } }
JOB(scope){ int v=sym<int>(),w=sym<int>(),x=v; { su::scoped_restore<int> r(x); x=w; } CHECKM(x==v,"restored"); { su::scoped_restore<int> r(x,false); x=w; } CHECKM(x==w,"not restored when told so"); x=v; { su::scoped_restore<int> r(x); x=w; r.restore()=false; } CHECK(x==w); std::string s=txt(2),t=s; { su::scoped_restore<std::string> r(t,true); t+="abc"; } CHECKM(t==s,"restored"); }
JOB(far){ static const int L[]={15,16,17,40,65,129}; int n=L[sym_choose(6)]; std::string a=MIXED(n,"xyz"),b=MIXED(n+1,"q"),c=a; if (arg==0) { attr<std::string>(a,b,c); return; } if (arg==1) { std::string t="#"; su::value v(t),w(v); CHECK(v(a)&&t==a); CHECKM(w(b.data(),b.data()+b.size())&&t==b,"the bound variable receives it"); std::string o; CHECK(v.to_string(o)&&o==b); return; } for(int i=0;i<n;++i) sym_assume((a[i]!=',')&(a[i]!='|')); if (arg==2) { std::string o="#"; int k=0,x=0,y=0; act f={&o,&k,sym_choose(2)!=0}; bool ok=strtk::parse("12,"+a+",34",std::string(","),x,su::semantic_action(f).ref(),y); CHECKM(k==1&&o==a&&ok==f.res,"called once with exactly the token"); return; } su::attribute<std::string> t("old"); su::attribute<int> i(3); bool ok=strtk::parse(a+"|-123",std::string("|"),t,i); CHECK(ok&&t.value()==a&&t.previous()=="old"&&i.value()==-123&&i.previous()==3); std::string x=a; { su::scoped_restore<std::string> r(x); x+=b; } CHECKM(x==a,"restored"); }
