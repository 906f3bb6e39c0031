//@ rt rt_stream
//@ job align args=0..6
//@ job number args=0..4
//@ job rest args=0..5
//@ job kinds args=0..5
//@ job swap args=0..5
//@ job erase args=0..6
//@ job insert args=0..6
//@ job far args=9,17,33,65,129,257
//@ bound texts of up to 6 symbolic bytes; widths 0..8 with every pad character; every index (0..n+1 and larger); every character
//@ bound texts of 9..257 characters with a few arbitrary ones, widths up to 257 more
#include "common.h"
namespace tx=strtk::text;
static std::string txt(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
static void pad(const std::string& r,const std::string& s,size_t left,size_t right,char c){ CHECKM(r.size()==left+s.size()+right,"width"); int ok=1; for(size_t i=0;i<r.size();++i) ok&=(r[i]==(i<left||i>=left+s.size()?c:s[i-left])); CHECKM(ok,"text between the padding"); }
JOB(align){ std::string s=txt(arg); char c=sym_u8(); size_t w=sym_choose(9),p=w>s.size()?w-s.size():0; pad(tx::left_align(w,c,s),s,0,p,c); pad(tx::right_align(w,c,s),s,p,0,c); pad(tx::center(w,c,s),s,p/2,p-p/2,c); pad(tx::left_align(w,s),s,0,p,' '); pad(tx::right_align(w,s),s,p,0,' '); pad(tx::center(w,s),s,p/2,p-p/2,' '); if (p==0&&w<s.size()) sym_reach("wider"); }
JOB(number){ int v=(int)sym_u8()-(arg==1?128:0); if (arg==2) v*=1000; sym_assume(v>-1000000); std::string s; CHECK(strtk::type_to_string(v,s)); size_t w=sym_choose(9),p=w>s.size()?w-s.size():0; pad(tx::right_align(w,'0',v),s,p,0,'0'); pad(tx::left_align(w,'0',v),s,0,p,'0'); pad(tx::center(w,'0',v),s,p/2,p-p/2,'0'); if (arg==3) { pad(tx::right_align(w,v),s,p,0,' '); pad(tx::left_align(w,v),s,0,p,' '); } if (arg==4) pad(tx::center(w,v),s,p/2,p-p/2,' '); }
JOB(rest){ std::string s=txt(arg); size_t i=sym<size_t>(); if (i<=(size_t)arg) i=sym_concretize(i); bool e=sym_choose(2); std::string r=tx::remaining_string(i,s,e),q="#",w; tx::remaining_string(i,s,q,e); if (i<(size_t)arg) w=s.substr(i); else if (!e) w=s; CHECKM(r==w,"the text from the index, or all or nothing past the end"); CHECK(q==w); CHECK(tx::remaining_string(i,s)==(i<(size_t)arg?s.substr(i):s)); }
JOB(kinds){ char c=sym_u8(); int up=(c>='A')&(c<='Z'),lo=(c>='a')&(c<='z'),d=(c>='0')&(c<='9'); CHECKM(tx::is_letter(c)==((up|lo)!=0),"letter"); CHECKM(tx::is_lowercase_letter(c)==(lo!=0),"lower case"); CHECKM(tx::is_uppercase_letter(c)==(up!=0),"upper case"); CHECKM(tx::is_digit(c)==(d!=0),"digit"); CHECKM(tx::is_letter_or_digit(c)==((up|lo|d)!=0),"letter or digit"); CHECKM(tx::is_hex_digit(c)==((d|((c>='A')&(c<='F'))|((c>='a')&(c<='f')))!=0),"hex digit"); std::string s=txt(arg); int al=1,ad=1; for(int i=0;i<arg;++i){ al&=((s[i]>='A')&(s[i]<='Z'))|((s[i]>='a')&(s[i]<='z')); ad&=(s[i]>='0')&(s[i]<='9'); } CHECKM(tx::is_all_letters(s)==(al!=0),"all letters"); CHECKM(tx::is_all_digits(s)==(ad!=0),"all digits"); }
static size_t idx(int n){ int k=sym_choose(n+3); return k<=n?(size_t)k:k==n+1?(size_t)n+1:~(size_t)0; }
JOB(swap){ std::string s=txt(arg),r; size_t i=idx(arg),j=idx(arg); r=tx::swap(s,i,j); CHECK((int)r.size()==arg); bool in=i<(size_t)arg&&j<(size_t)arg; int ok=1; for(int k=0;k<arg;++k) ok&=(r[k]==(!in?s[k]:k==(int)i?s[j]:k==(int)j?s[i]:s[k])); CHECKM(ok,"exactly the two characters are exchanged, or nothing outside the text"); std::string q=s; tx::swap_inplace(q,i,j); CHECK(q==r); }
JOB(erase){ std::string s=txt(arg); size_t i=idx(arg); std::string w=s; if (i<s.size()) w.erase(i,1); std::string r=tx::remove(s,i); CHECKM(r==w,"exactly that character is removed, or nothing outside the text"); std::string q=s; tx::remove_inplace(q,i); CHECK(q==w&&q.c_str()[q.size()]==0); std::string l(20,'x'); l+=s; l+=txt(1); std::string e=l; e.erase(20+std::min(i,(size_t)arg),1); tx::remove_inplace(l,20+std::min(i,(size_t)arg)); CHECK(l==e); }
JOB(insert){ std::string s=txt(arg); char c=sym_u8(); size_t i=idx(arg); std::string w=s; if (i<=s.size()) w.insert(w.begin()+i,c); std::string r=tx::insert(s,i,c); CHECKM(r==w,"the character is inserted before the index, or nothing outside the text"); std::string q=s; tx::insert_inplace(q,i,c); CHECK(q==w&&q.c_str()[q.size()]==0); std::string l(13,'x'); l+=s; std::string e=l; size_t k=10+std::min(i,(size_t)arg); e.insert(e.begin()+k,c); tx::insert_inplace(l,k,c); CHECK(l==e); }
JOB(far){ int n=arg; std::string s=MIXED(n,"ab Zz9"); char c=sym_u8(); static const int d[]={-1,0,1,2,15,16,100,257}; int wd=n+d[sym_choose(8)]; size_t w=wd,p=w>s.size()?w-s.size():0; switch(sym_choose(6)){ case 0: pad(tx::left_align(w,c,s),s,0,p,c); pad(tx::left_align(w,s),s,0,p,' '); break; case 1: pad(tx::right_align(w,c,s),s,p,0,c); pad(tx::right_align(w,s),s,p,0,' '); break; case 2: pad(tx::center(w,c,s),s,p/2,p-p/2,c); pad(tx::center(w,s),s,p/2,p-p/2,' '); break;
   case 3: { int v=sym<signed char>(); std::string t; CHECK(strtk::type_to_string(v,t)); p=w-t.size(); pad(tx::right_align(w,'0',v),t,p,0,'0'); pad(tx::left_align(w,v),t,0,p,' '); pad(tx::center(w,c,v),t,p/2,p-p/2,c); break; }
   case 4: { size_t i=sym_choose(4); i=i==0?1:i==1?n/2:i==2?n-1:n; CHECKM(tx::remaining_string(i,s)==(i<(size_t)n?s.substr(i):s),"the text from the index"); std::string e=s,r; if (i<(size_t)n) e.erase(i,1); r=tx::remove(s,i); CHECKM(r==e,"exactly that character is removed"); e=s; e.insert(e.begin()+i,c); r=tx::insert(s,i,c); CHECKM(r==e,"the character is inserted before the index"); tx::insert_inplace(r,i,c); e.insert(e.begin()+i,c); CHECK(r==e); size_t j=n/3; e=s; if (i<(size_t)n) std::swap(e[i],e[j]); CHECKM(tx::swap(s,i,j)==e,"exactly the two characters are exchanged"); break; }
   default: { std::string t(n,'x'),u(n,'7'); int k=sym_choose(3); k=k==0?0:k==1?n/2:n-1; t[k]=u[k]=c; int l=((c>='A')&(c<='Z'))|((c>='a')&(c<='z')),g=(c>='0')&(c<='9'); CHECKM(tx::is_all_letters(t)==(l!=0),"all letters"); CHECKM(tx::is_all_digits(u)==(g!=0),"all digits"); } } sym_reach("far"); }
