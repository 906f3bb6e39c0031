// Models of the out-of-line libstdc++ pieces the instantiated templates call (linked into the bitcode only).
#include <cstddef>
#include <cstring>
#include <map>
#include <list>
#include <stdexcept>
#include <string>
namespace std {
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; }
    else { _Rb_tree_node_base* y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; }
    return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base* y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y; }
    else { _Rb_tree_node_base* y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } x=y; }
    return x; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  // plain (unbalanced) binary-search-tree insertion with the header bookkeeping of the real function; nodes black
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
    if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; }
    else { p->_M_right=x; if (p==h._M_right) h._M_right=x; } }
  // unlinks z (plain binary-search-tree deletion), keeping root/leftmost/rightmost of the header right
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    _Rb_tree_node_base* r;
    if (!z->_M_left) r=z->_M_right; else if (!z->_M_right) r=z->_M_left;
    else { r=z->_M_right; while (r->_M_left) r=r->_M_left;
      if (r!=z->_M_right) { r->_M_parent->_M_left=r->_M_right; if (r->_M_right) r->_M_right->_M_parent=r->_M_parent; r->_M_right=z->_M_right; z->_M_right->_M_parent=r; }
      r->_M_left=z->_M_left; z->_M_left->_M_parent=r; }
    if (r) r->_M_parent=z->_M_parent;
    if (h._M_parent==z) h._M_parent=r; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=r; else z->_M_parent->_M_right=r;
    if (!h._M_parent) { h._M_left=&h; h._M_right=&h; }
    else { _Rb_tree_node_base* n=h._M_parent; while (n->_M_left) n=n->_M_left; h._M_left=n; n=h._M_parent; while (n->_M_right) n=n->_M_right; h._M_right=n; }
    return z; }
  namespace __detail {
    void _List_node_base::_M_hook(_List_node_base* const p) throw() { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
    void _List_node_base::_M_unhook() throw() { _List_node_base* n=_M_next; _List_node_base* p=_M_prev; p->_M_next=n; n->_M_prev=p; }
    void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) throw() {
      if (this!=l) { l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f;
        _List_node_base* const t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) throw() {
      if (x._M_next!=&x) { if (y._M_next!=&y) { std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
        else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } }
      else if (y._M_next!=&y) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
    void _List_node_base::_M_reverse() throw() { _List_node_base* t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while (t!=this); }
  }
}
// C-locale character classes and string helpers, so that code which starts using them stays executable
extern "C" {
int isdigit(int c) throw() { return c>='0'&&c<='9'; }
int isxdigit(int c) throw() { return (c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
int isupper(int c) throw() { return c>='A'&&c<='Z'; }
int islower(int c) throw() { return c>='a'&&c<='z'; }
int isalpha(int c) throw() { return isupper(c)||islower(c); }
int isalnum(int c) throw() { return isalpha(c)||isdigit(c); }
int isspace(int c) throw() { return c==' '||(c>=9&&c<=13); }
int isprint(int c) throw() { return c>=32&&c<127; }
int iscntrl(int c) throw() { return (c>=0&&c<32)||c==127; }
int ispunct(int c) throw() { return isprint(c)&&c!=' '&&!isalnum(c); }
int isgraph(int c) throw() { return c>32&&c<127; }
int isblank(int c) throw() { return c==' '||c=='\t'; }
void* rt_memrchr(const void* s, int c, size_t n) __asm__("memrchr");
void* rt_memrchr(const void* s, int c, size_t n) { const unsigned char* p=(const unsigned char*)s; while (n) { --n; if (p[n]==(unsigned char)c) return (void*)(p+n); } return 0; }
char* rt_strchr(const char* s, int c) __asm__("strchr");
char* rt_strchr(const char* s, int c) { for (;;++s) { if (*s==(char)c) return (char*)s; if (!*s) return 0; } }
int strncmp(const char* a, const char* b, size_t n) throw() { for (;n;--n,++a,++b) { if (*a!=*b) return (unsigned char)*a<(unsigned char)*b?-1:1; if (!*a) return 0; } return 0; }
size_t strnlen(const char* s, size_t n) throw() { size_t i=0; while (i<n && s[i]) ++i; return i; }
char* strcpy(char* d, const char* s) throw() { char* r=d; while ((*d++=*s++)) ; return r; }
}
extern "C" int toupper(int c) { return (c>='a'&&c<='z') ? c-32 : c; }
extern "C" int tolower(int c) { return (c>='A'&&c<='Z') ? c+32 : c; }
template class std::basic_string<char>;
