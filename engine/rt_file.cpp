// File streams for the symbolic executor: the libstdc++ file buffer templates themselves are instantiated here; below them,
// std::__basic_file<char> works on an in-memory file system (flat names, no permissions; opening for writing creates the file).
#include <cstring>
#include <cstdlib>
#include <fstream>
template class std::basic_filebuf<char>;
template class std::basic_ifstream<char>;
template class std::basic_ofstream<char>;
template class std::basic_fstream<char>;
namespace { struct Node { char name[64]; char* data; long size, cap; bool used; }; struct Handle { Node* node; long pos; bool in, out, app; }; }
static Node fs[16];
static Node* lookup(const char* s) { for (int i=0;i<16;++i) if (fs[i].used && !strcmp(fs[i].name,s)) return fs+i; return 0; }
extern "C" int remove(const char* s) throw() { Node* n=lookup(s); if (!n) return -1; n->used=false; return 0; }
namespace std {
  __basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(0), _M_cfile_created(false) {}
  __basic_file<char>::~__basic_file() { close(); }
  __basic_file<char>* __basic_file<char>::open(const char* s, ios_base::openmode m, int) {
    if (_M_cfile) return 0;
    bool in=m&ios_base::in, out=m&ios_base::out, app=m&ios_base::app, tr=m&ios_base::trunc;
    Node* n=lookup(s);
    if (!n) { if ((in&&!tr&&!app)||!(out||app)||!*s||strchr(s,'/')||strlen(s)>60) return 0; for (n=fs;n<fs+16&&n->used;++n) {} if (n==fs+16) abort(); strcpy(n->name,s); n->used=true; n->size=n->cap=0; n->data=0; }
    else if (out && !app && (tr||!in)) n->size=0;
    Handle* h=(Handle*)malloc(sizeof(Handle)); h->node=n; h->pos=0; h->in=in; h->out=out||app; h->app=app; _M_cfile=(__c_file*)h; _M_cfile_created=true; return this; }
  __basic_file<char>* __basic_file<char>::close() { if (!_M_cfile) return 0; free(_M_cfile); _M_cfile=0; return this; }
  bool __basic_file<char>::is_open() const throw() { return _M_cfile!=0; }
  int __basic_file<char>::sync() { return 0; }
  streamsize __basic_file<char>::showmanyc() { Handle* h=(Handle*)_M_cfile; return h->node->size-h->pos; }
  streamsize __basic_file<char>::xsgetn(char* s, streamsize n) { Handle* h=(Handle*)_M_cfile; if (!h->in) return -1; long k=h->node->size-h->pos; if (k<0) k=0; if (n<k) k=n; if (k>0) memcpy(s,h->node->data+h->pos,k); h->pos+=k; return k; }
  streamsize __basic_file<char>::xsputn(const char* s, streamsize n) { Handle* h=(Handle*)_M_cfile; if (!h->out) return -1; if (n<=0) return 0; Node* f=h->node; if (h->app) h->pos=f->size; long e=h->pos+n;
    if (e>f->cap) { long c=f->cap*2; if (c<e) c=e; char* d=(char*)malloc(c); if (f->size) memcpy(d,f->data,f->size); if (f->data) free(f->data); f->data=d; f->cap=c; }
    if (h->pos>f->size) memset(f->data+f->size,0,h->pos-f->size);
    memcpy(f->data+h->pos,s,n); h->pos=e; if (e>f->size) f->size=e; return n; }
  streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize k) { if (n) xsputn(a,n); xsputn(b,k); return n+k; }
  streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { Handle* h=(Handle*)_M_cfile; long p=o+(w==ios_base::beg?0:w==ios_base::cur?h->pos:h->node->size); if (p<0) return -1; h->pos=p; return p; }
}
