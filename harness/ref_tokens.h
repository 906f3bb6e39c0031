#pragma once
#include "common.h"
// Reference token lists, written from the documented meaning of each mode (not from the implementation):
// work on a classification isd[i] of every element and produce (first,last) index pairs.
typedef std::vector<std::pair<int,int> > ref_tokens;
enum { M_DEFAULT=0, M_COMPRESS=1, M_FIRST=2, M_FIRST_COMPRESS=3, M_ALL=4, M_ALL_COMPRESS=5 };
static ref_tokens ref_split(const std::vector<char>& isd, int mode)
{
   ref_tokens r; int n=(int)isd.size(); if (n==0) return r;
   int start=0;
   while (true)
   {
      int d=start; while (d<n && !isd[d]) ++d;        // first delimiter at or after start
      if (d==n) { r.push_back(std::make_pair(start,n)); return r; }   // final token (possibly empty: input ended in a delimiter)
      int run=d; while (run<n && isd[run]) ++run;     // end of the delimiter run
      int tok_end=d, next=d+1;
      if (mode==M_COMPRESS) next=run;
      if (mode==M_FIRST) { tok_end=d+1; next=d+1; }
      if (mode==M_FIRST_COMPRESS) { tok_end=d+1; next=run; }
      if (mode==M_ALL || mode==M_ALL_COMPRESS) { tok_end=run; next=run; }
      r.push_back(std::make_pair(start,tok_end));
      start=next;
   }
}
