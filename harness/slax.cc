// slax JOBFILE OUT: runs a list of operations on the real sparse and dense vectors and matrices (sla.h, sla_mask.h)
// and records each result. A line: OP r x y a n  followed by a list of numbers (count first).
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <vector>
#include <map>
#include <queue>
#include <cmath>
#include <algorithm>
#include <cassert>
#include <cstring>
#include <cerrno>
#include "zmdpCommonDefs.h"
#include "zmdpCommonTypes.h"
#include "MatrixUtils.h"
#include "sla_mask.h"
using namespace sla; using std::string;
static std::vector<cvector> C(8); static std::vector<dvector> D(8); static std::vector<kmatrix> K(8); static std::vector<cmatrix> A(8);
static int exact; static string num(double v){ if(!(v==std::floor(v))||std::fabs(v)>1e9){exact=0; return "0";} char b[40]; snprintf(b,40,"%.0f",v); return v==0?"0":b; }
static FILE*out;
static void emit(const string&op,int*p,const std::vector<double>&in,const string&s1,const string&cells,const string&n){
  fprintf(out,"{\"e\":\"Op\",\"op\":\"%s\",\"r\":%d,\"x\":%d,\"y\":%d,\"a\":%d,\"n\":%d,\"in\":[",op.c_str(),p[0],p[1],p[2],p[3],p[4]);
  for(size_t i=0;i<in.size();i++) fprintf(out,"%s%.0f",i?",":"",in[i]);
  fprintf(out,"],\"size\":[%s],\"cells\":[%s],\"num\":%s,\"exact\":%d}\n",s1.c_str(),cells.c_str(),n.c_str(),exact);
}
static string S(int a){ return std::to_string(a); }
static string cells(const cvector&x){ string r; for(auto&e:x.data) r+=(r.empty()?"[":",[")+S(e.index)+","+num(e.value)+"]"; return r; }
static string cells(const dvector&x){ string r; for(size_t i=0;i<x.data.size();i++) r+=(i?",[":"[")+S(i)+","+num(x.data[i])+"]"; return r; }
static string cells(const kmatrix&x){ string r; for(auto&e:x.data) r+=(r.empty()?"[":",[")+S(e.r)+","+S(e.c)+","+num(e.value)+"]"; return r; }
static string cells(const cmatrix&x){ string r; for(unsigned c=0;c<x.size2();c++) for(unsigned i=x.col_starts[c];i<x.col_starts[c+1];i++) r+=(r.empty()?"[":",[")+S(x.data[i].index)+","+S(c)+","+num(x.data[i].value)+"]"; return r; }
int main(int argc,char**argv){
  std::ifstream job(argv[1]); out=fopen(argv[2],"w"); string line;
  while(getline(job,line)){
    std::istringstream is(line); string op; int p[5]; is>>op; for(int&i:p) is>>i; int k; is>>k; std::vector<double> in(k); for(double&v:in) is>>v;
    if(op=="Run"){ // verbatim line follows
      getline(job,line); fprintf(out,"%s\n",line.c_str()); for(auto&x:C) x=cvector(); for(auto&x:D) x=dvector(); for(auto&x:K) x=kmatrix(); for(auto&x:A) x=cmatrix(); continue; }
    int r=p[0],x=p[1],y=p[2],a=p[3],n=p[4]; char t=0; double v=0; exact=1; fflush(out);
    double eps=n/2.0;
    if(op=="cset"){ C[r].resize(n); for(int i=0;i+1<k;i+=2) C[r].push_back(in[i],in[i+1]); C[r].canonicalize(); t='c'; }
    else if(op=="cread"){ std::stringstream s; s<<n<<" "<<k/2<<"\n"; for(int i=0;i+1<k;i+=2) s<<in[i]<<" "<<in[i+1]<<"\n"; C[r].read(s); t='c'; }
    else if(op=="dset"){ D[r].resize(k); for(int i=0;i<k;i++) D[r](i)=in[i]; t='d'; }
    else if(op=="dio"){ std::stringstream s; D[x].write(s); D[r].read(s); t='d'; }
    else if(op=="kset"){ K[r].resize(x,y); for(int i=0;i+2<k;i+=3) kmatrix_set_entry(K[r],in[i],in[i+1],in[i+2]); }
    else if(op=="kcanon"){ K[r].canonicalize(); t='k'; }
    else if(op=="ktrans"){ kmatrix_transpose_in_place(K[r]); t='k'; }
    else if(op=="ka"){ copy(A[r],K[x]); t='a'; }
    else if(op=="aread"){ std::stringstream s; s<<x<<" "<<y<<"\n"<<k/3<<"\n"; for(int i=0;i+2<k;i+=3) s<<in[i]<<" "<<in[i+1]<<" "<<in[i+2]<<"\n"; A[r].read(s); t='a'; }
    else if(op=="aio"){ std::stringstream s; A[a].write(s); A[r].read(s); t='a'; }
    else if(op=="aset"){ A[r].resize(x,y); for(int i=0;i+2<k;i+=3) A[r].push_back(in[i],in[i+1],in[i+2]); A[r].canonicalize(); t='a'; }
    else if(op=="c2c"){ copy(C[r],C[x]); t='c'; } else if(op=="d2d"){ copy(D[r],D[x]); t='d'; }
    else if(op=="c2d"){ copy(D[r],C[x]); t='d'; } else if(op=="d2c"){ copy(C[r],D[x]); t='c'; }
    else if(op=="colc"){ copy_from_column(C[r],A[a],n); t='c'; } else if(op=="cold"){ copy_from_column(D[r],A[a],n); t='d'; }
    else if(op=="onec"){ set_to_one(C[r],n); t='c'; } else if(op=="oned"){ set_to_one(D[r],n); t='d'; }
    else if(op=="zc"){ MatrixUtils::set_to_zero(C[r]); t='c'; } else if(op=="zd"){ MatrixUtils::set_to_zero(D[r]); t='d'; }
    else if(op=="za"){ MatrixUtils::set_to_zero(A[r]); t='a'; } else if(op=="zk"){ MatrixUtils::set_to_zero(K[r]); t='k'; }
    else if(op=="mulcd"){ mult(D[r],A[a],C[x]); t='d'; } else if(op=="mulcc"){ mult(C[r],A[a],C[x]); t='c'; }
    else if(op=="dA"){ mult(D[r],D[x],A[a]); t='d'; } else if(op=="cA"){ mult(D[r],C[x],A[a]); t='d'; } else if(op=="cAc"){ mult(C[r],C[x],A[a]); t='c'; }
    else if(op=="edd"){ emult(D[r],D[x],D[y]); t='d'; } else if(op=="ecc"){ emult(C[r],C[x],C[y]); t='c'; } else if(op=="edc"){ emult(D[r],D[x],C[y]); t='d'; }
    else if(op=="ecolc"){ emult_column(C[r],A[a],n,C[x]); t='c'; } else if(op=="ecold"){ emult_column(D[r],A[a],n,D[x]); t='d'; }
    else if(op=="max"){ emax(D[r],D[x],D[y]); t='d'; } else if(op=="maxa"){ max_assign(D[r],D[x]); t='d'; }
    else if(op=="add"){ add(C[r],C[x],C[y]); t='c'; } else if(op=="sub"){ subtract(C[r],C[x],C[y]); t='c'; }
    else if(op=="cadd"){ C[r]+=C[x]; t='c'; } else if(op=="csub"){ C[r]-=C[x]; t='c'; } else if(op=="cscale"){ C[r]*=n; t='c'; }
    else if(op=="dadd"){ D[r]+=D[x]; t='d'; } else if(op=="dsub"){ D[r]-=D[x]; t='d'; } else if(op=="dscale"){ D[r]*=n; t='d'; }
    else if(op=="n1c") v=norm_1(C[x]); else if(op=="nic") v=norm_inf(C[x]); else if(op=="nid") v=norm_inf(D[x]);
    else if(op=="sc") v=sum(C[x]); else if(op=="sd") v=sum(D[x]);
    else if(op=="idc") v=inner_prod(D[x],C[y]); else if(op=="icc") v=inner_prod(C[x],C[y]); else if(op=="icol") v=inner_prod_column(A[a],n,C[x]);
    else if(op=="domd") v=dominates(D[x],D[y],eps); else if(op=="domc") v=dominates(C[x],C[y],eps);
    else if(op=="getc") v=C[x](n); else if(op=="geta") v=A[a](x,y); else if(op=="getk") v=K[r](x,y); else if(op=="fill") v=A[a].filled_in_column(n);
    else if(op=="dmat"){ dmatrix M; M.resize(x,y); for(int i=0;i+2<k;i+=3) M(in[i],in[i+1])=in[i+2]; const dmatrix&Z=M; v=Z(r,a); if(n){ MatrixUtils::set_to_zero(M); v=Z(r,a); } }
    else if(op=="mall"){ mask_set_all(C[r],n); t='c'; } else if(op=="mone"){ mask_set_to_one(C[r],C[x]); t='c'; }
    else if(op=="msub") v=mask_subset(C[x],C[y]);
    else if(op=="mcd"){ mask_copy(C[r],D[x],C[y]); t='c'; } else if(op=="mcc"){ mask_copy(C[r],C[x],C[y]); t='c'; }
    else if(op=="mdom") v=mask_dominates(C[x],C[y],eps,C[r],C[a]);
    else { fprintf(stderr,"unknown op %s\n",op.c_str()); return 2; }
    if(t=='c') emit(op,p,in,S(C[r].size()),cells(C[r]),"0");
    else if(t=='d') emit(op,p,in,S(D[r].size()),cells(D[r]),"0");
    else if(t=='k') emit(op,p,in,S(K[r].size1())+","+S(K[r].size2()),cells(K[r]),"0");
    else if(t=='a') emit(op,p,in,S(A[r].size1())+","+S(A[r].size2()),cells(A[r]),"0");
    else { string z=num(v); emit(op,p,in,"0","",z); }
  }
  fclose(out); return 0;
}
