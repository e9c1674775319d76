import sys,json
f,line,n=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
L=open(f).read().split('\n'); st=max(i for i in range(line) if '"Problem"' in L[i])
w=int(sys.argv[4]) if len(sys.argv)>4 else 700
for i in sorted(set([st,st+1]+list(range(max(st+1,line-n),line+1)))): print(i+1,L[i][:w if i!=st else 3000])
