P() { python3 - "$@" <<'X'
import sys
f,a,b=sys.argv[1:4]; s=open(f,newline="").read(); r="\r\n" in s; s=s.replace("\r\n","\n"); assert s.count(a)==1,(s.count(a),a); s=s.replace(a,b); open(f,"w",newline="").write(s.replace("\n","\r\n") if r else s)
X
}
L=/repo/src/loglevels.cpp
H='#include <g3log/g3log.hpp>
#include <g3log/loglevels.hpp>
#include <cstdio>
using namespace g3;
'
