#include "ref.h"
u64 r_xoro(u64*s){ u64 a=s[0],b=s[1],r=a+b; b^=a; s[0]=(a<<55|a>>9)^b^(b<<14); s[1]=b<<36|b>>28; return r; }
