#include "decode.h"
#include <elf.h>
static std::map<std::string,std::pair<int,int>> regmap; // name -> (num,size) ; hi encoded as size 100+
static void initregs(){ const char*q[]={"rax","rcx","rdx","rbx","rsp","rbp","rsi","rdi"}; const char*d[]={"eax","ecx","edx","ebx","esp","ebp","esi","edi"}; const char*w[]={"ax","cx","dx","bx","sp","bp","si","di"}; const char*b[]={"al","cl","dl","bl","spl","bpl","sil","dil"}; const char*h[]={"ah","ch","dh","bh"};
 for(int i=0;i<8;i++){regmap[q[i]]={i,8};regmap[d[i]]={i,4};regmap[w[i]]={i,2};regmap[b[i]]={i,1};} for(int i=0;i<4;i++)regmap[h[i]]={i,101};
 for(int i=8;i<16;i++){ std::string r="r"+std::to_string(i); regmap[r]={i,8};regmap[r+"d"]={i,4};regmap[r+"w"]={i,2};regmap[r+"b"]={i,1}; } for(int i=0;i<16;i++)regmap["xmm"+std::to_string(i)]={i,16}; }
static i64 num(const std::string&s){ bool ng=s[0]=='-'; const char*p=s.c_str()+(ng||s[0]=='+'); u64 v=strtoull(p,0,0); return ng?(i64)(0-v):(i64)v; }
static bool parse_opd(std::string s,Opd&o,u64 next){ while(!s.empty()&&s[0]==' ')s.erase(0,1); while(!s.empty()&&s.back()==' ')s.pop_back(); if(s.empty())return false;
 static const std::pair<const char*,int> szs[]={{"BYTE PTR ",1},{"XMMWORD PTR ",16},{"QWORD PTR ",8},{"DWORD PTR ",4},{"WORD PTR ",2}}; int sz=0; for(auto&p:szs)if(s.compare(0,strlen(p.first),p.first)==0){sz=p.second;s=s.substr(strlen(p.first));break;}
 auto r=regmap.find(s); if(r!=regmap.end()&&!sz){ if(r->second.second==16){o.k=K_XMM;o.size=16;o.reg=r->second.first;return true;} o.k=K_REG;o.reg=r->second.first;o.hi=r->second.second>100;o.size=o.hi?1:r->second.second;return true; }
 bool mem=sz>0; if(s.compare(0,3,"fs:")==0){o.fs=true;s=s.substr(3);mem=true;} else if(s.compare(0,3,"ds:")==0||s.compare(0,3,"es:")==0||s.compare(0,3,"ss:")==0||s.compare(0,3,"cs:")==0){s=s.substr(3);mem=true;}
 if(s[0]=='['){ o.k=K_MEM;o.size=sz; size_t e=s.find(']'); std::string in=s.substr(1,e-1); size_t p=0; while(p<in.size()){ size_t q=p+1; while(q<in.size()&&in[q]!='+'&&in[q]!='-')q++; std::string t=in.substr(p,q-p); if(t[0]=='+')t=t.substr(1); p=q; size_t st=t.find('*'); if(st!=std::string::npos){ auto rr=regmap.find(t.substr(0,st)); if(rr==regmap.end()){ if(t.substr(0,st)=="riz")continue; return false;} o.index=rr->second.first;o.scale=atoi(t.c_str()+st+1); } else if(t=="rip"){o.rip=true;} else { auto rr=regmap.find(t); if(rr!=regmap.end()){ if(rr->second.second!=8)return false; if(o.base<0)o.base=rr->second.first; else {o.index=rr->second.first;o.scale=1;} } else o.disp+=num(t); } }
   if(o.rip){o.disp+=next;} return true; }
 if(mem){ o.k=K_MEM;o.size=sz;o.disp=num(s);return true; }
 if(isdigit(s[0])||s[0]=='-'){ o.k=K_IMM;o.size=0;o.disp=num(s);return true; }
 return false; }
static int ccof(const std::string&s){ static const std::map<std::string,int> m={{"o",0},{"no",1},{"b",2},{"c",2},{"nae",2},{"ae",3},{"nb",3},{"nc",3},{"e",4},{"z",4},{"ne",5},{"nz",5},{"be",6},{"na",6},{"a",7},{"nbe",7},{"s",8},{"ns",9},{"p",10},{"np",11},{"l",12},{"nge",12},{"ge",13},{"nl",13},{"le",14},{"ng",14},{"g",15},{"nle",15}}; auto i=m.find(s); return i==m.end()?-1:i->second; }
static std::map<std::string,std::pair<Mn,int>> mnem={
#define A(x) {#x,{M_##x,0}}
 A(mov),A(movzx),A(movsx),A(lea),A(push),A(pop),A(call),A(ret),A(jmp),A(add),A(sub),A(adc),A(sbb),A(cmp),A(test),A(and),A(or),A(xor),A(not),A(neg),A(inc),A(dec),A(imul),A(mul),A(div),A(idiv),A(cqo),A(cdq),A(cwd),A(cdqe),A(cwde),A(cbw),A(shl),A(shr),A(sar),A(rol),A(ror),A(shld),A(shrd),A(bt),A(bts),A(btr),A(btc),A(bsr),A(bsf),A(tzcnt),A(lzcnt),A(popcnt),A(xchg),A(xadd),A(cmpxchg),A(bswap),A(nop),A(leave),A(cld),A(std),A(movs),A(stos),A(scas),A(cmps),A(lods),A(hlt),A(ud2),A(int3),A(syscall),A(cpuid),A(rdtsc),A(ldmxcsr),A(stmxcsr),A(fnstcw),A(fldcw),A(movaps),A(movd),A(movq),A(movlps),A(movhps),A(movhlps),A(movlhps),A(pxor),A(pand),A(pandn),A(por),A(punpcklqdq),A(punpckldq),A(pshufd),A(shufps),A(unpcklps),A(stc),A(clc),A(sahf),A(lahf),
 {"sal",{M_shl,0}},{"movabs",{M_mov,0}},{"movsxd",{M_movsx,0}},{"endbr64",{M_nop,0}},{"pause",{M_nop,0}},{"mfence",{M_nop,0}},{"lfence",{M_nop,0}},{"sfence",{M_nop,0}},{"data16",{M_nop,0}},{"fwait",{M_nop,0}},{"prefetcht0",{M_nop,0}},
 {"movapd",{M_movaps,0}},{"movups",{M_movaps,0}},{"movupd",{M_movaps,0}},{"movdqa",{M_movaps,0}},{"movdqu",{M_movaps,0}},{"xorps",{M_pxor,0}},{"xorpd",{M_pxor,0}},{"andps",{M_pand,0}},{"andpd",{M_pand,0}},{"andnps",{M_pandn,0}},{"andnpd",{M_pandn,0}},{"orps",{M_por,0}},{"orpd",{M_por,0}},{"movlpd",{M_movlps,0}},{"movhpd",{M_movhps,0}},{"unpcklpd",{M_punpcklqdq,0}},
 {"movss",{M_movss,32}},{"movsd",{M_movsdx,64}},{"addss",{M_addf,32}},{"addsd",{M_addf,64}},{"subss",{M_subf,32}},{"subsd",{M_subf,64}},{"mulss",{M_mulf,32}},{"mulsd",{M_mulf,64}},{"divss",{M_divf,32}},{"divsd",{M_divf,64}},{"sqrtss",{M_sqrtf,32}},{"sqrtsd",{M_sqrtf,64}},{"minss",{M_minf,32}},{"minsd",{M_minf,64}},{"maxss",{M_maxf,32}},{"maxsd",{M_maxf,64}},{"cvtsi2ss",{M_cvtsi2f,32}},{"cvtsi2sd",{M_cvtsi2f,64}},{"cvttss2si",{M_cvttf2si,32}},{"cvttsd2si",{M_cvttf2si,64}},{"cvtss2si",{M_cvtf2si,32}},{"cvtsd2si",{M_cvtf2si,64}},{"cvtss2sd",{M_cvtf2f,64}},{"cvtsd2ss",{M_cvtf2f,32}},{"comiss",{M_ucomi,32}},{"ucomiss",{M_ucomi,32}},{"comisd",{M_ucomi,64}},{"ucomisd",{M_ucomi,64}},{"roundss",{M_round,32}},{"roundsd",{M_round,64}},
 {"vfmadd132ss",{M_vfmadd132,32}},{"vfmadd132sd",{M_vfmadd132,64}},{"vfmadd213ss",{M_vfmadd213,32}},{"vfmadd213sd",{M_vfmadd213,64}},{"vfmadd231ss",{M_vfmadd231,32}},{"vfmadd231sd",{M_vfmadd231,64}} };
static void decode_text(Insn&in,std::string t){ in.text=t; size_t h=t.find(" # "); if(h!=std::string::npos)t=t.substr(0,h); h=t.find("        #"); if(h!=std::string::npos)t=t.substr(0,h); h=t.find('<'); if(h!=std::string::npos)t=t.substr(0,h);
 auto word=[&](){ while(!t.empty()&&t[0]==' ')t.erase(0,1); size_t p=t.find(' '); std::string w=t.substr(0,p); t=p==std::string::npos?"":t.substr(p+1); while(!t.empty()&&t[0]==' ')t.erase(0,1); return w; };
 std::string m=word(); for(;;){ if(m=="lock"){in.lock=true;m=word();} else if(m=="rep"||m=="repz"||m=="repe"){in.rep=1;m=word();} else if(m=="repnz"||m=="repne"){in.rep=2;m=word();} else if(m=="bnd"||m=="notrack"||m=="cs"||m=="ds"||m=="es"||m=="data16"||m=="rex.W"||m=="addr32"){ m=word(); if(m.empty()){in.m=M_nop;return;} } else break; }
 auto it=mnem.find(m); if(it!=mnem.end()){in.m=it->second.first;in.fw=it->second.second;}
 else if(m[0]=='j'){int c=ccof(m.substr(1)); if(c>=0){in.m=M_jcc;in.cc=c;}} else if(m.compare(0,3,"set")==0){int c=ccof(m.substr(3)); if(c>=0){in.m=M_setcc;in.cc=c;}} else if(m.compare(0,4,"cmov")==0){int c=ccof(m.substr(4)); if(c>=0){in.m=M_cmov;in.cc=c;}}
 if(in.m==M_nop)return;
 if(in.m==M_jcc||((in.m==M_jmp||in.m==M_call)&&isxdigit(t[0])&&t.find("PTR")==std::string::npos&&!regmap.count(std::string(t,0,t.find(' '))))){ in.target=strtoull(t.c_str(),0,16); return; }
 // split operands on commas
 size_t p=0; while(p<t.size()&&in.no<3){ size_t q=t.find(',',p); if(q==std::string::npos)q=t.size(); if(!parse_opd(t.substr(p,q-p),in.o[in.no],in.next)){in.m=M_BAD;return;} in.no++; p=q+1; } }
bool load_image(const char*path,Image&im){ initregs(); FILE*f=fopen(path,"rb"); if(!f)return false; std::vector<u8> d; u8 buf[65536]; size_t n; while((n=fread(buf,1,sizeof buf,f))>0)d.insert(d.end(),buf,buf+n); fclose(f);
 Elf64_Ehdr*eh=(Elf64_Ehdr*)d.data(); im.entry=eh->e_entry; Elf64_Phdr*ph=(Elf64_Phdr*)(d.data()+eh->e_phoff);
 for(int i=0;i<eh->e_phnum;i++)if(ph[i].p_type==PT_LOAD&&ph[i].p_memsz){ Image::Seg s; s.va=ph[i].p_vaddr; s.w=ph[i].p_flags&PF_W; s.d.assign(ph[i].p_memsz,0); memcpy(s.d.data(),d.data()+ph[i].p_offset,ph[i].p_filesz); im.segs.push_back(s); }
 Elf64_Shdr*sh=(Elf64_Shdr*)(d.data()+eh->e_shoff); for(int i=0;i<eh->e_shnum;i++)if(sh[i].sh_type==SHT_SYMTAB){ const char*str=(const char*)d.data()+sh[sh[i].sh_link].sh_offset; Elf64_Sym*s=(Elf64_Sym*)(d.data()+sh[i].sh_offset); int ns=sh[i].sh_size/sizeof(Elf64_Sym); for(int k=0;k<ns;k++){ std::string nm=str+s[k].st_name; if(nm.empty()||s[k].st_shndx==SHN_UNDEF||ELF64_ST_TYPE(s[k].st_info)==STT_FILE||ELF64_ST_TYPE(s[k].st_info)==STT_SECTION)continue; im.byname[nm]=s[k].st_value; if(s[k].st_shndx<eh->e_shnum&&(sh[s[k].st_shndx].sh_flags&SHF_EXECINSTR)){ if(nm[0]=='.'||nm.compare(0,2,"L.")==0||nm.compare(0,2,".L")==0)continue; if(!im.syms.count(s[k].st_value)||ELF64_ST_BIND(s[k].st_info)==STB_GLOBAL)im.syms[s[k].st_value]=nm; } } }
 std::string cmd=std::string("objdump -d -M intel --no-show-raw-insn -w '")+path+"'"; FILE*p=popen(cmd.c_str(),"r"); if(!p)return false; char line[4096];
 while(fgets(line,sizeof line,p)){ char*e; if(line[0]!=' ')continue; u64 a=strtoull(line,&e,16); if(*e!=':'||e[1]!='\t')continue; std::string t=e+2; while(!t.empty()&&(t.back()=='\n'||t.back()==' '))t.pop_back(); if(!im.ins.empty())im.ins.back().next=a; Insn in; in.addr=a; in.text=t; im.ins.push_back(in); }
 pclose(p); if(im.ins.empty())return false; im.ins.back().next=im.ins.back().addr+1; im.lo=im.ins[0].addr; im.hi=im.ins.back().next; for(auto&i:im.ins){if(i.addr<im.lo)im.lo=i.addr; if(i.addr>=im.hi)im.hi=i.addr+1;}
 im.idx.assign(im.hi-im.lo,-1); for(size_t i=0;i<im.ins.size();i++){ Insn&in=im.ins[i]; im.idx[in.addr-im.lo]=i; std::string t=in.text; decode_text(in,t); }
 return true; }
// ---- post-dominators, per function, computed on demand
static std::unordered_map<u64,u64> ipd; static std::set<u64> ipdone;
u64 ipdom_of(Image&im,u64 a){ auto it=ipd.find(a); if(it!=ipd.end())return it->second; auto s=im.syms.upper_bound(a); if(s==im.syms.begin())return 0; u64 end=s==im.syms.end()?im.hi:s->first; --s; u64 beg=s->first; if(!ipdone.insert(beg).second)return 0;
 // nodes: instruction indices in [beg,end) reachable intraprocedurally
 std::vector<int> nodes; std::unordered_map<int,int> id; std::vector<std::vector<int>> succ; std::vector<int> st; auto get=[&](u64 ad){ if(ad<beg||ad>=end)return -1; int i=im.idx[ad-im.lo]; if(i<0)return -1; auto f=id.find(i); if(f!=id.end())return f->second; int k=nodes.size(); id[i]=k; nodes.push_back(i); succ.push_back({}); st.push_back(k); return k; };
 get(a); for(u64 x=beg;x<end;x++){ if(im.idx[x-im.lo]>=0)get(x); } 
 for(size_t k=0;k<nodes.size();k++){ Insn&in=im.ins[nodes[k]]; auto add=[&](u64 t){ int j=get(t); succ[k].push_back(j); }; if(in.m==M_ret||in.m==M_hlt||in.m==M_ud2){succ[k].push_back(-1);} else if(in.m==M_jmp){ if(in.target)add(in.target); else succ[k].push_back(-1);} else if(in.m==M_jcc){add(in.target);add(in.next);} else add(in.next); }
 int n=nodes.size(); int EX=n; std::vector<std::vector<int>> pred(n+1); for(int k=0;k<n;k++)for(int&j:succ[k]){ if(j<0)j=EX; pred[j].push_back(k);} 
 // reverse postorder on reverse graph from EX
 std::vector<int> order,num(n+1,-1); { std::vector<std::pair<int,size_t>> stk; std::vector<bool> vis(n+1,false); stk.push_back({EX,0}); vis[EX]=true; while(!stk.empty()){ auto&t=stk.back(); if(t.second<pred[t.first].size()){int p=pred[t.first][t.second++]; if(!vis[p]){vis[p]=true;stk.push_back({p,0});}} else {order.push_back(t.first);stk.pop_back();} } std::reverse(order.begin(),order.end()); for(size_t i=0;i<order.size();i++)num[order[i]]=i; }
 std::vector<int> idom(n+1,-1); idom[EX]=EX; bool ch=true; auto inter=[&](int x,int y){ while(x!=y){ while(num[x]>num[y])x=idom[x]; while(num[y]>num[x])y=idom[y]; } return x; };
 while(ch){ ch=false; for(size_t i=1;i<order.size();i++){ int b=order[i]; int nd=-1; for(int s2:succ[b])if(num[s2]>=0&&idom[s2]>=0)nd=nd<0?s2:inter(nd,s2); if(nd>=0&&idom[b]!=nd){idom[b]=nd;ch=true;} } }
 for(int k=0;k<n;k++){ Insn&in=im.ins[nodes[k]]; if(in.m==M_jcc)ipd[in.addr]=(idom[k]<0||idom[k]==EX)?0:im.ins[nodes[idom[k]]].addr; }
 it=ipd.find(a); return it==ipd.end()?0:it->second; }
