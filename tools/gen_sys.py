"""The harnesses of S24, generated from the signatures in /repo's lib/sys/sys+linux-x64.myr.
The expected numbers come from the C headers, the expected layout too."""
import os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
HDR = '''#define _GNU_SOURCE
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <linux/futex.h>
#include <poll.h>
#include <asm/prctl.h>
#include <signal.h>
#include <linux/falloc.h>
#include <sched.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <errno.h>
#include <linux/serial.h>
#include <sys/utsname.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/timex.h>
#include <sys/uio.h>
#include <dirent.h>
#include <sys/sysinfo.h>
#include <sys/vfs.h>
#include <utime.h>
#include <time.h>
#include <mqueue.h>
#include <sys/sem.h>
#include <linux/aio_abi.h>
#include <stddef.h>
#include <linux/perf_event.h>
#include <linux/capability.h>
'''
ALIAS = {'openmode': 'open', 'pread': 'pread64', 'pwrite': 'pwrite64', 'memfdcreate': 'memfd_create', 'sigprocmask': 'rt_sigprocmask', 'epollcreate': 'epoll_create1', 'epollctl': 'epoll_ctl', 'epollwait': 'epoll_wait', 'fadvise': 'fadvise64', 'prlimit': 'prlimit64'}
SKIP = {'syscall', 'sigreturn', 'fnclone', 'execv', 'execve', 'waitstatus', 'cstring', 'alloca', 'sigaction', 'waitpid'}
# myrddin type, C type, fields
LAY = [
 ('timespec', 'struct timespec', 'sec=tv_sec nsec=tv_nsec'),
 ('timeval', 'struct timeval', 'sec=tv_sec usec=tv_usec'),
 ('statbuf', 'struct stat', 'dev=st_dev ino=st_ino nlink=st_nlink mode=st_mode uid=st_uid gid=st_gid rdev=st_rdev size=st_size blksz~st_blksize blocks=st_blocks atime@st_atim mtime@st_mtim ctime@st_ctim'),
 ('dirent64', 'struct dirent64', 'ino=d_ino off=d_off reclen=d_reclen etype=d_type'),
 ('utsname', 'struct utsname', 'system@sysname node@nodename release@release version@version machine@machine domain@domainname'),
 ('sockaddr', 'struct sockaddr', 'fam=sa_family data@sa_data'),
 ('sockaddr_in', 'struct sockaddr_in', 'fam=sin_family port=sin_port addr@sin_addr'),
 ('sockaddr_in6', 'struct sockaddr_in6', 'fam=sin6_family port=sin6_port flowinfo=sin6_flowinfo addr@sin6_addr scope=sin6_scope_id'),
 ('sockaddr_un', 'struct sockaddr_un', 'fam=sun_family path@sun_path'),
 ('epollevt', 'struct epoll_event', 'events=events data@data'),
 ('pollfd', 'struct pollfd', 'fd~fd events~events revents~revents'),
 ('iovec', 'struct iovec', 'base@iov_base len=iov_len'),
 ('msghdr', 'struct msghdr', 'name@msg_name namelen~msg_namelen iov@msg_iov iovlen=msg_iovlen control@msg_control controllen=msg_controllen flags~msg_flags'),
 ('rusage', 'struct rusage', 'utime@ru_utime stime@ru_stime'),
 ('sigaction', 'struct ksigaction', 'handler@h flags=fl restore@r mask@m'),
 ('itimerval', 'struct itimerval', 'interval@it_interval value@it_value'),
 ('itimerspec', 'struct itimerspec', 'interval@it_interval value@it_value'),
 ('tms', 'struct tms', 'utime=tms_utime stime=tms_stime cutime=tms_cutime cstime=tms_cstime'),
 ('rlimit', 'struct rlimit', 'cur=rlim_cur max=rlim_max'),
 ('rlimit64', 'struct rlimit64', 'cur=rlim_cur max=rlim_max'),
 ('timezone', 'struct timezone', 'minuteswest~tz_minuteswest dsttime~tz_dsttime'),
 ('utimbuf', 'struct utimbuf', 'actime=actime modtime=modtime'),
 ('sembuf', 'struct sembuf', 'num=sem_num op~sem_op flg~sem_flg'),
 ('mq_attr', 'struct mq_attr', 'mq_flags=mq_flags mq_maxmsg=mq_maxmsg mq_msgsize=mq_msgsize mq_curmsgs=mq_curmsgs'),
 ('timex', 'struct timex', 'modes=modes offset=offset freq=freq maxerror=maxerror esterror=esterror status~status constant=constant precision=precision tolerance=tolerance time@time tick=tick ppsfreq=ppsfreq jitter=jitter shift~shift stabil=stabil jitcnt=jitcnt calcnt=calcnt errcnt=errcnt stbcnt=stbcnt tai~tai'),
 ('statfs', 'struct statfs', 'kind=f_type bsize=f_bsize blocks=f_blocks bfree=f_bfree bavail=f_bavail files=f_files ffree=f_ffree fsid@f_fsid namelen=f_namelen frsize=f_frsize flags=f_flags'),
 ('sigaltstack', 'stack_t', 'sp@ss_sp flags~ss_flags size=ss_size'),
 ('sched_param', 'struct sched_param', 'priority~sched_priority'),
 ('sysinfo', 'struct sysinfo', 'uptime=uptime loads@loads totalram=totalram freeram=freeram sharedram=sharedram bufferram=bufferram totalswap=totalswap freeswap=freeswap procs=procs totalhigh=totalhigh freehigh=freehigh mem_unit=mem_unit'),
 ('iocb', 'struct iocb', 'data=aio_data lio_opcode=aio_lio_opcode reqprio~aio_reqprio fildes=aio_fildes buf=aio_buf nbytes=aio_nbytes offset=aio_offset flags=aio_flags resfd=aio_resfd'),
 ('io_event', 'struct io_event', 'data=data obj=obj res=res res2=res2'),
 ('mmsghdr', 'struct mmsghdr', 'hdr@msg_hdr len=msg_len'),
 ('cmsghdr', 'struct cmsghdr', 'len=cmsg_len level~cmsg_level cmtype~cmsg_type'),
 ('capuserheader', 'struct __user_cap_header_struct', 'version=version pid~pid'),
 ('capuserdata', 'struct __user_cap_data_struct', 'effective=effective permitted=permitted inheritable=inheritable'),
]
NOSIZE = {'dirent64', 'cmsghdr'}   # open-ended in Myrddin

def parse(repo):
    s = open(os.path.join(repo, 'lib/sys/sys+linux-x64.myr')).read().replace('\\\n', ' ')
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    sig = re.findall(r'^\s*(extern const|const|generic)\s+(\w+)\s*:\s*\((.*)->\s*([^)]*)\)', s, re.M)
    types = {m[1]: m[2].strip() for m in re.finditer(r'^\s*type\s+(\w+)\s*=\s*(.*)$', s, re.M)}
    seen = {}; out = []
    for k, n, a, r in sig:
        if n in seen: continue
        seen[n] = 1; out.append((n, [tuple(y.strip() for y in x.split(':', 1)) for x in a.split(',') if ':' in x], r.strip()))
    return out, types

W = {'int8': 8, 'uint8': 8, 'byte': 8, 'int16': 16, 'uint16': 16, 'int': 32, 'uint': 32, 'int32': 32, 'uint32': 32, 'int64': 64, 'uint64': 64, 'void': 0}
def width(t, types):
    for _ in range(10):
        if t in W: return W[t]
        if t.endswith('#'): return -1
        t = types[t]
    raise Exception(t)

def gen(repo, out, per):
    sig, types = parse(repo); nr = {m[1]: int(m[2]) for m in re.finditer(r'#define __NR_(\w+) (\d+)', open('/usr/include/x86_64-linux-gnu/asm/unistd_64.h').read())}
    fns = []; names = []
    for n, args, ret in sig:
        if n in SKIP: continue
        no = nr[ALIAS.get(n, n)]
        L = ['const w_%s = {' % n]; call = []; chk = []; mask = 0; i = 0
        if len(args) > 6: raise Exception(n)
        for an, at in args:
            v = 'a%d' % i
            if at == '@a#': at = 'byte#'
            q = re.sub(r'\b([a-z_][a-z_0-9]*)', lambda m: m[1] if m[1] in W else 'sys.' + m[1], at)
            if at == 'byte[:]' and an != 'buf':
                L += ['\tvar %s = str(%d)' % (v, i)]; mask |= 1 << i
                chk += ['\tvsym.check(3, k_rawis(%d, b(%s), (%s.len : uint64)) == 1)' % (i, v, v)]
            elif at.endswith('[:]'):
                p = re.sub(r'\[:\]$', '#', q)
                L += ['\tvar p%d = addr(%d)' % (i, i), '\tvar l%d = len()' % i, '\tvar %s = (p%d : %s)[:(l%d : std.size)]' % (v, i, p, i)]
                chk += ['\tvsym.check(4, k_rawarg(%d) == p%d)' % (i, i), '\tvsym.check(5, k_rawarg(%d) == l%d)' % (i + 1, i)]; call.append(v); i += 2; continue
            elif at == 'clock':
                L += ['\tvar c%d = pick(0, 9)' % i, '\tvar %s : sys.clock = clk(c%d)' % (v, i)]; chk += ['\tvsym.check(6, (k_rawarg(%d) : uint32) == (c%d : uint32))' % (i, i)]
            else:
                w = width(at, types)
                L += ['\tvar x%d = vsym.u64()' % i, '\tvar %s = (x%d : %s)' % (v, i, q)]
                chk += ['\tvsym.check(2, (k_rawarg(%d) ^ x%d) & 0x%x == 0)' % (i, i, (1 << (w if w > 0 else 64)) - 1)]
            call.append(v); i += 1
        if n == 'open': chk += ['\tvsym.check(2, k_rawarg(2) == 0o777)']
        if n == 'sigprocmask': chk += ['\tvsym.check(2, k_rawarg(3) == 8)']
        rw = width(ret, types)
        L += ['\tvar r = ret()', '\tk_rawret(r)', '\tk_raw(1, 0x%x)' % mask]
        cs = 'sys.%s(%s)' % (n, ', '.join(call))
        if rw == 0: L += ['\t' + cs, '\tk_raw(0, 0)']
        else: L += ['\tvar y = (%s : uint64)' % cs, '\tk_raw(0, 0)', '\tvsym.check(7, (y ^ r) & 0x%x == 0)' % ((1 << (rw if rw > 0 else 64)) - 1)]
        L += ['\tvsym.check(1, k_rawn() == 1 && (k_rawno() == %d))' % no] + chk + ['}']
        fns.append('\n'.join(L)); names.append(n)
    M = open(os.path.join(HERE, '..', 'harness', 'lib', 'syscalls.tmpl')).read()
    disp = ''.join('\t| %d:\tw_%s()\n' % (i, n) for i, n in enumerate(names))
    M = M.replace('@FNS@', '\n'.join(fns)).replace('@DISP@', disp).replace('@N@', str(len(names))).replace('@PER@', str(per))
    p = os.path.join(out, 'syscalls.myr'); open(p, 'w').write(M)
    # constants and layouts
    cs = [l.split() for l in open(os.path.join(HERE, 'sysconsts.txt'))]
    C = [HDR, 'typedef unsigned long long u64; typedef long long i64; typedef unsigned char u8;', 'struct ksigaction { void*h; unsigned long fl; void*r; unsigned long m; };',
         'static const u64 cv[] = { %s };' % ', '.join(('-(u64)(%s)' if n[0] == 'E' and c[0] == 'E' and not c.startswith('EPOLL') else '(u64)(%s)') % c for n, c in cs), 'u64 r_const(i64 i){ return cv[i]; }']
    D = []; CC = []
    for i, (n, c) in enumerate(cs):
        CC.append('\tv = (sys.%s : uint64)\n\tvsym.check(20, (v ^ r_const(%d)) & 0xffffffff == 0)' % (n, i))
    k = 0
    for t, ct, f in LAY:
        d = ['const l_%s = {' % t, '\tvar p = (&mem[0] : sys.%s#)' % t]
        C += ['u64 r_sz%d(void){ return sizeof(%s); }' % (k, ct)]
        D.append('extern const r_sz%d : (-> uint64)' % k)
        if t not in NOSIZE: d.append('\tvsym.check(21, (sizeof(sys.%s) : uint64) == r_sz%d())' % (t, k))
        for j, x in enumerate(f.split()):
            m = re.match(r'(\w+)([=~@])(\w+)', x); a, op, b = m.groups()
            C += ['u64 r_of%d_%d(void){ return offsetof(%s, %s); }' % (k, j, ct, b)]; D.append('extern const r_of%d_%d : (-> uint64)' % (k, j))
            d.append('\tvsym.check(22, (&p.%s : uint64) - (p : uint64) == r_of%d_%d())' % (a, k, j))
            if op != '@':
                C += ['u64 r_va%d_%d(u8*p){ return (u64)((%s*)p)->%s; }' % (k, j, ct, b)]; D.append('extern const r_va%d_%d : (p : byte# -> uint64)' % (k, j))
                d.append('\tvsym.check(23, ((p.%s : uint64) ^ r_va%d_%d(&mem[0])) & 0x%x == 0)' % (a, k, j, {'=': (1 << 64) - 1, '~': 0xffff if t in ('pollfd', 'sembuf', 'iocb') and a != 'fd' else 0xffffffff}[op]))
        d.append('}'); CC.append('\tl_%s()' % t); D.append('\n'.join(d)); k += 1
    M = open(os.path.join(HERE, '..', 'harness', 'lib', 'sysconst.tmpl')).read().replace('@D@', '\n'.join(D)).replace('@C@', '\n'.join(CC))
    p2 = os.path.join(out, 'sysconst.myr'); open(p2, 'w').write(M)
    p3 = os.path.join(out, 'sysconst_ref.c'); open(p3, 'w').write('\n'.join(C) + '\n')
    return p, p2, p3, names
