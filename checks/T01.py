LIBS = ['std', 'thread']
def setup(ck):
    T = ck.thorough()
    h = ck.harness('thrs', 'lib/thrs.myr', [], ('std', 'thread'))
    def case(k, title, bound, expect=(1,), pre=3, tpre=5, time=200):
        p = tpre if T else pre
        ck.case(h, k, title, '%s; every schedule with at most %d preemptions at accesses to shared objects' % (bound, p), expect=list(expect), threads=True, time=850 if T else time,
                opts=['--maxinstr', '40000000000', '--pathinstr', '40000000', '--preempt', str(p)])
    case(1, 'mutex: exclusion', '2 threads', (1, 2, 3)); case(2, 'mutex: exclusion', '3 threads', (1, 2, 3)); case(3, 'mutex: exclusion', '2 threads, one locking twice', (1, 2, 3))
    case(4, 'mutex: trylock', '2 threads', (1, 2, 3, 4, 5, 6, 7))
    for k, t in ((10, '1 waiter, signal under the lock'), (11, '1 waiter, signal after unlocking'), (12, '2 waiters, 2 signals under the lock'), (13, '2 waiters, 2 signals after unlocking'), (14, '2 waiters, broadcast under the lock'), (15, '2 waiters, broadcast after unlocking')):
        case(k, 'condition variable', t, (1, 2))
    case(20, 'semaphore: exclusion', '2 threads', (1, 2, 3, 4)); case(21, 'semaphore: exclusion', '3 threads', (1, 2, 3, 4)); case(22, 'semaphore: posts and waits match', '3 threads', (1, 2, 3)); case(23, 'semaphore: trywait', '2 threads', (1, 2, 3)); case(24, 'semaphore: counting', '1 thread, 0..3', (1, 2, 3))
    for k, t in ((30, '1 reader, 1 writer'), (31, '2 readers, 1 writer'), (32, '2 writers'), (33, '1 reader, 2 writers')):
        case(k, 'readers and writers', t, tuple(([1] if k != 32 else []) + list(range(2, 12))))
    case(34, 'readers inside together', '2 readers'); case(35, 'tryrdlock and trywrlock', '2 threads', (1, 2, 3))
    for k in (40, 41, 42): case(k, 'wait group', '%d posts' % (k - 39), (1, 2))
    case(43, 'wait group', '2 waiters', (1, 2, 3))
    case(50, 'queue', '1 item', (1,)); case(51, 'queue: order', '2 items'); case(52, 'queue', '2 producers'); case(53, 'queue', '2 consumers')
    case(60, 'future', '2 threads'); case(61, 'do', '2 futures', (1, 2, 3))
    case(70, 'thread local slots and ids', '2 threads, 13 slots', (1, 2, 3, 4, 5, 6)); case(71, 'allocation', '2 threads', (1, 2, 3, 4, 5, 6))
    for k, t in ((80, 'int32'), (81, 'uint32'), (82, 'int64'), (83, 'uint64')): case(k, 'atomics of ' + t, 'every value', range(1, 9))
    case(84, 'xadd', '2 threads, every value'); case(85, 'xchg', '2 threads', (2,)); case(86, 'xcas', '2 threads', (3,))
    for k, t in enumerate(('locking a mutex twice', 'unlocking an unlocked mutex', 'a post too many', 'unlocking a lock nobody reads', 'locking an rwlock twice', 'unlocking an rwlock not held', 'overflowing a semaphore', 'unlocking an rwlock twice', 'unlocking a mutex twice', 'unlocking the mutex of another thread')):
        case(90 + k, 'misuse ends the process', t, (10,) if k == 0 else ())
    case(64, 'condition variable', 'a waiter, a broadcast and a signal, and a thread locking', (1, 2)); case(65, 'queue', '2 queues, back and forth', (1, 2)); case(66, 'mutex and semaphore', '3 threads', (1, 2))
    case(87, 'atomics of bool', 'every value', range(1, 6)); case(88, 'atomics of pointers', 'every choice of 3 pointers', range(1, 7))
