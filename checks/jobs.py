"""Which explorations decide which property, with their bounds."""

def merge_args(a, b):
    d = dict(x.split("=", 1) for x in a)
    d.update(dict(x.split("=", 1) for x in b))
    return ["%s=%s" % kv for kv in d.items()]

def J(flavour, prog, scen, args="", thorough=None, **kw):
    j = dict(flavour=flavour, prog=prog, scen=scen, args=args.split())
    if thorough:
        j["thorough"] = thorough.split()
    j.update(kw)
    return j

SEQ_ASSUME = [
    "the device is a memory-backed stand-in that executes every request in full, in submission order",
    "tree parameters (bytes per node and leaf, buffer size) are scaled down so that every structural event is reached with a few hundred keys; the code under test is otherwise unmodified",
]
MC_ASSUME = [
    "threads are interleaved at atomic, volatile and pthread accesses of the code under test (sequential consistency); only accesses to variables that more than one thread uses conflictingly are scheduling points",
    "schedules with at most the stated number of forced preemptions are explored",
    "the device is a memory-backed stand-in that executes every request in full",
]

PROPS = {}

PROPS["P01"] = dict(level="exploration", assumptions=SEQ_ASSUME, bounds="all sequences of 4-6 operations or batches over the stated alphabets from 3 base trees, with buffer rotation, single background task steps, drain and reopen as further letters; 10 configurations", jobs=[
    J("seq", "seq", "ops", "base=0 d=4 alpha=0x1f defer=1", "d=5"),
    J("seq", "seq", "ops", "base=1 d=3 alpha=0x7f defer=1", "d=4"),
    J("seq", "seq", "ops", "base=2 d=3 alpha=0x7f", "d=4"),
    J("seq", "seq", "ops", "base=2 d=3 alpha=0x3f hash=2 defer=1", "d=4"),
    J("seq", "seq", "macro", "base=0 d=5 al=01234", "d=7"),
    J("seq", "seq", "macro", "base=0 d=5 al=01238 defer=1", "d=7"),
    J("seq", "seq", "macro", "base=1 d=4 al=0123456 defer=1", "d=5"),
    J("seq", "seq", "macro", "base=2 d=4 al=01238 stats=1", "d=6"),
    J("seq", "seq", "macro", "base=2 d=3 al=01234678 fanout=4", "d=4"),
    J("seq", "seq", "macro", "base=2 d=3 al=01234678 cache=256", "d=4"),
    J("seq", "seq", "macro", "base=0 d=4 al=0123468 hash=1", "d=5"),
    J("seq", "seq", "macro", "base=2 d=3 al=0123468 fidx=256 defer=1 stats=1", "d=4"),
    J("seq", "seq", "macro", "base=2 d=3 al=0123468 log=1 fanout=8", "d=4"),
    J("seq", "seq", "macro", "base=8 d=3 al=01234678 n=400 fanout=3 stats=1", "d=4"),
    J("seq", "seq", "macro", "base=0 d=4 al=01234 vlen=8 batch=40 n=160 kvn=3600", "d=6"),
])
PROPS["P02"] = dict(level="exploration", assumptions=SEQ_ASSUME, bounds="9 base trees; every start key in and between the keys; every pattern of up to 6 forward and backward steps, and full-length runs with one reversal at many distances", jobs=
    [J("seq", "seq", "iter", "base=%d L=5 n=%d" % (b, n), "L=8") for b, n in ((0, 40), (1, 240), (2, 240), (3, 240), (4, 120), (5, 240), (6, 240), (7, 240), (8, 400))] +
    [J("seq", "seq", "iterlong", "base=%d" % b) for b in (1, 2, 3, 5, 6, 7, 8)] + [
    J("seq", "seq", "iter", "base=0 L=6 n=40 extra=30", "L=9"),
    J("seq", "seq", "iter", "base=2 L=5 extra=40", "L=8"),
    J("seq", "seq", "iter", "base=2 L=4 extra=40 cache=256 reopen=1", "L=7"),
    J("seq", "seq", "iter", "base=2 L=4 extra=40 defer=1 fanout=8", "L=7"),
    J("seq", "seq", "macro", "base=2 d=3 al=0123478 ck=18", "d=4"),
    J("seq", "seq", "macro", "base=0 d=5 al=01238 ck=18 defer=1", "d=6"),
])
PROPS["P03"] = dict(level="exploration", assumptions=SEQ_ASSUME, bounds="all sequences of 3-5 batches from 4 base trees with reopen allowed after every one, and a final close, reopen and full check", jobs=[
    J("seq", "seq", "ops", "base=0 d=4 alpha=0x2f ck=8 defer=1", "d=5"),
    J("seq", "seq", "ops", "base=2 d=2 alpha=0x7f ck=8 defer=1", "d=3"),
    J("seq", "seq", "macro", "base=0 d=5 al=01237 ck=8", "d=6"),
    J("seq", "seq", "macro", "base=1 d=4 al=0123567 ck=8 defer=1", "d=5"),
    J("seq", "seq", "macro", "base=2 d=4 al=01478 ck=8", "d=5"),
    J("seq", "seq", "macro", "base=2 d=3 al=0123478 ck=8 cache=256", "d=4"),
    J("seq", "seq", "macro", "base=8 d=2 al=012347 ck=8 n=400", "d=4"),
    J("seq", "seq", "macro", "base=2 d=3 al=0123478 ck=8 log=1", "d=4"),
    J("seq", "seq", "macro", "base=2 d=2 al=0123478 ck=8 shmem=512", "d=3"),
])
PROPS["P10"] = dict(level="exploration", assumptions=SEQ_ASSUME, bounds="all sequences of up to 3 batches from 4 base trees followed by close or by destroying the table; every workload of up to 2 batches repeated 24 times", jobs=[
    J("seq", "seq", "space", "base=0 d=4 al=01248", "d=5"),
    J("seq", "seq", "space", "base=1 d=3 al=0124678 defer=1", "d=4"),
    J("seq", "seq", "space", "base=2 d=3 al=0123478", "d=4"),
    J("seq", "seq", "space", "base=2 d=2 al=0123478 reclaim=1", "d=3"),
    J("seq", "seq", "space", "base=8 d=2 al=0123478 n=400", "d=3"),
    J("seq", "seq", "space", "base=1 d=1 al=01 log=1"),
    J("seq", "seq", "cycle", "base=0 d=2 al=012378 R=100 slack=40 stats=1", "R=300 slack=120 disk=200"),
    J("seq", "seq", "cycle", "base=0 d=2 al=01237 R=80 slack=50 defer=1 fanout=4"),
    J("seq", "seq", "cycle", "base=0 d=1 al=08 R=200 slack=6 what=1"),
])

def C(prog, args="", thorough=None, **kw):
    return J("mc", "conc", "db", "prog=%s %s" % (prog, args), thorough, **kw)

LEAFSPLIT = "n=60 wlen=300 base=2 drain=1"
PROPS["P04"] = dict(level="exploration", technique="exhaustive exploration of thread interleavings of the implementation up to a preemption bound (controlled scheduler), linearizability oracle", assumptions=MC_ASSUME, cap=240,
    bounds="all schedules with at most one forced preemption (two in the thorough tier) of 14 programs of 2-3 threads mixing put, update, delete, get with buffer rotation, incorporation, page splits, leaf splits, compaction and filter tasks", jobs=[
    C("p5,u5,g5|u5,d5,g5", "base=0 b=1", "b=2"),
    C("p5,g6|p6,g5", "base=1 drain=0 b=1", "b=2"),
    C("p5,g6,g5|p6,g5|u5,g6", "base=1 drain=0 b=1", "b=2"),
    C("F0.8,g3|g4,p3,g1", "base=1 drain=0 fullmt=8 b=1", "b=2"),
    C("F0.30,g3|F1.30,g4", "base=0 b=1 wlen=300 n=60"),
    C("p5,R,g5,g6|p6,g5", "base=1 b=1"),
    C("p4,R,p5,g6|R,p6,R,p7,g5", "base=0 b=1", "base=1 drain=0"),
    C("u5,R,u5|u5,g5,g7", "base=1 b=1 hash=2", "b=2"),
    C("g5,p5,g6|T1", "pre=R base=1 drain=0 b=1"),
    C("g5|A", "pre=R base=1 drain=0 b=1", thorough_only=True),
    C("F0.12,R|F20.12,R|g5", "base=1 b=1"),
    C("g5,g6,g9|T1", "pre=R,T5 base=2 drain=0 b=1"),
    C("g5,g6,g9|T1", "pre=R,T10 base=2 drain=0 b=1"),
    C("g5|F40.12,R,F5.12,R", "pre=F0.12,R,F20.12,R wlen=300 base=1 drain=0 b=1"),
    C("g5,g6|R,p7,T2", "pre=u5,d6 base=1 b=1 perm=0", "b=2"),
    C("g6|R,F0.12,R,F5.12,R,A", "pre=R base=2 drain=1 b=1 perm=0 known=oldreader"),
])
PROPS["P05"] = dict(level="exploration", technique="exhaustive exploration of thread interleavings of the implementation up to a preemption bound (controlled scheduler)", assumptions=MC_ASSUME, cap=240,
    bounds="all schedules with at most one forced preemption of 9 programs in which a forward or backward scan runs beside writers, rotation, flushes with leaf splits, compaction and filter tasks", jobs=[
    C("S0.20,g5|T1", "pre=R base=1 drain=0 b=1"),
    C("S0.20|p5,d6", "pre=p7 base=1 b=1", "b=2"),
    C("S0.20|R,p5", "pre=p7 base=1 b=1", "b=2"),
    C("S4.12|A", "pre=R base=1 drain=0 b=1", thorough_only=True),
    C("B50.30|F0.3,d20,d9,R,p4", "base=1 drain=0 b=1"),
    C("S4.30|F40.12,R,F5.12,R,F0.12,R", "pre=F0.12,R,F20.12,R wlen=300 base=2 drain=0 b=1"),
    C("B40.30|p9,R,d30,R,p31", "base=0 pre=F0.20 b=1"),
    C("S0.30|F0.30", "base=0 wlen=300 b=1 pre=F30.8"),
    C("B40.20|T2", "pre=R,T5 base=2 drain=0 b=1"),
    C("B58.60|F10.10,F30.10", "base=0 wlen=300 pre=F0.10,F20.10,F40.15 b=1", "b=2"),
    C("S0.60|F10.10,F30.10", "base=0 wlen=300 pre=F0.10,F20.10,F40.15 b=1", "b=2"),
    C("S0.20|R,p7,T2", "pre=u5,d6,p3 base=1 b=1 perm=0", "b=2"),
    C("B20.20|R,p7,T2", "pre=u5,d6,p3 base=1 b=1 perm=0"),
    C("S0.30|R,F0.12,R,F5.12,R,A", "pre=R base=2 drain=1 b=1 perm=0 known=oldreader"),
])
PROPS["P06"] = dict(level="exploration", technique="exhaustive exploration of thread interleavings of the implementation up to a preemption bound (controlled scheduler); deadlock and livelock detection", assumptions=MC_ASSUME, cap=240,
    bounds="all schedules with at most one forced preemption of 8 programs with clients, background buffer and compaction workers, quiescing and close", jobs=[
    C("p5,R,g5", "base=0 b=1 bgm=1 bgn=1 armclose=1", "prog=p5,R,p6,g5"),
    C("p5,R,p6|p7,Q", "base=0 b=1 bgm=1 bgn=1"),
    C("p4,R,p5,R,p6,R,p7,R,p8,R,p9,g4|p10,p11", "base=0 b=1 bgm=1 bgn=1", "b=2"),
    C("p4,R,p5,R,p6,R,p7,R,p8|p10,R,p11,R,p12", "base=0 b=1", "b=2"),
    C("B58.2,S30.1|F10.10,F30.10", "base=0 wlen=300 pre=F0.10,F20.10,F40.15 b=1", "b=2"),
    C("Q|Q|p5,R,p7", "base=0 b=1 pre=p6,R"),
    C("A|A", "pre=R,F0.12,R,F20.12,R base=1 drain=0 b=1", thorough_only=True),
    C("T2|T2", "pre=R,F0.12,R,F20.12,R,T4 base=1 drain=0 b=1"),
    C("T1|F40.12,R,F5.12,R,F0.12,R,F20.12,R", "pre=F0.12,R,F20.12,R,T5 base=2 drain=1 b=1 wlen=300"),
    C("p5,R,p6,g5|p7", "base=0 b=1 bgm=2 bgn=2 armclose=1", thorough_only=True),
    C("A|A", "pre=R,F0.12,R,F20.12,R base=2 drain=0 b=0 known=emptybundle"),
])

def M(prog, scen, args, thorough=None, **kw):
    return J("mc", prog, scen, args, thorough, **kw)

T_MC = "exhaustive exploration of thread interleavings of the implementation up to a preemption bound (controlled scheduler)"
PROPS["P16"] = dict(level="exploration", technique=T_MC + ", exclusion monitors", assumptions=MC_ASSUME, cap=240,
    bounds="all schedules with at most 2-4 forced preemptions of 2-4 threads taking the batch reader-writer lock in every mode (read, claim, failed claim, upgrade, downgrade, two indexes), and of mutexes, spin locks and condition variables", jobs=[
    M("locks", "rw", "prog=r|w plain=1 b=3", "b=5"),
    M("locks", "rw", "prog=c|w|r plain=1 b=2", "b=3"),
    M("locks", "rw", "prog=u,r|w,m plain=1 b=2", "b=4"),
    M("locks", "rw", "prog=w|w|c plain=1 b=2", "b=3"),
    M("locks", "rw", "prog=n,w1|w,n|r plain=1 b=2", "b=3"),
    M("locks", "rw", "prog=r|r|w|w plain=1 b=1", "b=2"),
    M("locks", "rw", "prog=c|c|c plain=1 b=2", "b=3"),
    M("locks", "rw", "prog=r,r|w,w plain=1 b=2", "b=4"),
    M("locks", "rw", "prog=u|m|n plain=1 b=2", "b=3"),
    M("locks", "rw", "prog=m|w plain=1 b=2", "b=4"),
    M("locks", "prim", "prog=m,s|s,m|m,s plain=1 b=2", "b=4"),
    M("locks", "prim", "prog=p,p|c|p,c|c plain=1 b=2", "b=3"),
    M("locks", "prim", "prog=B2|c|c plain=1 b=3", "b=4"),
])
PROPS["P07"] = dict(level="exploration", technique=T_MC + ", exactly-once monitor", assumptions=MC_ASSUME, cap=240,
    bounds="all schedules with at most 1-3 forced preemptions of programs that queue tasks (also at the head, also from tasks), help out, poll for idleness and wait for idleness, with 0-4 background workers, through shutdown", jobs=[
    M("tasks", "tasks", "prog=e0,e1|x,x plain=1 b=3", "b=4"),
    M("tasks", "tasks", "prog=e0.2,q|x,h1 plain=1 b=3", "b=4"),
    M("tasks", "tasks", "prog=e0,q|e1,q bgm=1 bgn=1 plain=1 b=2", "b=3"),
    M("tasks", "tasks", "prog=e0,i|e1,e0,i bgm=1 bgn=1 plain=1 b=2", "b=3"),
    M("tasks", "tasks", "prog=e0,q|e1,q|q bgm=1 bgn=1 plain=1 b=1", "b=2"),
    M("tasks", "tasks", "prog=e1,A|e1,w|x,n100,q bgm=1 plain=1 b=1", "b=2"),
    M("tasks", "tasks", "prog=e0,h0,e0|x,x,x plain=1 b=3", "b=5"),
    M("tasks", "tasks", "prog=e0.3,x|A,i|q plain=1 b=2 armall=1", "b=3"),
    M("tasks", "tasks", "prog=e0,h0,e0|e1,x,q plain=1 b=2 armall=1 bgn=2 stats=1", "b=3"),
    M("tasks", "tasks", "prog=e0|e1.1 plain=1 b=2 armall=1 bgn=2 bgm=2 scratch=0", "b=3"),
])
PROPS["P17"] = dict(level="exploration", technique=T_MC + ", ownership monitor", assumptions=MC_ASSUME, cap=240,
    bounds="all schedules with at most 1-3 forced preemptions of 2-3 threads registering, leaving and being created, with none or all but one identity already taken, with and without allocation failures", jobs=[
    M("tasks", "threads", "prog=r,d|r,d|r,d plain=1 b=2", "b=3"),
    M("tasks", "threads", "prog=r,d|r,d|c plain=1 b=2 fill=62", "b=3"),
    M("tasks", "threads", "prog=r,d,r,d|r,d plain=1 b=3 fill=62", "b=4"),
    M("tasks", "threads", "prog=r,y,d|r,y,d|r,d plain=1 b=2 fill=61", "b=3"),
    M("tasks", "threads", "prog=r|r,d|c plain=1 b=2 fill=31", "b=3"),
    M("tasks", "threads", "prog=c,r,d|r,d,c plain=1 b=2 fault=1", "b=3"),
])
PROPS["P09"] = dict(level="exploration", technique="exhaustive enumeration of operation sequences on the real allocators against a reference count model; " + T_MC, assumptions=MC_ASSUME, cap=240,
    bounds="all sequences of 5 operations (allocate, take and drop references, remount) on a device of 6 extents and of 5 root-record operations with 3 identifiers; every order of taking and dropping 3 of 21 key ranges of one keyed page allocator; all schedules with at most 2-3 forced preemptions of 2-3 threads allocating and releasing near exhaustion, sharing a counted extent, a root table, a page allocator, or key ranges", jobs=[
    J("seq", "alloc", "seq", "d=5", "d=7"),
    J("seq", "alloc", "seq", "d=4 ext=9", "d=6 ext=9"),
    J("seq", "alloc", "super", "d=5", "d=6"),
    J("seq", "alloc", "super", "d=4 pre=28"),
    J("seq", "alloc", "keyed", "ranges=3", "ranges=3 nb=3"),
    M("alloc", "conc", "prog=a,f|a,f fill=2 plain=1 b=2", "b=4"),
    M("alloc", "conc", "prog=a,f,a1|a,f fill=1 plain=1 b=2", "b=3"),
    M("alloc", "conc", "prog=a,a1,f|a,f,a1|a ext=9 plain=1 b=1", "b=2"),
    M("alloc", "conc", "prog=a,f|a,f|a,f ext=4 plain=1 b=2"),
    M("alloc", "conc", "prog=I,D|D,I plain=1 b=3", "b=4"),
    M("alloc", "conc", "prog=S,G,X|S,G,X|S,G plain=1 b=1", "b=3"),
    M("alloc", "mini", "prog=a0.2|a0.2 plain=1 b=2", "b=3"),
    M("alloc", "mini", "prog=a0.10|a1.2,a0.2 plain=1 b=1 warm=26", "b=2"),
    M("alloc", "mini", "prog=a0 prog2=d|i,d,d share=1 plain=1 b=1", "b=2"),
    M("alloc", "mini", "prog=a0 prog2=d|d share=1 plain=1 b=2", "b=3"),
    M("alloc", "keyedc", "prog=d0|d1 plain=1 b=2", "b=3"),
    M("alloc", "keyedc", "prog=d0|r0.70,d1 plain=1 b=2", "b=3"),
])
S = " ext=5 pages=128"
def K(prog, b, tb, extra=S, **kw):
    return M("cache", "conc", "prog=%s%s b=%d" % (prog, extra, b), "b=%d" % tb if tb != b else None, **kw)
PROPS["P08"] = dict(level="exploration", technique="exhaustive enumeration of operation sequences on the real cache with reordered completions; " + T_MC + ", page contents model", assumptions=MC_ASSUME, cap=240,
    bounds="all sequences of 3 (thorough 4) of 16 operations over 3 extents with at most one delayed or reordered completion; all schedules with at most 1-3 forced preemptions of 2-3 threads that get, claim, lock, modify, pin, sync, prefetch, read asynchronously, flush, evict and discard the same pages, and that run through a full cache of 2-4 batches", jobs=[
    M("cache", "seq", "d=3 b=0 ext=9", "d=4 b=0 ext=9"),
    M("cache", "seq", "d=2 b=1 ext=9", "d=3 b=1 ext=9"),
    K("w0,g0|w0,g0", 2, 3),
    K("w0,g0|F,E", 2, 3),
    K("g0,g0|E,g0,E", 2, 3),
    K("a0,a0|E,a0", 2, 3),
    K("a0,g0|w0", 2, 3),
    K("w0,G0|F,E,G0", 2, 3),
    K("i0.0|F,E,E", 2, 3),
    K("20|w1,w0", 2, 3),
    K("i0|w0", 2, 3),
    K("s0|F", 2, 3),
    K("S0|F,E", 2, 3),
    K("g0,E,g1|g0", 2, 2),
    K("w0,F,E,w1|a0", 2, 3),
    K("w0,F,E,w1|p0,a0", 1, 2),
    K("g0,E,g1|G0,w0", 2, 2),
    K("p0,g2|F,E,w2", 1, 1),
    K("p0,g2|p0,w2", 1, 1),
    K("p0,a1|E,p0,g0", 1, 1),
    K("w0|E,w0|F,E", 1, 2),
    K("c0|E,w0|F", 1, 2),
    K("w0,w0|F,E,x1.2,E", 1, 2),
    K("x1.2|E,F,x2.2,E", 1, 2, " hot=3 ext=5 pages=128"),
    K("N40.2,X40|N41.2,X41", 2, 2),
    K("a0.2,a1|F,E|w1", 1, 2, S + " reorder=1"),
    K("H0.3|H20.3", 1, 1, " pages=192 ext=8 cold=0", thorough_only=True),
    K("w0,h0.63,w1,h64.62,h128.64,h192.64,!1,h260.1,!2|H320.180", 1, 1, " pages=256 ext=18 perm=0 arm=2"),
    K("w0,h0.64,y,!1,s0,!2|!2,h64.64,y,h300.1,!2", 2, 2, " pages=192 ext=13 perm=0 arm=2", thorough_only=True),
    K("w0,h0.64,y,!1,S0,!2|!2,h64.64,y,h300.1,!2", 2, 2, " pages=192 ext=13 perm=0 arm=2", thorough_only=True),
])
PROPS["P11"] = dict(level="exploration", technique="exhaustive enumeration of append, clean, evict and recycle sequences with every lost or torn page write near the ends; " + T_MC + ", replay oracle", assumptions=MC_ASSUME, cap=240,
    bounds="all sequences of 3 (thorough 4-5) of 10 operations of two writers (small, exactly filling, nearly filling, many entries over an extent, cleaning, evicting, a new log over recycled space), 4 numberings, 2 key sizes, each read back in place, after a restart, and with one page write missing or torn; all schedules with at most 1-2 forced preemptions of 2-3 writers with a cleaner; replaying the log of a database after every sequence of 3 of 10 operations and after every schedule with one forced preemption", jobs=[
    J("seq", "log", "seq", "d=3", "d=4"),
    J("seq", "log", "seq", "d=3 gen=2 nt=3", "d=4"),
    J("seq", "log", "seq", "d=3 gen=1 klen=24", "d=4"),
    J("seq", "log", "seq", "d=3 ext=9"),
    J("seq", "log", "seq", "d=4 ops=4 gen=3", "d=6 ops=5"),
    M("log", "conc", "prog=w1400.5|w1400.5 b=1 pages=320", "b=2"),
    M("log", "conc", "prog=w1400.3|w1400.3|w1300.3 b=1 pages=320"),
    M("log", "conc", "prog=w1400.4|E,C|w1200.4 b=1 pages=320", "b=2"),
    M("log", "conc", "prog=w1400.4|C,E,C b=1 pages=320", "b=3"),
    M("log", "conc", "prog=w1400.4|w1200.4 pre=90 b=1 pages=320"),
    J("seq", "log", "db", "d=3", "d=4"),
    J("seq", "log", "db", "d=3 evict=0", "d=4"),
    M("log", "db", "prog=p5,p6|p5|d6 b=1"),
    M("log", "db", "prog=u5,d5|p5,u5 b=1"),
    M("log", "db", "prog=F10.14,u5|F11.5,u5 b=1"),
    M("log", "db", "prog=F10.16,p5|E,C,F0.14 b=1"),
])
PROPS["P20"] = dict(level="exploration", technique="exhaustive enumeration of insertion sequences, entry sizes, bounds and packing ranges on the real b-tree against a sorted-map model; " + T_MC + ", linearizability oracle", assumptions=MC_ASSUME, cap=240,
    bounds="all sequences of 1-4 insert, update and delete messages of small and large sizes on trees filled in 2-4 orders (up to 120 entries, three levels); every pair of entry sizes per page; every start and bound of iterations, counts and packings on a grid; all schedules with at most 1-2 forced preemptions of 2-3 threads inserting (with leaf, index and root splits), looking up and scanning both ways", jobs=[
    J("seq", "btree", "mem", "d=2 deep=1", "d=3 deep=1"),
    J("seq", "btree", "mem", "d=3 n=6 nf=2 deep=1", "d=4 n=6 nf=2 deep=1"),
    J("seq", "btree", "mem", "d=4 n=6", "d=5 n=6"),
    J("seq", "btree", "mem", "d=3 fill=60 n=64 klen=500 big=1 step=21", "d=3 fill=60 n=64 klen=500 big=1 step=7"),
    J("seq", "btree", "mem", "d=1 fill=100 n=120 klen=500 big=1 deep=1"),
    J("seq", "btree", "fit", ""),
    J("seq", "btree", "pack", "n=62 fill=60", "n=62 fill=60 st=3"),
    J("seq", "btree", "pack", "n=100 fill=100 klen=400 st=15", "st=5"),
    J("seq", "btree", "pack", "n=62 fill=60 big=1 klen=100", "st=3"),
    J("seq", "btree", "pack", "n=121 fill=120 klen=500 st=25 big=1", "st=5"),
    M("btree", "conc", "prog=i1|i3 n=30 b=2", "b=3"),
    M("btree", "conc", "prog=i1|i3 n=30 fill=4 klen=480 b=2"),
    M("btree", "conc", "prog=F1.4|F11.4 n=90 fill=40 klen=480 plain=1 b=1", "b=2"),
    M("btree", "conc", "prog=F1.6|s0.20,g3 n=90 fill=40 klen=480 plain=1 b=1", "b=2"),
    M("btree", "conc", "prog=F1.3|F3.3|r60.20 n=90 fill=40 klen=480 b=1"),
    M("btree", "conc", "prog=F1.6|r90.30,g3,s3.10 n=200 fill=90 pat=1 klen=500 b=1", "b=2"),
])
G = "guard=1"
PROPS["P23"] = dict(level="exploration", technique="exhaustive enumeration of operation sequences and of thread interleavings up to a preemption bound on the real code, with page protection as the monitor of every page access", assumptions=SEQ_ASSUME, cap=240,
    bounds="all sequences of 2-4 batches of operations, iterations, reopenings and space reclaims from 4 base trees; b-tree packing and iteration over a grid of ranges; all schedules with at most one forced preemption of 2-3 client threads with buffer rotation, flushes, compactions and scans", jobs=[
    J("seq", "seq", "ops", "base=0 d=3 alpha=0x1f guard=1", "d=4"),
    J("seq", "seq", "macro", "base=1 d=2 al=0123478 guard=1", "d=3"),
    J("seq", "seq", "macro", "base=2 d=2 al=0123478 guard=1", "d=3"),
    J("seq", "seq", "macro", "base=8 d=1 al=012347 n=400 guard=1", "d=2"),
    J("seq", "seq", "iter", "base=2 L=2 extra=40 guard=1", "L=4"),
    J("seq", "seq", "iter", "base=5 L=2 n=240 guard=1", "L=4"),
    J("seq", "seq", "space", "base=2 d=1 al=0123478 guard=1", "d=2"),
    J("seq", "seq", "macro", "base=1 d=2 al=0127 log=1 guard=1", "d=3"),
    J("seq", "btree", "mem", "d=2 n=8 guard=1", "d=3 n=8"),
    J("seq", "btree", "pack", "n=40 fill=40 st=11 guard=1", "n=62 fill=60"),
    M("btree", "conc", "prog=F1.6|r60.20,g3 n=90 fill=40 klen=480 guard=1 b=1"),
    M("btree", "conc", "prog=F1.4|F11.4 n=90 fill=40 klen=480 guard=1 b=1"),
    C("p5,g6|p6,g5", "base=1 drain=0 b=1 guard=1"),
    C("p5,R,g5,g6|p6,g5", "base=1 b=1 guard=1"),
    C("S0.20|R,p5", "pre=p7 base=1 b=1 guard=1"),
    C("S0.20,g5|T1", "pre=R base=1 drain=0 b=1 guard=1"),
    C("B40.20|T2", "pre=R,T5 base=2 drain=0 b=1 guard=1", thorough_only=True),
    C("F0.12,R|F20.12,R|g5", "base=1 b=1 guard=1", thorough_only=True),
])
PROPS["P21"] = dict(level="exploration", technique="exhaustive enumeration of inputs, modes, starting points, step patterns and failures of the real merge iterator over inputs whose memory is overwritten at every step, against a fold model", assumptions=["inputs obey the iterator contract: sorted, no duplicates, stepped only where they say they can be"], cap=240,
    bounds="every assignment of absent, insert, update, delete to 2-4 keys in 2-4 inputs (all of them up to 8 cells, three message kinds at 9 cells), every mode, every starting point, both directions, every pattern of 3-6 steps; every single failure of an input step or merge callback in the smaller ones", jobs=[
    J("seq", "merge", "merge", "m=3 k=2 L=5", "L=7"),
    J("seq", "merge", "merge", "m=2 k=3 L=5", "L=7"),
    J("seq", "merge", "merge", "m=4 k=2 L=3 modes=4", "L=5"),
    J("seq", "merge", "merge", "m=3 k=3 L=4 cls=3 modes=4", "cls=4"),
    J("seq", "merge", "merge", "m=2 k=4 L=3 modes=4", "L=4 modes=6"),
    J("seq", "merge", "merge", "m=3 k=3 L=3 modes=1"),
    J("seq", "merge", "merge", "m=2 k=3 L=3 fails=1", "L=4"),
    J("asan", "merge", "merge", "m=2 k=2 L=4 fails=1", "m=3 k=2 L=3"),
])
PROPS["P12"] = dict(level="exploration", technique="exhaustive enumeration of fingerprint counts, shapes, values and filter parameters on the real filters, against an exact fingerprint model; database histories with colliding hashes", assumptions=SEQ_ASSUME + ["hash values of one block of buckets fit a page, as they do unless the application's hash function is far from uniform"], cap=240,
    bounds="1-3 additions of 28 sizes around every change of filter geometry (1..8192 keys; all sizes to 600 once) x 7 shapes of fingerprints (spread, scattered, equal lowest and highest, repeated, at both ends, shared between additions) x 4 value patterns x 4 block sizes x 3 fingerprint widths; lookups synchronous and asynchronous, warm and cold; all sequences of 3-4 batches on databases with colliding hashes, small blocks and narrow remainders", jobs=[
    J("seq", "filter", "build", "d=1", "d=2 st=3"),
    J("seq", "filter", "build", "d=1 sweep=600 fps=1 vp=1", "sweep=1300 fps=3"),
    J("seq", "filter", "build", "d=2 st=9 shapes=0x5b", "d=2 st=2"),
    J("seq", "filter", "build", "d=3 st=9 shapes=0x12 lim=1100 vp=2 fps=2", "st=7"),
    J("seq", "filter", "build", "d=1 st=3 guard=1 vp=2 lim=2100"),
    J("seq", "seq", "macro", "base=0 d=4 al=0123468 hash=1", "d=5"),
    J("seq", "seq", "macro", "base=2 d=3 al=0123468 hash=2", "d=4"),
    J("seq", "seq", "macro", "base=2 d=3 al=0123468 fidx=256 defer=1", "d=4"),
    J("seq", "seq", "macro", "base=8 d=2 al=012348 n=400 fidx=32 hash=1", "d=3"),
])
