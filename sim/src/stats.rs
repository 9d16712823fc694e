//! Named counters; F_* are fault kinds that actually fired.
macro_rules! stats {
    ($($id:ident = $n:expr, $name:expr;)*) => {
        $(pub const $id: usize = $n;)*
        pub const NAMES: &[(usize, &str)] = &[$(($n, $name)),*];
    };
}

stats! {
    F_PANIC = 0, "fault: user conversion panicked";
    F_CBERR = 1, "fault: user conversion returned an error";
    F_OOM = 2, "fault: allocation failed";
    F_RESEED = 3, "fault: hash seed changed (new process or thread)";
    F_PREEMPT = 4, "fault: forced preemption inside a call";
    F_CRASH = 5, "fault: process crash and restart";
    F_TORN = 6, "fault: write torn or file cut short";
    F_STALE = 7, "fault: stale tail of an older file";
    F_ZERO = 8, "fault: zero-filled block";
    F_LOST = 9, "fault: block lost";
    F_DUPBLK = 10, "fault: block repeated";
    F_SWAP = 11, "fault: blocks swapped";
    F_FLIP = 12, "fault: bits flipped";
    F_DROP = 13, "fault: message lost";
    F_DUPMSG = 14, "fault: message repeated";
    F_DELAY = 15, "fault: message delayed past another";
    F_POISON = 16, "fault: lock poisoned by a panic";
    F_BADREQ = 17, "fault: request the document cannot satisfy";
    F_MISMATCH = 18, "fault: element of the wrong kind";
    F_SKEW = 19, "fault: clock jump";
    F_PARTITION = 20, "fault: network partition";
    F_CAP = 21, "fault: memory cap";
    F_DISKFULL = 22, "fault: write failed (disk full)";
    F_MISDIR = 23, "fault: another file's block";
    F_THREADEND = 24, "fault: thread ended with calls still to come";
    F_PROCEND = 25, "fault: process exited with calls still to come";
    F_FORK = 26, "fault: process forked while others were at work";
    P_OPS = 40, "probe: calls made";
    P_EDITS = 41, "probe: edits completed";
    P_ABORT = 42, "probe: edits aborted";
    P_ERRS = 43, "probe: calls that returned an error";
    P_DUPKEY = 44, "probe: repeated key in play";
    P_NESTED = 45, "probe: edit inside a nested value";
    P_GROW = 46, "probe: path update created members";
    P_EXTEND = 47, "probe: path update extended an array";
    P_REPLACE_KIND = 48, "probe: path update replaced a value of another kind";
    P_TEXTOP = 49, "probe: edit by text call";
    P_COMPARE = 50, "probe: whole-document comparisons";
    P_ROUNDTRIP = 51, "probe: encode/decode round trips";
    P_REJECT = 52, "probe: damaged text rejected";
    P_ACCEPT = 53, "probe: damaged text accepted and checked";
    P_DECODE = 54, "probe: typed decodes";
    P_ROUTE = 55, "probe: alternative construction routes";
    P_LOCKED = 56, "probe: edits under a lock";
    P_READS = 57, "probe: concurrent reads checked";
    P_SOLO = 58, "probe: calls compared with running alone";
    P_LEAKREP = 59, "probe: session repetitions accounted";
    P_VALUES = 60, "probe: decoded user values tracked";
    P_MSGS = 61, "probe: messages delivered";
    P_CONVERGE = 62, "probe: convergence checks";
    P_COLLIDE = 63, "probe: colliding map keys";
    P_BIGOBJ = 64, "probe: object of more than 30 keys";
    P_DEEP = 65, "probe: document deeper than 10";
    P_PATHPANIC = 66, "probe: index operator refused a missing element";
    P_PARTIAL = 68, "probe: document partly edited by an edit that ran out of memory";
    P_HUGE = 69, "probe: absurdly large index";
    P_DETOUR = 70, "probe: edits made and undone";
    P_SAVES = 71, "probe: saves completed";
    P_LOADS = 72, "probe: documents loaded after a restart";
    P_EDGEDUP = 73, "probe: message applied late or repeated";
    P_SNAPSHOT = 74, "probe: replica restarted from its saved text";
    P_STORM = 75, "probe: failing calls repeated over and over";
    P_BYTEXT = 76, "probe: replica edits its text";
    P_OOMABORT = 77, "probe: run ended by an abort instead of an unwound allocation failure";
    P_NESTCALL = 78, "probe: calls made from within a conversion";
    P_GIVEN = 79, "probe: values examined by the conversion they were given to";
    P_COPY = 80, "probe: copies made";
    P_EQ = 81, "probe: documents compared with ==";
    P_NEAR = 82, "probe: near misses compared with ==";
    P_UNWIND = 83, "probe: calls made while a conversion is being unwound";
    P_TYPESAVE = 84, "probe: typed values encoded";
    P_TYPELOAD = 85, "probe: typed values decoded and compared";
    P_AGED = 86, "probe: rounds of calls before the cost of a call is taken again";
    P_COST = 87, "probe: costs of calls taken";
    P_HOOK = 88, "probe: calls made by the panic hook";
    P_ATEND = 89, "probe: calls made while a thread ends";
    P_FORKBUSY = 90, "probe: process forked while another thread was inside a call";
    P_STACK = 91, "probe: stack of calls on large documents taken";
    P_ONCE = 92, "probe: conversions of a call counted and put in order";
    P_BLOCKED = 67, "probe: task waited for a lock";
}

/// Conversion and memory faults that fired in this run.
pub fn fired() -> bool {
    unsafe {
        let s = &(*simcore::rt::SLOT).stats;
        s[F_PANIC] + s[F_CBERR] + s[F_OOM] > 0
    }
}
