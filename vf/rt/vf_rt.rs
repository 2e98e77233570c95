// Runtime of the generated test crates: an event log, a plan queue and
// encoders/decoders for every type used in a generated interface.
#[allow(dead_code, unused_macros, static_mut_refs)]
#[macro_use]
pub mod vf {
    use std::cell::RefCell;
    use std::collections::{BTreeMap, BTreeSet, VecDeque};
    use std::fmt::Write as _;
    use std::io::Write as _;
    use std::rc::Rc;
    use std::sync::{Arc, Mutex, MutexGuard, RwLock};

    pub struct State {
        plans: Vec<String>,
        out: Option<std::fs::File>,
        cur: Option<usize>,
        plan: VecDeque<String>,
        events: String,
        live: BTreeSet<u64>,
        next: u64,
        next_clone: u64,
        pub quiet: bool,
    }
    static STATE: Mutex<Option<State>> = Mutex::new(None);

    pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
        let mut g: MutexGuard<Option<State>> = match STATE.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        let s = g.get_or_insert_with(|| State {
            plans: vec![],
            out: None,
            cur: None,
            plan: VecDeque::new(),
            events: String::new(),
            live: BTreeSet::new(),
            next: 1,
            next_clone: 1_000_001,
            quiet: false,
        });
        f(s)
    }
    pub fn event(e: &str) {
        with(|s| {
            s.events.push(' ');
            s.events.push_str(e);
        })
    }
    fn flush(s: &mut State) {
        if let Some(n) = s.cur.take() {
            let live: Vec<String> = s.live.iter().map(|x| x.to_string()).collect();
            let line = format!("{}{} | {} | {}\n", n, s.events, live.join(" "), s.plan.len());
            if let Some(o) = s.out.as_mut() {
                o.write_all(line.as_bytes()).unwrap();
            }
        }
        s.events.clear();
        s.plan.clear();
    }
    /// Starts operation `n` (index of a line of the script); -1 ends the run.
    pub fn op(n: i64) {
        end_hold();
        let id = with(|s| {
            if s.out.is_none() {
                let script = std::env::var("VF_SCRIPT").expect("VF_SCRIPT");
                let text = std::fs::read_to_string(script).expect("script");
                s.plans = text
                    .lines()
                    .map(|l| l.split('\t').nth(1).unwrap_or("").to_string())
                    .collect();
                s.out = Some(std::fs::File::create(std::env::var("VF_LOG").expect("VF_LOG")).unwrap());
            }
            flush(s);
            if n >= 0 {
                s.cur = Some(n as usize);
                s.plan = s.plans[n as usize].split_whitespace().map(|x| x.to_string()).collect();
            }
            let id = s.plan.front().and_then(|x| x.strip_prefix("HOLD:")).map(|x| x.parse::<u64>().unwrap());
            if id.is_some() {
                s.plan.pop_front();
            }
            id
        });
        if let Some(id) = id {
            hold(id);
        }
    }
    /// Objects other threads can lock for a while.
    static HOLDS: Mutex<Reg<Box<dyn Fn() -> Holder>>> = Mutex::new(Reg(BTreeMap::new()));
    pub type Holder = Option<std::thread::JoinHandle<()>>;
    static HOLDER: Mutex<Holder> = Mutex::new(None);
    pub fn holdable(id: u64, f: Box<dyn Fn() -> Holder>) {
        HOLDS.lock().unwrap_or_else(|p| p.into_inner()).0.insert(id, f);
    }
    fn end_hold() {
        let h = HOLDER.lock().unwrap_or_else(|p| p.into_inner()).take();
        if let Some(h) = h {
            let _ = h.join();
        }
    }
    fn hold(id: u64) {
        let h = HOLDS.lock().unwrap_or_else(|p| p.into_inner()).0.get(&id).and_then(|f| f());
        *HOLDER.lock().unwrap_or_else(|p| p.into_inner()) = h;
    }
    pub fn no_hold<T>(_: &T) -> Holder {
        None
    }
    fn hold_with(f: impl FnOnce(&dyn Fn()) + Send + 'static) -> Holder {
        let (tx, rx) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || {
            f(&|| {
                let _ = tx.send(());
                std::thread::sleep(std::time::Duration::from_millis(8));
            })
        });
        let _ = rx.recv();
        Some(h)
    }
    pub fn hold_mutex<T: Send + 'static>(w: &std::sync::Weak<Mutex<T>>) -> Holder {
        let x = w.upgrade()?;
        hold_with(move |wait| {
            let _g = x.lock().unwrap_or_else(|p| p.into_inner());
            wait();
        })
    }
    pub fn hold_rw<T: Send + Sync + 'static>(w: &std::sync::Weak<std::sync::RwLock<T>>) -> Holder {
        let x = w.upgrade()?;
        hold_with(move |wait| {
            let _g = x.write().unwrap_or_else(|p| p.into_inner());
            wait();
        })
    }
    pub struct Toks;
    impl Toks {
        pub fn next(&mut self) -> String {
            with(|s| s.plan.pop_front()).unwrap_or_else(|| "?".to_string())
        }
    }
    pub fn born(what: &str, p: i64) -> u64 {
        with(|s| {
            let id = s.next;
            s.next += 1;
            s.live.insert(id);
            let _ = write!(s.events, " {what}{id}:{p}");
            id
        })
    }
    pub fn cloned(from: u64) -> u64 {
        with(|s| {
            let id = s.next_clone;
            s.next_clone += 1;
            s.live.insert(id);
            let _ = write!(s.events, " clone{from}>{id}");
            id
        })
    }
    pub fn died(id: u64) {
        with(|s| {
            if !s.live.remove(&id) {
                let _ = write!(s.events, " DOUBLEDROP{id}");
            } else {
                let _ = write!(s.events, " drop{id}");
            }
        })
    }

    pub fn live_count() -> i64 {
        with(|s| s.live.len() as i64)
    }
    /// Looked at through any path: the object must still exist.
    pub fn seen(id: u64) {
        with(|s| {
            if !s.live.contains(&id) {
                let _ = write!(s.events, " DEADOBJECT{id}");
            }
        })
    }

    pub trait Enc {
        fn enc(&self, o: &mut String);
    }
    pub trait Dec: Sized {
        fn dec(t: &mut Toks) -> Self;
    }
    pub trait Mutate {
        fn mutate(&mut self, t: &mut Toks);
    }
    macro_rules! vf_int {
        ($($t:ty)*) => {$(
            impl Enc for $t { fn enc(&self, o: &mut String) { write!(o, " i{}", self).unwrap(); } }
            impl Dec for $t { fn dec(t: &mut Toks) -> Self {
                let s = t.next();
                s[1..].parse().unwrap_or_else(|_| panic!("bad plan token {s} for {}", stringify!($t))) } }
            impl Mutate for $t { fn mutate(&mut self, t: &mut Toks) { *self = <$t as Dec>::dec(t); } }
        )*};
    }
    vf_int!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
    impl Enc for bool {
        fn enc(&self, o: &mut String) {
            // the representation of a bool that crossed the border must be valid too
            let raw: u8 = unsafe { std::ptr::read(self as *const bool as *const u8) };
            write!(o, " b{}", raw).unwrap();
        }
    }
    impl Dec for bool {
        fn dec(t: &mut Toks) -> Self {
            t.next() == "b1"
        }
    }
    impl Enc for f32 {
        fn enc(&self, o: &mut String) {
            if self.is_nan() {
                o.push_str(" gnan");
            } else {
                write!(o, " g{}", self.to_bits()).unwrap();
            }
        }
    }
    impl Dec for f32 {
        fn dec(t: &mut Toks) -> Self {
            let s = t.next();
            if s == "gnan" { f32::NAN } else { f32::from_bits(s[1..].parse().unwrap()) }
        }
    }
    impl Enc for f64 {
        fn enc(&self, o: &mut String) {
            if self.is_nan() {
                o.push_str(" fnan");
            } else {
                write!(o, " f{}", self.to_bits()).unwrap();
            }
        }
    }
    impl Dec for f64 {
        fn dec(t: &mut Toks) -> Self {
            let s = t.next();
            if s == "fnan" { f64::NAN } else { f64::from_bits(s[1..].parse().unwrap()) }
        }
    }
    impl Mutate for f32 { fn mutate(&mut self, t: &mut Toks) { *self = Dec::dec(t); } }
    impl Mutate for f64 { fn mutate(&mut self, t: &mut Toks) { *self = Dec::dec(t); } }
    // milliseconds; the plan's time points get some nanoseconds on top, which have to be cut off
    impl Enc for std::time::SystemTime {
        fn enc(&self, o: &mut String) {
            let n = self.duration_since(std::time::UNIX_EPOCH).unwrap();
            write!(o, " i{}", n.as_millis()).unwrap();
        }
    }
    impl Dec for std::time::SystemTime {
        fn dec(t: &mut Toks) -> Self {
            let ms = u64::dec(t);
            std::time::UNIX_EPOCH + std::time::Duration::from_millis(ms) + std::time::Duration::from_nanos(ms.wrapping_mul(7919) % 1_000_000)
        }
    }
    /// The head of a list of values of different types.
    pub struct Many;
    impl Dec for Many {
        fn dec(t: &mut Toks) -> Self {
            t.next();
            Many
        }
    }
    impl<T: Enc> Enc for *const T {
        fn enc(&self, o: &mut String) {
            unsafe { self.as_ref() }.enc(o)
        }
    }
    impl<T: Enc> Enc for *mut T {
        fn enc(&self, o: &mut String) {
            unsafe { self.as_ref() }.enc(o)
        }
    }
    impl<T: Dec + 'static> Dec for *const T {
        fn dec(t: &mut Toks) -> Self {
            <Option<&'static T>>::dec(t).map_or(std::ptr::null(), |x| x as *const T)
        }
    }
    impl<T: Dec + 'static> Dec for *mut T {
        fn dec(t: &mut Toks) -> Self {
            <*const T>::dec(t) as *mut T
        }
    }
    impl Enc for () {
        fn enc(&self, o: &mut String) {
            o.push_str(" u");
        }
    }
    impl Dec for () {
        fn dec(t: &mut Toks) -> Self {
            t.next();
        }
    }
    fn hex(b: &[u8], o: &mut String) {
        o.push_str(" s");
        for x in b {
            write!(o, "{:02x}", x).unwrap();
        }
    }
    impl Enc for str {
        fn enc(&self, o: &mut String) {
            if std::str::from_utf8(self.as_bytes()).is_err() {
                o.push_str(" INVALIDUTF8");
            }
            hex(self.as_bytes(), o);
        }
    }
    impl Enc for String {
        fn enc(&self, o: &mut String) {
            self.as_str().enc(o)
        }
    }
    impl Enc for std::path::Path {
        fn enc(&self, o: &mut String) {
            use std::os::unix::ffi::OsStrExt;
            hex(self.as_os_str().as_bytes(), o);
        }
    }
    impl Dec for String {
        fn dec(t: &mut Toks) -> Self {
            let s = t.next();
            let b: Vec<u8> = (1..s.len())
                .step_by(2)
                .map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap())
                .collect();
            let mut r = String::from_utf8(b).unwrap();
            // spare capacity, so that length and capacity differ
            if r.len() % 3 == 1 {
                r.reserve(17);
            }
            r
        }
    }
    /// Keeps values alive (and reachable for the leak detector) until the end.
    pub struct Keep(Vec<Box<dyn std::any::Any>>);
    unsafe impl Send for Keep {}
    static KEEP: Mutex<Keep> = Mutex::new(Keep(Vec::new()));
    pub fn keep<T: 'static>(v: T) -> &'static mut T {
        let mut b = Box::new(v);
        let p: *mut T = &mut *b;
        KEEP.lock().unwrap_or_else(|p| p.into_inner()).0.push(b);
        unsafe { &mut *p }
    }
    /// Frees everything `keep` holds.
    pub fn purge() {
        let v = std::mem::take(&mut KEEP.lock().unwrap_or_else(|p| p.into_inner()).0);
        drop(v);
    }
    impl Dec for &'static str {
        fn dec(t: &mut Toks) -> Self {
            keep(String::dec(t)).as_str()
        }
    }
    impl<T: Enc + ?Sized> Enc for &T {
        fn enc(&self, o: &mut String) {
            (**self).enc(o)
        }
    }
    impl<T: Enc + ?Sized> Enc for &mut T {
        fn enc(&self, o: &mut String) {
            (**self).enc(o)
        }
    }
    impl<T: Enc + ?Sized> Enc for Box<T> {
        fn enc(&self, o: &mut String) {
            (**self).enc(o)
        }
    }
    impl<T: Enc + ?Sized> Enc for Rc<T> {
        fn enc(&self, o: &mut String) {
            (**self).enc(o)
        }
    }
    impl<T: Enc + ?Sized> Enc for Arc<T> {
        fn enc(&self, o: &mut String) {
            (**self).enc(o)
        }
    }
    impl<T: Enc> Enc for RefCell<T> {
        fn enc(&self, o: &mut String) {
            match self.try_borrow() {
                Ok(x) => x.enc(o),
                Err(_) => o.push_str(" BORROWED"),
            }
        }
    }
    impl<T: Enc> Enc for Mutex<T> {
        fn enc(&self, o: &mut String) {
            match self.try_lock() {
                Ok(x) => x.enc(o),
                Err(_) => o.push_str(" LOCKED"),
            }
        }
    }
    impl<T: Enc> Enc for RwLock<T> {
        fn enc(&self, o: &mut String) {
            match self.try_read() {
                Ok(x) => x.enc(o),
                Err(_) => o.push_str(" LOCKED"),
            }
        }
    }
    impl<T: Enc> Enc for Option<T> {
        fn enc(&self, o: &mut String) {
            match self {
                None => o.push_str(" N"),
                Some(x) => {
                    o.push_str(" S");
                    x.enc(o)
                }
            }
        }
    }
    impl<T: Dec> Dec for Option<T> {
        fn dec(t: &mut Toks) -> Self {
            if t.next() == "N" { None } else { Some(T::dec(t)) }
        }
    }
    impl<T: Enc, E: Enc> Enc for Result<T, E> {
        fn enc(&self, o: &mut String) {
            match self {
                Ok(x) => {
                    o.push_str(" O");
                    x.enc(o)
                }
                Err(x) => {
                    o.push_str(" E");
                    x.enc(o)
                }
            }
        }
    }
    impl<T: Dec, E: Dec> Dec for Result<T, E> {
        fn dec(t: &mut Toks) -> Self {
            if t.next() == "O" { Ok(T::dec(t)) } else { Err(E::dec(t)) }
        }
    }
    impl<T: Enc> Enc for [T] {
        fn enc(&self, o: &mut String) {
            write!(o, " V{}", self.len()).unwrap();
            for x in self {
                x.enc(o);
            }
        }
    }
    impl<T: Enc> Enc for Vec<T> {
        fn enc(&self, o: &mut String) {
            self.as_slice().enc(o)
        }
    }
    impl<T: Dec> Dec for Vec<T> {
        fn dec(t: &mut Toks) -> Self {
            let n: usize = t.next()[1..].parse().unwrap();
            let mut v = if n % 3 == 2 { Vec::with_capacity(n + 5) } else { Vec::new() };
            for _ in 0..n {
                v.push(T::dec(t));
            }
            v
        }
    }
    impl<T: Dec + 'static> Dec for &'static T {
        fn dec(t: &mut Toks) -> Self {
            keep(T::dec(t))
        }
    }
    impl<T: Dec> Dec for Mutex<T> {
        fn dec(t: &mut Toks) -> Self {
            Mutex::new(T::dec(t))
        }
    }
    impl<T: Dec> Dec for Box<T> {
        fn dec(t: &mut Toks) -> Self {
            Box::new(T::dec(t))
        }
    }
    impl<T: Dec + 'static> Dec for &'static [T] {
        fn dec(t: &mut Toks) -> Self {
            keep(Vec::<T>::dec(t)).as_slice()
        }
    }
    impl<T: Dec + 'static> Dec for &'static mut [T] {
        fn dec(t: &mut Toks) -> Self {
            keep(Vec::<T>::dec(t)).as_mut_slice()
        }
    }
    impl<T: Mutate> Mutate for [T] {
        fn mutate(&mut self, t: &mut Toks) {
            for x in self {
                x.mutate(t)
            }
        }
    }
    impl<T: Mutate> Mutate for Rc<RefCell<T>> {
        fn mutate(&mut self, t: &mut Toks) {
            self.borrow_mut().mutate(t)
        }
    }
    impl<T: Mutate> Mutate for Arc<Mutex<T>> {
        fn mutate(&mut self, t: &mut Toks) {
            self.lock().unwrap().mutate(t)
        }
    }
    macro_rules! vf_tup {
        ($n:literal: $($t:ident $i:tt),*) => {
            impl<$($t: Enc),*> Enc for ($($t,)*) {
                fn enc(&self, o: &mut String) { o.push_str(concat!(" T", $n)); $(self.$i.enc(o);)* }
            }
            impl<$($t: Dec),*> Dec for ($($t,)*) {
                fn dec(t: &mut Toks) -> Self { t.next(); ($($t::dec(t),)*) }
            }
        };
    }
    vf_tup!(2: A 0, B 1);
    vf_tup!(3: A 0, B 1, C 2);
    vf_tup!(4: A 0, B 1, C 2, D 3);

    /// One call of a Rust function from the foreign side.
    pub struct Call(String);
    impl Call {
        pub fn new(n: usize) -> Call {
            Call(format!(" M{n}("))
        }
        pub fn arg<T: Enc + ?Sized>(mut self, x: &T) -> Call {
            x.enc(&mut self.0);
            self
        }
        pub fn done(self) {
            event(&self.0[1..]);
            event(")");
        }
    }
    pub fn mutate<T: Mutate + ?Sized>(x: &mut T) {
        x.mutate(&mut Toks)
    }
    pub fn ret<T: Dec>() -> T {
        T::dec(&mut Toks)
    }
    pub fn note<T: Enc + ?Sized>(what: &str, x: &T) {
        let mut s = String::from(what);
        x.enc(&mut s);
        event(&s);
    }

    /// Registry of shared objects: lets a plan return an existing object.
    pub struct Reg<T>(pub BTreeMap<u64, T>);
    unsafe impl<T> Send for Reg<T> {}

    macro_rules! vf_class {
        ($c:ident, $pad:expr, plain) => {
            pub struct $c { pub id: u64, pub p: i32, pad: [u8; $pad] }
            impl $c {
                pub fn mk(p: i32) -> $c { $c { id: crate::vf::born("new", p as i64), p, pad: [0x5a; $pad] } }
                pub fn vid(&self) -> u64 { if self.pad.iter().any(|x| *x != 0x5a) { crate::vf::event("CORRUPT"); } self.id }
                pub fn vpay(&self) -> i32 { self.p }
            }
            impl Drop for $c { fn drop(&mut self) {
                if self.pad.iter().any(|x| *x != 0x5a) { crate::vf::event("CORRUPT"); }
                self.pad = [0xa5; $pad];
                crate::vf::died(self.id) } }
            impl crate::vf::Enc for $c { fn enc(&self, o: &mut String) {
                use std::fmt::Write;
                if self.pad.iter().any(|x| *x != 0x5a) { o.push_str(" CORRUPT"); }
                crate::vf::seen(self.id);
                write!(o, " c{}:{}", self.id, self.p).unwrap(); } }
            impl crate::vf::Mutate for $c { fn mutate(&mut self, t: &mut crate::vf::Toks) { self.p = <i32 as crate::vf::Dec>::dec(t); } }
            impl crate::vf::Dec for $c { fn dec(t: &mut crate::vf::Toks) -> Self { $c::mk(<i32 as crate::vf::Dec>::dec(t)) } }
            impl crate::vf::Dec for &'static mut $c { fn dec(t: &mut crate::vf::Toks) -> Self { crate::vf::keep(<$c as crate::vf::Dec>::dec(t)) } }
        };
        ($c:ident, $pad:expr, clone) => {
            vf_class!($c, $pad, plain);
            impl Clone for $c { fn clone(&self) -> $c { $c { id: crate::vf::cloned(self.id), p: self.p, pad: self.pad } } }
        };
        ($c:ident, $pad:expr, pod) => {
            #[derive(Clone, Copy)]
            pub struct $c { pub p: i32, pad: [u8; $pad] }
            impl $c {
                pub fn mk(p: i32) -> $c { $c { p, pad: [0x5a; $pad] } }
                pub fn vid(&self) -> u64 { 0 }
                pub fn vpay(&self) -> i32 { self.p }
            }
            impl crate::vf::Enc for $c { fn enc(&self, o: &mut String) {
                use std::fmt::Write;
                if self.pad.iter().any(|x| *x != 0x5a) { o.push_str(" CORRUPT"); }
                write!(o, " c0:{}", self.p).unwrap(); } }
            impl crate::vf::Mutate for $c { fn mutate(&mut self, t: &mut crate::vf::Toks) { self.p = <i32 as crate::vf::Dec>::dec(t); } }
            impl crate::vf::Dec for $c { fn dec(t: &mut crate::vf::Toks) -> Self { $c::mk(<i32 as crate::vf::Dec>::dec(t)) } }
        };
        ($c:ident, $pad:expr, shared, $ptr:ident, $weak:ty, $inner:ty, $wrap:expr, $hold:expr) => {
            vf_class!($c, $pad, plain);
            vf_class!(@shared $c, $ptr, $weak, $inner, $wrap, $hold);
        };
        (@shared $c:ident, $ptr:ident, $weak:ty, $inner:ty, $wrap:expr, $hold:expr) => {
            const _: () = {
                static REG: std::sync::Mutex<crate::vf::Reg<$weak>> = std::sync::Mutex::new(crate::vf::Reg(std::collections::BTreeMap::new()));
                impl $c {
                    pub fn share(o: $c) -> $ptr<$inner> {
                        let id = o.id;
                        let r: $ptr<$inner> = $ptr::new($wrap(o));
                        let w: $weak = $ptr::downgrade(&r);
                        crate::vf::holdable(id, Box::new(move || $hold(&w)));
                        REG.lock().unwrap_or_else(|p| p.into_inner()).0.insert(id, $ptr::downgrade(&r));
                        r
                    }
                }
                impl crate::vf::Dec for $ptr<$inner> { fn dec(t: &mut crate::vf::Toks) -> Self {
                    let s = t.next();
                    if s.starts_with('r') {
                        let id: u64 = s[1..].parse().unwrap();
                        REG.lock().unwrap_or_else(|p| p.into_inner()).0[&id].upgrade().expect("object of the plan is dead")
                    } else {
                        $c::share($c::mk(s[1..].parse().unwrap()))
                    }
                } }
            };
        };
    }
    macro_rules! vf_enum {
        ($e:ident: $($i:ident = $n:expr),*) => {
            impl crate::vf::Enc for $e { fn enc(&self, o: &mut String) {
                match self { $($e::$i => o.push_str(concat!(" e", $n)),)* } } }
            impl crate::vf::Dec for $e { fn dec(t: &mut crate::vf::Toks) -> Self {
                let s = t.next();
                $(if s == concat!("e", $n) { return $e::$i; })*
                panic!("bad plan token {s}") } }
        };
    }
}
#[no_mangle]
pub extern "C" fn vf_op(n: i64) {
    vf::op(n)
}
#[no_mangle]
pub extern "C" fn vf_purge() {
    vf::purge()
}
