// Additions of the test crates for Python: an error type with a chain of causes.
#[derive(Debug)]
pub struct TErr {
    msg: String,
    cause: Option<Box<TErr>>,
}
impl TErr {
    pub fn new(mut v: Vec<String>) -> TErr {
        let msg = v.remove(0);
        TErr { msg, cause: if v.is_empty() { None } else { Some(Box::new(TErr::new(v))) } }
    }
}
impl std::fmt::Display for TErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for TErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.cause.as_ref().map(|x| x.as_ref() as _)
    }
}
impl vf::Dec for TErr {
    fn dec(t: &mut vf::Toks) -> Self {
        TErr::new(vf::Dec::dec(t))
    }
}
macro_rules! vf_error_enum {
    ($e:ident) => {
        impl std::fmt::Display for $e {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{:?}", self)
            }
        }
        impl std::error::Error for $e {}
    };
}
#[no_mangle]
pub extern "C" fn vf_live() -> i64 {
    vf::live_count()
}
#[no_mangle]
pub extern "C" fn vf_blocks() -> i64 {
    vf_alloc::BLOCKS.load(std::sync::atomic::Ordering::Relaxed)
}
