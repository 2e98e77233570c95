use flapigen::{Generator, LanguageConfig, PythonConfig};
fn main() {
    // SRC DST MODULE
    let a: Vec<String> = std::env::args().collect();
    let cfg = PythonConfig::new(a[3].clone());
    Generator::new(LanguageConfig::PythonConfig(cfg)).with_pointer_target_width(64).expand("demo", &a[1], &a[2]);
}
