use flapigen::{Generator, JavaConfig, LanguageConfig};
fn main() {
    // SRC DST OUT PACKAGE
    let a: Vec<String> = std::env::args().collect();
    let cfg = JavaConfig::new((&a[3]).into(), a[4].clone());
    Generator::new(LanguageConfig::JavaConfig(cfg)).with_pointer_target_width(64).expand("demo", &a[1], &a[2]);
}
