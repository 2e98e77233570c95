use flapigen::{CppConfig, CppOptional, CppStrView, CppVariant, Generator, LanguageConfig};
fn main() {
    // SRC DST OUT [boost]
    let a: Vec<String> = std::env::args().collect();
    let mut cfg = CppConfig::new((&a[3]).into(), "api".into());
    if a.get(4).map(|x| x == "boost").unwrap_or(false) {
        cfg = cfg.use_boost();
    } else {
        cfg = cfg.cpp_optional(CppOptional::Std17).cpp_variant(CppVariant::Std17).cpp_str_view(CppStrView::Std17);
    }
    Generator::new(LanguageConfig::CppConfig(cfg)).with_pointer_target_width(64).expand("demo", &a[1], &a[2]);
}
