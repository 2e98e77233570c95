//! Thin command line over the public API of flapigen.
//! A job file has one `key value` pair per line; see `main`.
use flapigen::{
    CppConfig, CppOptional, CppStrView, CppVariant, Generator, JavaConfig, JavaReachabilityFence,
    LanguageConfig, MethodVariant, PythonConfig,
};
use std::{cell::RefCell, fs, io::Write, path::PathBuf, rc::Rc};

fn main() {
    let job_path = std::env::args().nth(1).expect("usage: fgen JOB");
    let job = fs::read_to_string(&job_path).expect("can not read job");
    let mut lang = String::new();
    let mut out = PathBuf::new();
    let mut name = String::new();
    let mut krate = "crate".to_string();
    let mut srcs = Vec::<PathBuf>::new();
    let mut dst = PathBuf::new();
    let mut opts = Vec::<(String, String)>::new();
    let mut merges = Vec::<(String, String)>::new();
    let mut attrs = Vec::<(String, String)>::new();
    let mut log: Option<PathBuf> = None;
    let mut many = false;
    for line in job.lines() {
        if line.trim().is_empty() {
            continue;
        }
        let (k, v) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "lang" => lang = v.into(),
            "out" => out = v.into(),
            "name" => name = v.into(),
            "crate" => krate = v.into(),
            "src" => srcs.push(v.into()),
            "dst" => dst = v.into(),
            "many" => many = true,
            "merge" => {
                let (id, path) = v.split_once(' ').expect("merge ID PATH");
                merges.push((id.into(), fs::read_to_string(path).expect("merge file")));
            }
            "attr" => {
                let (kind, n) = v.split_once(' ').expect("attr KIND NAME");
                attrs.push((kind.into(), n.into()));
            }
            "log" => log = Some(v.into()),
            _ => opts.push((k.into(), v.into())),
        }
    }
    let opt = |k: &str| opts.iter().find(|x| x.0 == k).map(|x| x.1.as_str());
    let cfg = match lang.as_str() {
        "java" => {
            let mut c = JavaConfig::new(out, name);
            if let Some(p) = opt("null_annotation") {
                c = c.use_null_annotation_from_package(p.into());
            }
            if let Some(p) = opt("optional_package") {
                c = c.use_optional_package(p.into());
            }
            match opt("fence") {
                None => {}
                Some("std") => c = c.use_reachability_fence(JavaReachabilityFence::Std),
                Some(n) => {
                    c = c.use_reachability_fence(JavaReachabilityFence::GenerateFence(
                        n.parse().unwrap(),
                    ))
                }
            }
            LanguageConfig::JavaConfig(c)
        }
        "cpp" => {
            let mut c = CppConfig::new(out, name);
            if opt("use_boost") == Some("1") {
                c = c.use_boost();
            }
            if let Some(v) = opt("optional") {
                c = c.cpp_optional(if v == "boost" { CppOptional::Boost } else { CppOptional::Std17 });
            }
            if let Some(v) = opt("variant") {
                c = c.cpp_variant(if v == "boost" { CppVariant::Boost } else { CppVariant::Std17 });
            }
            if let Some(v) = opt("str_view") {
                c = c.cpp_str_view(if v == "boost" { CppStrView::Boost } else { CppStrView::Std17 });
            }
            if let Some(v) = opt("separate_impl_headers") {
                c = c.separate_impl_headers(v == "1");
            }
            LanguageConfig::CppConfig(c)
        }
        "python" => LanguageConfig::PythonConfig(PythonConfig::new(name)),
        _ => panic!("unknown lang {lang}"),
    };
    let mut g = Generator::new(cfg);
    if let Some(w) = opt("width") {
        g = g.with_pointer_target_width(w.parse().unwrap());
    }
    if let Some(v) = opt("rustfmt") {
        g = g.rustfmt_bindings(v == "1");
    }
    if let Some(v) = opt("remove") {
        g = g.remove_not_generated_files_from_output_directory(v == "1");
    }
    for (id, code) in &merges {
        g = g.merge_type_map(id, code);
    }
    let calls: Rc<RefCell<Vec<String>>> = Rc::default();
    for (kind, n) in attrs {
        let calls = calls.clone();
        let nn = n.clone();
        match kind.as_str() {
            "class" => {
                g = g.register_class_attribute_callback(&n, move |cnt, cls| {
                    calls.borrow_mut().push(format!("class {nn} {cls} {}", cnt.len()));
                    write!(cnt, "\n// EXT class {nn} {cls}\n").unwrap();
                })
            }
            "enum" => {
                g = g.register_enum_attribute_callback(&n, move |cnt, e| {
                    calls.borrow_mut().push(format!("enum {nn} {e} {}", cnt.len()));
                    write!(cnt, "\n// EXT enum {nn} {e}\n").unwrap();
                })
            }
            "method" => {
                g = g.register_method_attribute_callback(&n, move |cnt, mi| {
                    let v = match mi.variant {
                        MethodVariant::Constructor => "ctor",
                        MethodVariant::Method(_) => "method",
                        MethodVariant::StaticMethod => "static",
                    };
                    calls.borrow_mut().push(format!(
                        "method {nn} {}.{} {v} {}",
                        mi.class_name,
                        mi.method_name,
                        cnt.len()
                    ));
                    write!(cnt, "\n// EXT method {nn} {}.{} {v}\n", mi.class_name, mi.method_name)
                        .unwrap();
                })
            }
            _ => panic!("unknown attr kind"),
        }
    }
    if many || srcs.len() != 1 {
        g.expand_many(&krate, &srcs, &dst);
    } else {
        g.expand(&krate, &srcs[0], &dst);
    }
    if let Some(p) = log {
        fs::write(p, calls.borrow().join("\n")).unwrap();
    }
}
