# Helpers of the demonstrations. Everything happens in a scratch directory.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
unset CARGO_BUILD_TARGET RUSTFLAGS RUSTC_WRAPPER
REPO="$PWD"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/gen/src" "$W/api"
export CARGO_TARGET_DIR="$W/target"

# gen MAIN.rs ARGS..: builds a program that uses flapigen as a library and runs it
gen() {
    local main="$1"; shift
    cat > "$W/gen/Cargo.toml" <<EOF
[package]
name = "demo_gen"
version = "0.1.0"
edition = "2021"
[dependencies]
flapigen = { path = "$REPO/macroslib" }
[workspace]
[profile.dev]
debug = false
incremental = false
EOF
    cp "$main" "$W/gen/src/main.rs"
    (cd "$W/gen" && cargo build --offline -q 2>"$W/cargo.err") || { cat "$W/cargo.err"; echo "cannot build the generator"; exit 3; }
    "$W/target/debug/demo_gen" "$@" || { echo "generator failed"; exit 1; }
}

# staticlib: lib.rs (beside demo.sh) + generated glue.rs
staticlib() {
    cp "$H/lib.rs" "$W/lib.rs"
    rustc --edition 2021 -Awarnings --crate-type staticlib --crate-name glue -o "$W/libglue.a" "$W/lib.rs" || { echo "rustc failed"; exit 1; }
}
cdylib() {
    rustc --edition 2021 -Awarnings --crate-type cdylib --crate-name glue -o "$W/libglue.so" "$W/lib.rs" "$@" || { echo "rustc failed"; exit 1; }
}
# cpp FLAGS..: compiles and runs main.cpp against the generated headers
cpp() {
    g++ -w "$@" -I "$W/api" "$H/main.cpp" "$W/libglue.a" -o "$W/main" -lpthread -ldl || { echo "g++ failed"; exit 1; }
    ASAN_OPTIONS=detect_leaks=1 timeout 60 "$W/main" || { echo "DEMO: wrong behaviour"; exit 1; }
}
# java: main.rs beside demo.sh is lib.rs (uses vf_jni_h, log), Main.java is package demo's program, generated package is org.demo
java_run() {
    mkdir -p "$W/deps" "$W/cls"
    rustc --edition 2018 -Awarnings --cap-lints allow --crate-type rlib --crate-name vf_jni_h --out-dir "$W/deps" "$H/jni_c_header.rs" || exit 3
    rustc --edition 2018 -Awarnings --cap-lints allow --crate-type rlib --crate-name log --out-dir "$W/deps" "$H/log_stub.rs" || exit 3
    cp "$H/lib.rs" "$W/lib.rs"
    cdylib --extern "log=$W/deps/liblog.rlib" --extern "vf_jni_h=$W/deps/libvf_jni_h.rlib"
    "$JAVA_HOME/bin/javac" -nowarn -encoding UTF-8 -proc:none -d "$W/cls" $(find "$W/api" -name '*.java') "$H/Main.java" || { echo "javac failed"; exit 1; }
    (cd "$W" && timeout 100 "$JAVA_HOME/bin/java" -Xcheck:jni -Xmx256m -XX:-CreateCoredumpOnCrash -XX:ErrorFile="$W/hs_err" -cp "$W/cls" Main "$W/libglue.so") || { echo "DEMO: wrong behaviour"; exit 1; }
}
# python: lib.rs beside demo.sh uses cpython, module name is given, main.py is run with the module on its path
python_run() {
    mkdir -p "$W/py/src"
    cat > "$W/py/Cargo.toml" <<EOT
[package]
name = "$1"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
cpython = { version = "=0.7.2", features = ["extension-module"] }
[workspace]
[profile.dev]
debug = false
incremental = false
EOT
    cp "$H/lib.rs" "$W/py/src/lib.rs"; cp "$W/glue.rs" "$W/py/src/glue.rs"
    (cd "$W/py" && cargo build --offline -q 2>"$W/cargo.err") || { tail -20 "$W/cargo.err"; echo "cannot build the module"; exit 1; }
    cp "$W/target/debug/lib$1.so" "$W/py/$1.so"
    (cd "$W/py" && PYTHONPATH="$W/py" timeout 100 python3 -X faulthandler "$H/main.py") || { echo "DEMO: wrong behaviour"; exit 1; }
}
