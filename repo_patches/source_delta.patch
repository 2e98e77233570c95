From f8360303e322bc7b7a11d0b3159e4b5db33bac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 01/38] fix: C++ RustVec: begin/end of not const vector should
 be compilable

---
 macroslib/src/cpp/rust_vec_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/rust_vec_impl.hpp b/macroslib/src/cpp/rust_vec_impl.hpp
index 2a4f667..cacf4f2 100644
--- a/macroslib/src/cpp/rust_vec_impl.hpp
+++ b/macroslib/src/cpp/rust_vec_impl.hpp
@@ -48,9 +48,9 @@ public:
     size_t size() const noexcept { return this->len; }
     bool empty() const noexcept { return this->len == 0; }
     const value_type &operator[](size_t i) const noexcept { return this->data[i]; }
-    iterator begin() noexcept { return this->data; }
+    iterator begin() noexcept { return const_cast<iterator>(this->data); }
     const_iterator begin() const noexcept { return this->data; }
-    iterator end() noexcept { return this->data + this->len; }
+    iterator end() noexcept { return const_cast<iterator>(this->data) + this->len; }
     const_iterator end() const noexcept { return this->data + this->len; }
     void clear() noexcept { free_mem(); }
     CContainerType release() noexcept
-- 
2.43.0


From e54393a027dd97f6a558d59f2ec7fac4c64059bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 02/38] fix: C++: use std::get to convert std::tuple argument
 to Rust tuple

---
 macroslib/src/cpp/cpp-include.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index b7306a4..2d12d4b 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -357,9 +357,9 @@ foreign_typemap!(
                            swig_foreign_from_i_type!(T3, $p.third))"#;
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) <= "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
        r#"swig_f_type!(CRustTuple3!()) {
-               swig_foreign_to_i_type!(T1, $p.first),
-               swig_foreign_to_i_type!(T2, $p.second),
-               swig_foreign_to_i_type!(T3, $p.third),
+               swig_foreign_to_i_type!(T1, std::get<0>($p)),
+               swig_foreign_to_i_type!(T2, std::get<1>($p)),
+               swig_foreign_to_i_type!(T3, std::get<2>($p)),
         }"#;
 );
 
-- 
2.43.0


From 6241299f9498c4b04465cd09939cee1ae78ce1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 03/38] fix: C++: class can use Vec of itself as argument or
 return type

---
 macroslib/src/cpp/cpp-include.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 2d12d4b..73da154 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -1060,6 +1060,7 @@ foreign_typemap!(
 #ifdef __cplusplus
 
 #include "rust_foreign_vec_impl.hpp"
+#include "swig_f_type!(T)_fwd.hpp"
 
 namespace $RUST_SWIG_USER_NAMESPACE {
 using CForeignVecModule!() = RustForeignVec<swig_f_type!(&T, output), CRustForeignVec, CForeignVecFree!(), CForeignVecPush!(), CForeignVecRemove!(), CForeignVecElemSize!()>;
-- 
2.43.0


From 821600e77c030ce29491144896b96edf04006ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 04/38] fix: C++: nested tuples, conversion of inner tuple
 should not overwrite variables of outer one

---
 macroslib/src/cpp/cpp-include.rs       | 16 +++++-----
 macroslib/src/typemap/typemap_macro.rs | 41 +++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index 73da154..f2bdb54 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -312,9 +312,10 @@ foreign_typemap!(
        };
    };
    ($p:r_type) <T1, T2> (T1, T2) <= CRustPair!() {
-       swig_from_i_type_to_rust!(T1, $p.first, p0)
-       swig_from_i_type_to_rust!(T2, $p.second, p1)
-       $out = (p0, p1);
+       $out = (
+           { swig_from_i_type_to_rust!(T1, $p.first, p0) p0 },
+           { swig_from_i_type_to_rust!(T2, $p.second, p1) p1 },
+       );
    };
    ($p:f_type, req_modules = ["\"CRustPairModule!().h\"", "<utility>"]) => "std::pair<swig_f_type!(T1), swig_f_type!(T2)>"
            "std::make_pair(swig_foreign_from_i_type!(T1, $p.first), swig_foreign_from_i_type!(T2, $p.second))";
@@ -346,10 +347,11 @@ foreign_typemap!(
        };
    };
    ($p:r_type) <T1, T2, T3> (T1, T2, T3) <= CRustTuple3!() {
-       swig_from_i_type_to_rust!(T1, $p.first, p0)
-       swig_from_i_type_to_rust!(T2, $p.second, p1)
-       swig_from_i_type_to_rust!(T3, $p.third, p2)
-       $out = (p0, p1, p2);
+       $out = (
+           { swig_from_i_type_to_rust!(T1, $p.first, p0) p0 },
+           { swig_from_i_type_to_rust!(T2, $p.second, p1) p1 },
+           { swig_from_i_type_to_rust!(T3, $p.third, p2) p2 },
+       );
    };
    ($p:f_type, req_modules = ["\"CRustTuple3Module!().h\"", "<tuple>"]) => "std::tuple<swig_f_type!(T1), swig_f_type!(T2), swig_f_type!(T3)>"
        r#"std::make_tuple(swig_foreign_from_i_type!(T1, $p.first),
diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index ac3c5db..3699e8b 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -1147,6 +1147,30 @@ fn expand_module_name(
     .map(|x| x.into())
 }
 
+/// Returns true if `code` declares (via `let`) at top level any variable from `names`
+fn declares_any_of(code: &str, names: &FxHashSet<String>) -> bool {
+    if names.is_empty() {
+        return false;
+    }
+    let block: syn::Block = match syn::parse_str(&format!("{{ {} }}", code)) {
+        Ok(x) => x,
+        Err(_) => return false,
+    };
+    block.stmts.iter().any(|stmt| match stmt {
+        syn::Stmt::Local(local) => {
+            let pat = match local.pat {
+                syn::Pat::Type(ref x) => &*x.pat,
+                ref x => x,
+            };
+            match pat {
+                syn::Pat::Ident(x) => names.contains(&x.ident.to_string()),
+                _ => false,
+            }
+        }
+        _ => false,
+    })
+}
+
 fn expand_rust_code(
     code: &str,
     param_map: &TyParamsSubstMap,
@@ -1154,6 +1178,7 @@ fn expand_rust_code(
     generic_aliases: &[CalcGenericAlias],
     ctx_span: SourceIdSpan,
 ) -> Result<String> {
+    let mut used_var_names = FxHashSet::<String>::default();
     expand_macroses(
         code,
         |id: &str, params: Vec<&str>, out: &mut String| -> Result<()> {
@@ -1175,7 +1200,21 @@ fn expand_rust_code(
                     } else {
                         unreachable!()
                     };
-                    write!(out, "{}", tt).expect(WRITE_TO_MEM_FAILED_MSG);
+                    used_var_names.remove(*out_var_name);
+                    if declares_any_of(&tt, &used_var_names) {
+                        // nested conversion redeclares variables of the outer one,
+                        // so limit the scope of its variables
+                        write!(
+                            out,
+                            "let mut {var} = {{ {code} {var} }};",
+                            var = out_var_name,
+                            code = tt
+                        )
+                        .expect(WRITE_TO_MEM_FAILED_MSG);
+                    } else {
+                        write!(out, "{}", tt).expect(WRITE_TO_MEM_FAILED_MSG);
+                    }
+                    used_var_names.insert(out_var_name.to_string());
                 }
                 _ if id == SWIG_I_TYPE => {
                     let (param, opt_arg) = match params.len() {
-- 
2.43.0


From 9ccf84a903d1f3a3c29911fbdf7415ad8e796982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 05/38] fix: C++: empty slice with null data is valid argument

---
 macroslib/src/cpp/cpp-include.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index f2bdb54..e2546d8 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -854,7 +854,11 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &[T] <= CRustSlice!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts($p.data, $p.len) };
+        $out = if $p.len != 0 {
+            unsafe { ::std::slice::from_raw_parts($p.data, $p.len) }
+        } else {
+            &[]
+        };
     };
     ($p:f_type, req_modules = ["\"CRustSlice!().h\""]) => "RustSlice<const swig_f_type!(T)>"
         "RustSlice<const swig_f_type!(T)>{$p.data, $p.len}";
@@ -887,7 +891,11 @@ foreign_typemap!(
     };
     ($p:r_type) <T: SwigTypeIsReprC> &mut [T] <= CRustSliceMut!() {
         assert!($p.len == 0 || !$p.data.is_null());
-        $out = unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) };
+        $out = if $p.len != 0 {
+            unsafe { ::std::slice::from_raw_parts_mut($p.data, $p.len) }
+        } else {
+            &mut []
+        };
     };
     ($p:f_type, req_modules = ["\"CRustSliceMut!().h\""]) => "RustSlice<swig_f_type!(T)>"
         "RustSlice<swig_f_type!(T)>{$p.data, $p.len}";
-- 
2.43.0


From b1774089d6df2873b9887ae01deb543a8e0e4a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 06/38] fix: C++ RustForeignSliceIterator: operator[] should be
 compilable, offsets and differences may be negative

---
 macroslib/src/cpp/rust_foreign_slice_iter.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_iter.hpp b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
index a1e33cf..e7d74e5 100644
--- a/macroslib/src/cpp/rust_foreign_slice_iter.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_iter.hpp
@@ -58,32 +58,32 @@ public:
     /*@{*/
     T operator[](ptrdiff_t n) const noexcept
     {
-        auto p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) + offset(n);
         auto elem_ptr = static_cast<const CForeignType *>(p);
         return T{ elem_ptr };
     }
 
     RustForeignSliceIterator &operator+=(ptrdiff_t n) noexcept
     {
-        this->ptr = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        this->ptr = static_cast<const uint8_t *>(this->ptr) + offset(n);
         return *this;
     }
 
     RustForeignSliceIterator operator+(ptrdiff_t n) const noexcept
     {
-        const void *p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) + offset(n);
         return RustForeignSliceIterator(p, this->step);
     }
 
     RustForeignSliceIterator &operator-=(ptrdiff_t n) noexcept
     {
-        this->ptr = static_cast<const uint8_t *>(this->ptr) - n * this->step;
+        this->ptr = static_cast<const uint8_t *>(this->ptr) - offset(n);
         return *this;
     }
 
     RustForeignSliceIterator operator-(ptrdiff_t n) const noexcept
     {
-        const void *p = static_cast<const uint8_t *>(this->ptr) - n * this->step;
+        const void *p = static_cast<const uint8_t *>(this->ptr) - offset(n);
         return RustForeignSliceIterator(p, this->step);
     }
 
@@ -94,7 +94,7 @@ public:
             = static_cast<const uint8_t *>(this->ptr) - static_cast<const uint8_t *>(o.ptr);
         // if container empty step may be 0, to prevent div by 0
         if (diff != 0) {
-            return diff / this->step;
+            return diff / static_cast<ptrdiff_t>(this->step);
         }
         else {
             return 0;
@@ -126,6 +126,9 @@ public:
     bool operator!=(const RustForeignSliceIterator<T> &o) const noexcept { return !operator==(o); }
 
 private:
+    // step is unsigned, so offset should be calculated in signed numbers, because of n may be negative
+    ptrdiff_t offset(ptrdiff_t n) const noexcept { return n * static_cast<ptrdiff_t>(this->step); }
+
     const void *ptr;
     uintptr_t step;
 };
-- 
2.43.0


From cc8a24311d8ba0b631b2f7e585b39e40e8d9083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 07/38] fix: C++: copy of default constructed or moved
 RustString should not pass null to String::from_raw_parts

---
 macroslib/src/cpp/cpp-include.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/macroslib/src/cpp/cpp-include.rs b/macroslib/src/cpp/cpp-include.rs
index e2546d8..f2fff4f 100644
--- a/macroslib/src/cpp/cpp-include.rs
+++ b/macroslib/src/cpp/cpp-include.rs
@@ -424,6 +424,10 @@ foreign_typemap!(
 
         #[no_mangle]
         pub extern "C" fn crust_string_clone(x: CRustString) -> CRustString {
+            if x.data.is_null() {
+                // default constructed or "moved from" RustString
+                return x;
+            }
             let s = unsafe { String::from_raw_parts(x.data as *mut u8, x.len, x.capacity) };
             let ret = CRustString::from_string(s.clone());
             ::std::mem::forget(s);
-- 
2.43.0


From feb22109e9c066de3b7a31d59c94f5538609d23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 08/38] fix: C++: default constructed or moved RustForeignSlice
 should not pass null pointer to Rust

---
 macroslib/src/cpp/rust_foreign_slice_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/rust_foreign_slice_impl.hpp b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
index 4c07b84..734c6df 100644
--- a/macroslib/src/cpp/rust_foreign_slice_impl.hpp
+++ b/macroslib/src/cpp/rust_foreign_slice_impl.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstddef>
+#include <type_traits>
+
 #include "rust_foreign_slice_iter.hpp"
 
 namespace RUST_SWIG_USER_NAMESPACE {
@@ -70,7 +73,8 @@ private:
     {
         this->step = 0;
         this->len = 0;
-        this->data = nullptr;
+        // Rust slice can not hold null pointer even if it is empty
+        this->data = reinterpret_cast<void *>(std::alignment_of<std::max_align_t>::value);
     }
 };
 
-- 
2.43.0


From 93435088d8897e5cd649e1493f306342e958cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 09/38] fix: C++ callback: argument may be named 'opaque'

---
 macroslib/src/cpp/finterface.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/finterface.rs b/macroslib/src/cpp/finterface.rs
index fefd8bc..3b39bdb 100644
--- a/macroslib/src/cpp/finterface.rs
+++ b/macroslib/src/cpp/finterface.rs
@@ -433,8 +433,9 @@ struct C_{interface_name} {{
         writeln!(
             file_c,
             r#"{doc_comments}
-    {c_ret_type} (*{method_name})({single_args_with_types}void *opaque);"#,
+    {c_ret_type} (*{method_name})({single_args_with_types}void *{opaque});"#,
             method_name = method.name,
+            opaque = opaque_name,
             doc_comments = cpp_code::doc_comments_to_c_comments(&method.doc_comments, false),
             single_args_with_types = cpp_code::c_generate_args_with_types(
                 f_method,
-- 
2.43.0


From 14c591623d97cc87968b1a632a9ead4ce96b9b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 10/38] fix: Java exception messages with U+0000 aborted,
 characters above U+FFFF were damaged

---
 macroslib/src/java_jni/jni-include.rs | 33 +++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 9a7730c..80c4d38 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -303,10 +303,39 @@ impl Drop for JavaCallback {
     }
 }
 
+/// Zero terminated string in the encoding that JNI uses for `char *` strings:
+/// U+0000 takes two bytes, and code points above U+FFFF are surrogate pairs
+#[allow(dead_code)]
+fn to_modified_utf8(x: &str) -> Vec<u8> {
+    let mut ret = Vec::with_capacity(x.len() + 1);
+    for code_unit in x.encode_utf16() {
+        match code_unit {
+            0x1..=0x7f => ret.push(code_unit as u8),
+            0 | 0x80..=0x7ff => {
+                ret.push(0xc0 | (code_unit >> 6) as u8);
+                ret.push(0x80 | (code_unit & 0x3f) as u8);
+            }
+            _ => {
+                ret.push(0xe0 | (code_unit >> 12) as u8);
+                ret.push(0x80 | ((code_unit >> 6) & 0x3f) as u8);
+                ret.push(0x80 | (code_unit & 0x3f) as u8);
+            }
+        }
+    }
+    ret.push(0);
+    ret
+}
+
 #[allow(dead_code)]
 fn jni_throw(env: *mut JNIEnv, ex_class: jclass, message: &str) {
-    let c_message = ::std::ffi::CString::new(message).unwrap();
-    let res = unsafe { (**env).ThrowNew.unwrap()(env, ex_class, c_message.as_ptr()) };
+    let c_message = to_modified_utf8(message);
+    let res = unsafe {
+        (**env).ThrowNew.unwrap()(
+            env,
+            ex_class,
+            c_message.as_ptr() as *const ::std::os::raw::c_char,
+        )
+    };
     if res != 0 {
         log::error!(
             "JNI ThrowNew({}) failed for class {:?} failed",
-- 
2.43.0


From a56d6d7a8c2a495ba6f14954ee76974c00fa034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 11/38] fix: Java: reject argument name 'env', the generated
 code did not compile

---
 macroslib/src/java_jni/fclass.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index 533524f..af50625 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -619,6 +619,13 @@ May be you need to use `private constructor = empty;` syntax?",
 
         let mut known_names: FxHashSet<SmolStr> =
             method.arg_names_without_self().map(|x| x.into()).collect();
+        if known_names.contains("env") {
+            return Err(DiagnosticError::new(
+                class.src_id,
+                method.rust_id.span(),
+                "Invalid argument name 'env' reserved for generate code purposes",
+            ));
+        }
         if let MethodVariant::Method(_) = method.variant {
             if known_names.contains("this") {
                 return Err(DiagnosticError::new(
-- 
2.43.0


From 3a3f4effe15909473009aab1e5d87fb626672c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 12/38] fix: Java objects created by AllocObject were never
 finalized

---
 macroslib/src/java_jni/jni-include.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/macroslib/src/java_jni/jni-include.rs b/macroslib/src/java_jni/jni-include.rs
index 80c4d38..8ecd4d4 100644
--- a/macroslib/src/java_jni/jni-include.rs
+++ b/macroslib/src/java_jni/jni-include.rs
@@ -351,6 +351,23 @@ fn jni_throw_exception(env: *mut JNIEnv, message: &str) {
     jni_throw(env, exception_class, message)
 }
 
+/// `AllocObject` calls no constructor, but JVM may register object
+/// for finalization in the constructor of java.lang.Object
+#[allow(dead_code)]
+fn call_java_lang_object_constructor(env: *mut JNIEnv, jobj: jobject) {
+    let object_class: jclass = swig_jni_find_class!(JAVA_LANG_OBJECT, "java/lang/Object");
+    assert!(!object_class.is_null());
+    let init_m: jmethodID =
+        swig_jni_get_method_id!(JAVA_LANG_OBJECT_INIT, JAVA_LANG_OBJECT, "<init>", "()V");
+    assert!(!init_m.is_null());
+    unsafe {
+        (**env).CallNonvirtualVoidMethod.unwrap()(env, jobj, object_class, init_m);
+        if (**env).ExceptionCheck.unwrap()(env) != 0 {
+            panic!("java.lang.Object constructor failed: catch exception");
+        }
+    }
+}
+
 #[allow(dead_code)]
 fn object_to_jobject<T: SwigForeignClass>(env: *mut JNIEnv, obj: T) -> jobject {
     let jcls = <T>::jni_class();
@@ -368,6 +385,7 @@ fn object_to_jobject<T: SwigForeignClass>(env: *mut JNIEnv, obj: T) -> jobject {
             panic!("object_to_jobject: Can not set mNativeObj field: catch exception");
         }
     }
+    call_java_lang_object_constructor(env, jobj);
     jobj
 }
 
@@ -443,6 +461,7 @@ fn vec_of_objects_to_jobject_array<T: SwigForeignClass>(
             if (**env).ExceptionCheck.unwrap()(env) != 0 {
                 panic!("Can not mNativeObj field: catch exception");
             }
+            call_java_lang_object_constructor(env, jobj);
             (**env).SetObjectArrayElement.unwrap()(env, obj_arr, i as jsize, jobj);
             if (**env).ExceptionCheck.unwrap()(env) != 0 {
                 panic!("SetObjectArrayElement({}) failed", i);
-- 
2.43.0


From 067390c21a8d83a6a41ac55da126e1d693d94523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 13/38] fix: Java: overloads and callbacks using classes
 declared later were refused

---
 macroslib/src/java_jni/fclass.rs | 19 -------------------
 macroslib/src/java_jni/mod.rs    |  8 ++++++++
 2 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index af50625..2129054 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -48,25 +48,6 @@ pub(in crate::java_jni) fn generate(ctx: &mut JavaContext, class: &ForeignClassI
     debug!("generate: java code done");
     generate_rust_code(ctx, class, &f_methods_sign)?;
 
-    let class_name = class.name.to_string();
-
-    ctx.java_type_to_jni_sig_map.insert(
-        class_name.clone().into(),
-        format!(
-            "L{};",
-            java_class_full_name(&ctx.cfg.package_name, &class_name)
-        )
-        .into(),
-    );
-    ctx.java_type_to_jni_sig_map.insert(
-        format!("{} []", class_name).into(),
-        format!(
-            "[L{};",
-            java_class_full_name(&ctx.cfg.package_name, &class_name)
-        )
-        .into(),
-    );
-
     Ok(())
 }
 
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index b557fc0..3445aea 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -114,6 +114,14 @@ impl JavaConfig {
         class
             .validate_class()
             .map_err(|err| DiagnosticError::new(class.src_id, class.span(), err))?;
+        let class_name = class.name.to_string();
+        let class_full_name = java_class_full_name(&self.package_name, &class_name);
+        ctx.java_type_to_jni_sig_map.insert(
+            format!("{} []", class_name).into(),
+            format!("[L{};", class_full_name).into(),
+        );
+        ctx.java_type_to_jni_sig_map
+            .insert(class_name.into(), format!("L{};", class_full_name).into());
         if let Some(self_desc) = class.self_desc.as_ref() {
             let constructor_ret_type = &self_desc.constructor_ret_type;
             let this_type_for_method = if_ty_result_return_ok_type(constructor_ret_type)
-- 
2.43.0


From d30d2d84b33b754f2f579a62f677d3fe9ea62c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 14/38] fix: Java: wrong or missing JNI signatures of boxed
 numbers, String arrays and Optional*

---
 macroslib/src/java_jni/rust_code.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index 838864a..de7fa27 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -19,12 +19,25 @@ use crate::{
 pub(in crate::java_jni) fn predefined_java_type_to_jni_sig() -> FxHashMap<SmolStr, SmolStr> {
     let mut m = FxHashMap::default();
     m.insert("String".into(), "Ljava.lang.String;".into());
-    m.insert("Byte".into(), "Ljava.lang.Byte".into());
-    m.insert("Short".into(), "Ljava.lang.Short".into());
-    m.insert("Integer".into(), "Ljava.lang.Integer".into());
-    m.insert("Long".into(), "Ljava.lang.Long".into());
-    m.insert("Float".into(), "Ljava.lang.Float".into());
-    m.insert("Double".into(), "Ljava.lang.Double".into());
+    m.insert("Byte".into(), "Ljava.lang.Byte;".into());
+    m.insert("Short".into(), "Ljava.lang.Short;".into());
+    m.insert("Integer".into(), "Ljava.lang.Integer;".into());
+    m.insert("Long".into(), "Ljava.lang.Long;".into());
+    m.insert("Float".into(), "Ljava.lang.Float;".into());
+    m.insert("Double".into(), "Ljava.lang.Double;".into());
+    m.insert("java.lang.String []".into(), "[Ljava.lang.String;".into());
+    m.insert(
+        "java.util.OptionalInt".into(),
+        "Ljava.util.OptionalInt;".into(),
+    );
+    m.insert(
+        "java.util.OptionalLong".into(),
+        "Ljava.util.OptionalLong;".into(),
+    );
+    m.insert(
+        "java.util.OptionalDouble".into(),
+        "Ljava.util.OptionalDouble;".into(),
+    );
     m.insert("boolean".into(), "Z".into());
     m.insert("byte".into(), "B".into());
     m.insert("char".into(), "C".into());
-- 
2.43.0


From 0490a2ab458012c7335f56d46d8fb29a8b54da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 15/38] fix: Java: overloads that differ only in class, enum or
 Option types got native methods with equal signatures

---
 macroslib/src/java_jni/fclass.rs | 65 +++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index 2129054..f031032 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -39,14 +39,16 @@ pub(in crate::java_jni) fn generate(ctx: &mut JavaContext, class: &ForeignClassI
     );
 
     let f_methods_sign = find_suitable_foreign_types_for_methods(ctx, class)?;
+    let native_names = native_method_names(class, &f_methods_sign);
     generate_java_code(
         ctx,
         class,
         &f_methods_sign,
+        &native_names,
         ctx.cfg.null_annotation_package.as_deref(),
     )?;
     debug!("generate: java code done");
-    generate_rust_code(ctx, class, &f_methods_sign)?;
+    generate_rust_code(ctx, class, &f_methods_sign, &native_names)?;
 
     Ok(())
 }
@@ -65,6 +67,7 @@ fn generate_java_code(
     ctx: &mut JavaContext,
     class: &ForeignClassInfo,
     methods_sign: &[JniForeignMethodSignature],
+    native_names: &[String],
     null_annotation_package: Option<&str>,
 ) -> Result<()> {
     let path = ctx.cfg.output_dir.join(format!("{}.java", class.name));
@@ -90,7 +93,8 @@ public final class {class_name} {{"#,
     let mut have_methods = false;
     let mut have_constructor = false;
 
-    for (method, f_method) in class.methods.iter().zip(methods_sign) {
+    for ((method, f_method), func_name) in class.methods.iter().zip(methods_sign).zip(native_names)
+    {
         write!(
             &mut file,
             "{doc_comments}",
@@ -149,8 +153,6 @@ public final class {class_name} {{"#,
                 known_names,
                 conv_code_flags,
             )?;
-        let func_name = method_name(method, f_method);
-
         let external_args_except_self = java_code::args_with_java_types(
             f_method,
             method.arg_names_without_self(),
@@ -387,7 +389,7 @@ public final class {class_name} {{"#,
                     }
                     writeln!(
                         file,
-                        r#"        {rust_self_name} = init({args});{reachability_fence_code}
+                        r#"        {rust_self_name} = {func_name}({args});{reachability_fence_code}
     }}
     private static native long {func_name}({args_with_types}){exception_spec};"#,
                         rust_self_name = JAVA_RUST_SELF_NAME,
@@ -486,12 +488,12 @@ fn generate_rust_code(
     ctx: &mut JavaContext,
     class: &ForeignClassInfo,
     f_methods_sign: &[JniForeignMethodSignature],
+    native_names: &[String],
 ) -> Result<()> {
     //to handle java method overload
-    let mut gen_fnames = FxHashMap::<String, usize>::default();
-    for (method, f_method) in class.methods.iter().zip(f_methods_sign.iter()) {
-        let val_ref = gen_fnames.entry(method_name(method, f_method));
-        *val_ref.or_insert(0) += 1;
+    let mut gen_fnames = FxHashMap::<&str, usize>::default();
+    for name in native_names {
+        *gen_fnames.entry(name.as_str()).or_insert(0) += 1;
     }
 
     let dummy_ty = parse_type! { () };
@@ -584,14 +586,18 @@ May be you need to use `private constructor = empty;` syntax?",
 
     let mut have_constructor = false;
 
-    for (method, f_method) in class.methods.iter().zip(f_methods_sign.iter()) {
-        let java_method_name = method_name(method, f_method);
-        let method_overloading = gen_fnames[&java_method_name] > 1;
+    for ((method, f_method), java_method_name) in class
+        .methods
+        .iter()
+        .zip(f_methods_sign.iter())
+        .zip(native_names)
+    {
+        let method_overloading = gen_fnames[java_method_name.as_str()] > 1;
         let jni_func_name = rust_code::generate_jni_func_name(
             ctx,
             &class.name.to_string(),
             (class.src_id, class.span()),
-            &java_method_name,
+            java_method_name,
             method.variant,
             f_method,
             method_overloading,
@@ -741,6 +747,39 @@ pub extern "C" fn {jni_destructor_name}(env: *mut JNIEnv, _: jclass, this: jlong
     Ok(())
 }
 
+/// Overloaded methods may differ only in types that native methods
+/// receive in the same form (e.g. classes as `long`), so their native methods
+/// need different names
+fn native_method_names(
+    class: &ForeignClassInfo,
+    f_methods_sign: &[JniForeignMethodSignature],
+) -> Vec<String> {
+    let mut used = FxHashSet::<(String, Vec<&str>)>::default();
+    let mut ret = Vec::with_capacity(f_methods_sign.len());
+    for (method, f_method) in class.methods.iter().zip(f_methods_sign) {
+        let mut args = Vec::with_capacity(f_method.input.len() + 1);
+        if let MethodVariant::Method(_) = method.variant {
+            args.push("long");
+        }
+        args.extend(f_method.input.iter().map(|arg| {
+            let type_name = arg
+                .java_converter
+                .as_ref()
+                .map_or(&arg.as_ref().name, |x| &x.java_transition_type);
+            type_name.display()
+        }));
+        let base_name = method_name(method, f_method);
+        let mut name = base_name.clone();
+        let mut n = 1;
+        while !used.insert((name.clone(), args.clone())) {
+            n += 1;
+            name = format!("{}_{}", base_name, n);
+        }
+        ret.push(name);
+    }
+    ret
+}
+
 fn find_suitable_foreign_types_for_methods(
     ctx: &mut JavaContext,
     class: &ForeignClassInfo,
-- 
2.43.0


From 834e4a12e799424261ffc487be2e035a4a4717dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 16/38] fix: Java: JNI signatures of Optional* of a custom
 optional package

---
 macroslib/src/java_jni/mod.rs       |  4 +++-
 macroslib/src/java_jni/rust_code.rs | 21 ++++++++-------------
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index 3445aea..75ab978 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -195,7 +195,9 @@ impl LanguageGenerator for JavaConfig {
             pointer_target_width,
             rust_code: &mut ret,
             generated_foreign_files: &mut generated_foreign_files,
-            java_type_to_jni_sig_map: rust_code::predefined_java_type_to_jni_sig(),
+            java_type_to_jni_sig_map: rust_code::predefined_java_type_to_jni_sig(
+                &self.optional_package,
+            ),
             class_ext_handlers: ext_handlers.class_ext_handlers,
             method_ext_handlers: ext_handlers.method_ext_handlers,
         };
diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index de7fa27..e1ed930 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -16,7 +16,9 @@ use crate::{
     WRITE_TO_MEM_FAILED_MSG,
 };
 
-pub(in crate::java_jni) fn predefined_java_type_to_jni_sig() -> FxHashMap<SmolStr, SmolStr> {
+pub(in crate::java_jni) fn predefined_java_type_to_jni_sig(
+    optional_package: &str,
+) -> FxHashMap<SmolStr, SmolStr> {
     let mut m = FxHashMap::default();
     m.insert("String".into(), "Ljava.lang.String;".into());
     m.insert("Byte".into(), "Ljava.lang.Byte;".into());
@@ -26,18 +28,11 @@ pub(in crate::java_jni) fn predefined_java_type_to_jni_sig() -> FxHashMap<SmolSt
     m.insert("Float".into(), "Ljava.lang.Float;".into());
     m.insert("Double".into(), "Ljava.lang.Double;".into());
     m.insert("java.lang.String []".into(), "[Ljava.lang.String;".into());
-    m.insert(
-        "java.util.OptionalInt".into(),
-        "Ljava.util.OptionalInt;".into(),
-    );
-    m.insert(
-        "java.util.OptionalLong".into(),
-        "Ljava.util.OptionalLong;".into(),
-    );
-    m.insert(
-        "java.util.OptionalDouble".into(),
-        "Ljava.util.OptionalDouble;".into(),
-    );
+    for name in &["OptionalInt", "OptionalLong", "OptionalDouble"] {
+        let full_name = format!("{}.{}", optional_package, name);
+        let jni_sig = format!("L{};", full_name);
+        m.insert(full_name.into(), jni_sig.into());
+    }
     m.insert("boolean".into(), "Z".into());
     m.insert("byte".into(), "B".into());
     m.insert("char".into(), "C".into());
-- 
2.43.0


From 54455e181ab31a1de74a4e89cc870fc4135b1ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 17/38] fix: Python: by value argument of class stored in Arc:
 clone the object, not the Arc

---
 macroslib/src/python/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 56eced2..183c901 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -1152,7 +1152,7 @@ fn generate_deref_for_arc(
     match arg_smart_pointer {
         PointerType::None => match arg_reference {
             Reference::Ref => Ok(quote!{(&*#rust_instance_code)}),
-            Reference::None => append_clone_if_supported(class, quote!{*#rust_instance_code}, method_span),
+            Reference::None => append_clone_if_supported(class, quote!{**#rust_instance_code}, method_span),
             Reference::MutRef => Err(DiagnosticError::new(
                 src_id,
                 method_span,
-- 
2.43.0


From 76d5da7a65565f73ab793dc909123b6017fa2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 18/38] fix: Python: method returning &str gave code that does
 not compile

---
 macroslib/src/python/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 183c901..35f70fb 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -563,6 +563,9 @@ fn generate_conversion_for_return(
                 {#rust_call; py.None()}
             },
         ))
+    } else if rust_type.normalized_name == "& str" {
+        // generated method can not return reference
+        Ok((parse_type!(String), quote! { (#rust_call).to_owned() }))
     } else if is_cpython_supported_type(rust_type) {
         Ok((rust_type.ty.clone(), rust_call))
     } else if let Some((ty, conversion)) = if_exported_class_generate_return_conversion(
-- 
2.43.0


From 2a5c65598232a1993387c8c1201f0432233cfcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 19/38] fix: Python: inline methods were called by name, but
 never defined

---
 macroslib/src/python/mod.rs | 43 ++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 35f70fb..bd5af9e 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -9,7 +9,7 @@ use crate::{
         TypeConvCode,
     },
     types::{
-        ForeignClassInfo, ForeignEnumInfo, ForeignInterface, ForeignMethod, ItemToExpand,
+        FnArg, ForeignClassInfo, ForeignEnumInfo, ForeignInterface, ForeignMethod, ItemToExpand,
         MethodVariant, SelfTypeVariant,
     },
     DiagnosticError, LanguageGenerator, PythonConfig, SourceCode, TypeMap,
@@ -292,7 +292,11 @@ fn generate_method_code(
         return Ok(TokenStream::new());
     }
     let method_name = method_name(method, class.src_id)?;
-    let method_rust_path = &method.rust_id;
+    let rust_func = if method.inline_block.is_some() {
+        quote! { swig_inline_fn }
+    } else {
+        method.rust_id.to_token_stream()
+    };
     let skip_args_count = if let MethodVariant::Method(_) = method.variant {
         1
     } else {
@@ -349,7 +353,7 @@ fn generate_method_code(
         class.src_id,
         conv_map,
         quote! {
-            #method_rust_path(#( #args_conversions ),*)
+            #rust_func(#( #args_conversions ),*)
         },
     )?;
     let docstring = if !method_name.to_string().starts_with("__") {
@@ -361,17 +365,50 @@ fn generate_method_code(
         // Python API doesn't support defining docstrings on the special methods (slots)
         quote! {}
     };
+    let inline_fn = generate_inline_fn(class, method)?;
     Ok(quote! {
         #docstring #attribute def #method_name(
             #( #args_list_tokens ),*
         ) -> cpython::PyResult<#return_type> {
             #[allow(unused)]
             use super::*;
+            #inline_fn
             Ok(#rust_call_with_return_conversion)
         }
     })
 }
 
+/// Local function with body of "inline" method, if method is "inline".
+fn generate_inline_fn(class: &ForeignClassInfo, method: &ForeignMethod) -> Result<TokenStream> {
+    let block = match method.inline_block {
+        Some(ref block) => block,
+        None => return Ok(TokenStream::new()),
+    };
+    let output = &method.fn_decl.output;
+    let mut args = Vec::with_capacity(method.fn_decl.inputs.len());
+    for arg in &method.fn_decl.inputs {
+        match arg {
+            FnArg::Default(named_arg) => {
+                let arg_name: Ident = parse(&named_arg.name, class.src_id)?;
+                let arg_ty = &named_arg.ty;
+                args.push(quote! { #arg_name: #arg_ty });
+            }
+            FnArg::SelfArg(_, self_variant) => {
+                let self_type = class.self_desc.as_ref().map(|x| &x.self_type);
+                args.push(match self_variant {
+                    SelfTypeVariant::Rptr => quote! { this: &#self_type },
+                    SelfTypeVariant::RptrMut => quote! { this: &mut #self_type },
+                    SelfTypeVariant::Mut => quote! { mut this: #self_type },
+                    SelfTypeVariant::Default => quote! { this: #self_type },
+                });
+            }
+        }
+    }
+    Ok(quote! {
+        fn swig_inline_fn(#( #args ),*) #output #block
+    })
+}
+
 fn standard_method_name(method: &ForeignMethod, src_id: SourceId) -> Result<syn::Ident> {
     Ok(method
         .name_alias
-- 
2.43.0


From b8e91e166d8447c1cc4e85e5ab6567cdad392b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 20/38] fix: Python: reject references inside Option and Vec
 arguments, the generated code did not compile

---
 macroslib/src/python/mod.rs | 44 ++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index bd5af9e..9b53462 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -508,8 +508,12 @@ fn generate_conversion_for_argument(
             },
         ))
     } else if let Some(inner) = ast::if_option_return_some_type(rust_type) {
+        let inner = conv_map.find_or_alloc_rust_type(&inner, src_id);
+        if inner.normalized_name != "& str" {
+            forbid_reference_inside(rust_type, &inner.ty, method_span, src_id)?;
+        }
         let (inner_py_type, inner_conversion) = generate_conversion_for_argument(
-            &conv_map.find_or_alloc_rust_type(&inner, src_id),
+            &inner,
             method_span,
             src_id,
             conv_map,
@@ -526,8 +530,10 @@ fn generate_conversion_for_argument(
             },
         ))
     } else if let Some(inner) = if_type_slice_return_elem_type(&rust_type.ty, false) {
+        let inner = conv_map.find_or_alloc_rust_type(inner, src_id);
+        forbid_reference_inside(rust_type, &inner.ty, method_span, src_id)?;
         let (inner_py_type, inner_conversion) = generate_conversion_for_argument(
-            &conv_map.find_or_alloc_rust_type(inner, src_id),
+            &inner,
             method_span,
             src_id,
             conv_map,
@@ -541,8 +547,10 @@ fn generate_conversion_for_argument(
             },
         ))
     } else if let Some(inner) = if_vec_return_elem_type(rust_type) {
+        let inner = conv_map.find_or_alloc_rust_type(&inner, src_id);
+        forbid_reference_inside(rust_type, &inner.ty, method_span, src_id)?;
         let (inner_py_type, inner_conversion) = generate_conversion_for_argument(
-            &conv_map.find_or_alloc_rust_type(&inner, src_id),
+            &inner,
             method_span,
             src_id,
             conv_map,
@@ -586,6 +594,36 @@ fn generate_conversion_for_argument(
     }
 }
 
+/// Python objects inside `Option` and sequence are owned by generated code,
+/// so there is nothing to reference to.
+fn forbid_reference_inside(
+    rust_type: &RustType,
+    inner: &Type,
+    method_span: Span,
+    src_id: SourceId,
+) -> Result<()> {
+    // `Option<&str>` is the only supported type with reference inside, but not as element
+    let has_reference = match inner {
+        Type::Reference(_) => true,
+        _ => {
+            ast::if_option_return_some_type(rust_type).is_none()
+                && inner.to_token_stream().to_string().contains('&')
+        }
+    };
+    if has_reference {
+        Err(DiagnosticError::new(
+            src_id,
+            method_span,
+            format!(
+                "Unsupported argument type: {}, reference inside of it",
+                rust_type
+            ),
+        ))
+    } else {
+        Ok(())
+    }
+}
+
 fn generate_conversion_for_return(
     rust_type: &RustType,
     method_span: Span,
-- 
2.43.0


From 27a37f052c570b831fb6c93599ded35592de6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 21/38] fix: Python: reject argument name 'py', the generated
 code did not compile

---
 macroslib/src/python/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 9b53462..608a7a3 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -311,6 +311,13 @@ fn generate_method_code(
             let named_arg = a
                 .as_named_arg()
                 .map_err(|err| DiagnosticError::from_syn_err(class.src_id, err))?;
+            if named_arg.name == "py" {
+                return Err(DiagnosticError::new(
+                    class.src_id,
+                    method.span(),
+                    "Invalid argument name 'py' reserved for generate code purposes",
+                ));
+            }
             let (arg_type, arg_conversion) = generate_conversion_for_argument(
                 &conv_map.find_or_alloc_rust_type(&named_arg.ty, class.src_id),
                 method.span(),
-- 
2.43.0


From d4c114d4ec9b53b86158f595e2a5f63f5ad77502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 22/38] fix: doc comment of several lines ends up as code in
 the generated files

---
 macroslib/src/code_parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/code_parse.rs b/macroslib/src/code_parse.rs
index 2ed59c2..75a28ee 100644
--- a/macroslib/src/code_parse.rs
+++ b/macroslib/src/code_parse.rs
@@ -152,7 +152,8 @@ fn parse_attrs(input: ParseStream, flags: ParseAttrsFlags) -> syn::Result<Attrs>
                         }),
                     ..
                 }) if path.is_ident("doc") => {
-                    doc_comments.push(lit_str.value());
+                    // `/** */` and `#[doc]` may contain several lines
+                    doc_comments.extend(lit_str.value().split('\n').map(str::to_owned));
                 }
                 syn::Meta::List(syn::MetaList {
                     ref path,
-- 
2.43.0


From 4c41e24a17c2f169a634b2287e236f89a65c357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 23/38] fix: C++: doc comment with backslash at the end
 swallows the next line

---
 macroslib/src/cpp/cpp_code.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/cpp/cpp_code.rs b/macroslib/src/cpp/cpp_code.rs
index fdbdbf2..7efdb9d 100644
--- a/macroslib/src/cpp/cpp_code.rs
+++ b/macroslib/src/cpp/cpp_code.rs
@@ -33,7 +33,12 @@ pub(in crate::cpp) fn doc_comments_to_c_comments(
         if !class_comments {
             comments.push_str("    ");
         }
-        write!(&mut comments, "//{}", comment.trim()).unwrap();
+        let comment = comment.trim();
+        write!(&mut comments, "//{comment}").unwrap();
+        if comment.ends_with('\\') || comment.ends_with("??/") {
+            // do not let the comment continue on the next line
+            comments.push_str(" .");
+        }
     }
     comments
 }
-- 
2.43.0


From 4468ac16cbba3b337d5d0ae24186629ed8943caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 24/38] fix: Java: doc comment can end Java comment or contain
 invalid unicode escape

---
 macroslib/src/java_jni/java_code.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/java_code.rs b/macroslib/src/java_jni/java_code.rs
index aa028c3..3e0e78b 100644
--- a/macroslib/src/java_jni/java_code.rs
+++ b/macroslib/src/java_jni/java_code.rs
@@ -81,7 +81,12 @@ pub(in crate::java_jni) fn doc_comments_to_java_comments(
             }
         }
 
-        write!(&mut comments, " * {}", comment.trim()).unwrap();
+        // text that would end the comment or start an unicode escape
+        let comment = comment
+            .trim()
+            .replace("*/", "*&#47;")
+            .replace("\\u", "&#92;u");
+        write!(&mut comments, " * {comment}").unwrap();
 
         if i == doc_comments.len() - 1 {
             comments.push('\n');
-- 
2.43.0


From 0bb1a7a68492cdf659f0b69d1414ce4a6c1d21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:21 +0000
Subject: [PATCH 25/38] fix: Java: callbacks for attributes of enums are never
 called

---
 macroslib/src/java_jni/fenum.rs | 16 +++++++++-------
 macroslib/src/java_jni/mod.rs   |  4 +++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/macroslib/src/java_jni/fenum.rs b/macroslib/src/java_jni/fenum.rs
index 9a2d00b..c35f45e 100644
--- a/macroslib/src/java_jni/fenum.rs
+++ b/macroslib/src/java_jni/fenum.rs
@@ -10,6 +10,7 @@ use super::{
 };
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
+    extension::extend_foreign_enum,
     file_cache::FileWriteCache,
     typemap::{
         ast::{parse_ty_with_given_span, ForeignTypeName},
@@ -43,8 +44,7 @@ pub(in crate::java_jni) fn generate_enum(
         fenum.src_id,
     );
 
-    generate_java_code_for_enum(ctx, fenum)
-        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), err))?;
+    generate_java_code_for_enum(ctx, fenum)?;
     generate_rust_code_for_enum(ctx, fenum)?;
 
     let jint_rty = ctx.conv_map.ty_to_rust_type(&parse_type! { jint });
@@ -96,10 +96,7 @@ pub(in crate::java_jni) fn generate_enum(
     Ok(())
 }
 
-fn generate_java_code_for_enum(
-    ctx: &mut JavaContext,
-    fenum: &ForeignEnumInfo,
-) -> std::result::Result<(), String> {
+fn generate_java_code_for_enum(ctx: &mut JavaContext, fenum: &ForeignEnumInfo) -> Result<()> {
     let path = ctx.cfg.output_dir.join(format!("{}.java", fenum.name));
     let mut file = FileWriteCache::new(&path, ctx.generated_foreign_files);
     let enum_doc_comments = doc_comments_to_java_comments(&fenum.doc_comments, true);
@@ -171,7 +168,12 @@ public enum {enum_name} {{"#,
     )
     .expect(WRITE_TO_MEM_FAILED_MSG);
 
-    file.update_file_if_necessary().map_err(map_write_err)?;
+    let mut cnt = file.take_content();
+    extend_foreign_enum(fenum, &mut cnt, ctx.enum_ext_handlers)?;
+    file.replace_content(cnt);
+
+    file.update_file_if_necessary()
+        .map_err(|err| DiagnosticError::new(fenum.src_id, fenum.span(), map_write_err(err)))?;
     Ok(())
 }
 
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index 75ab978..6cc2375 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -17,7 +17,7 @@ use syn::{spanned::Spanned, Type};
 
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
-    extension::{ClassExtHandlers, ExtHandlers, MethodExtHandlers},
+    extension::{ClassExtHandlers, EnumExtHandlers, ExtHandlers, MethodExtHandlers},
     file_cache::FileWriteCache,
     typemap::{
         ast::{
@@ -50,6 +50,7 @@ struct JavaContext<'a> {
     java_type_to_jni_sig_map: FxHashMap<SmolStr, SmolStr>,
     class_ext_handlers: &'a ClassExtHandlers,
     method_ext_handlers: &'a MethodExtHandlers,
+    enum_ext_handlers: &'a EnumExtHandlers,
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -200,6 +201,7 @@ impl LanguageGenerator for JavaConfig {
             ),
             class_ext_handlers: ext_handlers.class_ext_handlers,
             method_ext_handlers: ext_handlers.method_ext_handlers,
+            enum_ext_handlers: ext_handlers.enum_ext_handlers,
         };
         init(&mut ctx, code)?;
         for item in &items {
-- 
2.43.0


From 5dbc7232485dfdecd5194a2fe971119dcd8c7037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 26/38] fix: 'self' and 'mut self' receivers are reported with
 their place, not by a panic

---
 macroslib/src/cpp/fclass.rs      |  3 ++-
 macroslib/src/java_jni/fclass.rs |  3 ++-
 macroslib/src/typemap/utils.rs   | 23 +++++++++++++----------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index e7bcea8..c8f3cc6 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -876,7 +876,8 @@ fn generate_method(
         self_variant,
         class,
         &this_type_for_method.ty,
-    );
+        (class.src_id, mc.method.span()),
+    )?;
 
     let from_ty = conv_map.find_or_alloc_rust_type(&from_ty, class.src_id);
     let to_ty = conv_map.find_or_alloc_rust_type(&to_ty, class.src_id);
diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index f031032..cc56f6d 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -1010,7 +1010,8 @@ fn generate_method(
         self_variant,
         mc.class,
         &this_type_for_method.ty,
-    );
+        (mc.class.src_id, mc.method.span()),
+    )?;
     let from_ty = ctx
         .conv_map
         .find_or_alloc_rust_type(&from_ty, mc.class.src_id);
diff --git a/macroslib/src/typemap/utils.rs b/macroslib/src/typemap/utils.rs
index a724a5e..048de38 100644
--- a/macroslib/src/typemap/utils.rs
+++ b/macroslib/src/typemap/utils.rs
@@ -8,7 +8,7 @@ use std::{
 use syn::{spanned::Spanned, Ident, Type};
 
 use crate::{
-    error::{panic_on_syn_error, DiagnosticError, Result},
+    error::{panic_on_syn_error, DiagnosticError, Result, SourceIdSpan},
     file_cache::FileOperationsRegistrator,
     source_registry::SourceId,
     typemap::{
@@ -113,20 +113,23 @@ pub(crate) fn create_suitable_types_for_constructor_and_self(
     self_variant: SelfTypeVariant,
     class: &ForeignClassInfo,
     constructor_real_type: &Type,
-) -> (Type, Type) {
+    method_span: SourceIdSpan,
+) -> Result<(Type, Type)> {
     match self_variant {
-        SelfTypeVariant::Default => {
-            unimplemented!("self not supported, use &self or &mut self");
-        }
-        SelfTypeVariant::Mut => {
-            unimplemented!("'mut self' not supported, use &self or &mut self");
-        }
+        SelfTypeVariant::Default => Err(DiagnosticError::new2(
+            method_span,
+            "self not supported, use &self or &mut self",
+        )),
+        SelfTypeVariant::Mut => Err(DiagnosticError::new2(
+            method_span,
+            "'mut self' not supported, use &self or &mut self",
+        )),
         SelfTypeVariant::Rptr | SelfTypeVariant::RptrMut => {
             let c_sp = constructor_real_type.span();
             let self_type = class.self_type_as_ty();
             let s_sp = self_type.span();
 
-            if self_variant == SelfTypeVariant::Rptr {
+            Ok(if self_variant == SelfTypeVariant::Rptr {
                 (
                     parse_type_spanned_checked!(c_sp, & #constructor_real_type),
                     parse_type_spanned_checked!(s_sp, & #self_type),
@@ -136,7 +139,7 @@ pub(crate) fn create_suitable_types_for_constructor_and_self(
                     parse_type_spanned_checked!(c_sp, &mut #constructor_real_type),
                     parse_type_spanned_checked!(s_sp, &mut #self_type),
                 )
-            }
+            })
         }
     }
 }
-- 
2.43.0


From 16b31c88f9e5c25acd8007f22ce40e2f7a9efff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 27/38] fix: Java: unsupported return type of callback is
 reported at its place

---
 macroslib/src/java_jni/finterface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/macroslib/src/java_jni/finterface.rs b/macroslib/src/java_jni/finterface.rs
index 30d67ef..0dfeee2 100644
--- a/macroslib/src/java_jni/finterface.rs
+++ b/macroslib/src/java_jni/finterface.rs
@@ -326,7 +326,7 @@ impl SwigFrom<jobject> for Box<dyn {trait_name}> {{
                     "jfloat" => quote!{ CallFloatMethod },
                     "jdouble" => quote!{ CallDoubleMethod },
                     "jobject" => quote!{ CallObjectMethod },
-                    _ => return Err(DiagnosticError::new2(jni_ret_type.src_id_span(),
+                    _ => return Err(DiagnosticError::new2((interface.src_id, ret_ty.span()),
                                                           format!("Have not idea how to handle this type `{}` as return of callback function", jni_ret_type))),
                 };
                 let jni_ret_type = &jni_ret_type.ty;
-- 
2.43.0


From 0e6cc495290585004e8102df92f1db490a84f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 28/38] fix: Python: foreign_callback! is reported with its
 place, not by a panic

---
 macroslib/src/python/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/macroslib/src/python/mod.rs b/macroslib/src/python/mod.rs
index 608a7a3..8ebca1f 100644
--- a/macroslib/src/python/mod.rs
+++ b/macroslib/src/python/mod.rs
@@ -202,9 +202,13 @@ impl PythonConfig {
     fn generate_interface(
         &self,
         _conv_map: &mut TypeMap,
-        _interface: &ForeignInterface,
+        interface: &ForeignInterface,
     ) -> Result<(TokenStream, TokenStream)> {
-        unimplemented!("Interfaces are currently unsupported for Python.")
+        Err(DiagnosticError::new(
+            interface.src_id,
+            interface.span(),
+            "Interfaces are currently unsupported for Python.",
+        ))
     }
 
     fn generate_module_initialization(
-- 
2.43.0


From 55e9ead83446a0d277424762df124d25e0a00ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 29/38] fix: class type without valid reference is reported
 with its place, not by a panic

---
 macroslib/src/types.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/macroslib/src/types.rs b/macroslib/src/types.rs
index 419d0bc..c773be3 100644
--- a/macroslib/src/types.rs
+++ b/macroslib/src/types.rs
@@ -44,6 +44,22 @@ impl ForeignClassInfo {
     }
     /// common for several language binding generator code
     pub(crate) fn validate_class(&self) -> Result<()> {
+        if let Some(self_desc) = self.self_desc.as_ref() {
+            for ty in &[&self_desc.constructor_ret_type, &self_desc.self_type] {
+                syn::parse2::<Type>(quote! { & #ty }).map_err(|err| {
+                    DiagnosticError::new(
+                        self.src_id,
+                        ty.span(),
+                        format!(
+                            "class {}: can not make reference to type '{}': {}",
+                            self.name,
+                            DisplayToTokens(ty),
+                            err
+                        ),
+                    )
+                })?;
+            }
+        }
         let mut has_constructor = false;
         let mut has_methods = false;
         let mut has_static_methods = false;
-- 
2.43.0


From 3a532c4177c46fa704a6b82fce33f3f5a24f5a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 30/38] fix: traits of class or enum are kept, if its type is
 already mentioned by a typemap

---
 macroslib/src/typemap.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/macroslib/src/typemap.rs b/macroslib/src/typemap.rs
index ec200cc..e9bd064 100644
--- a/macroslib/src/typemap.rs
+++ b/macroslib/src/typemap.rs
@@ -983,6 +983,11 @@ impl TypeMap {
             }
             ty
         });
+        // the type may be known already, for example because of a user's typemap
+        let rust_ty = Rc::make_mut(&mut self.conv_graph[idx]);
+        for tn in traits_name {
+            rust_ty.implements.insert((*tn).into());
+        }
         self.conv_graph[idx].clone()
     }
 
-- 
2.43.0


From 502be096070816bd255dad3cac049097777a7ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 31/38] fix: variable of typemap is not replaced inside of
 longer name

---
 macroslib/src/str_replace.rs                 | 18 ++++++++++++++----
 macroslib/src/typemap.rs                     |  7 ++++++-
 macroslib/src/typemap/typemap_macro/parse.rs | 12 ++++--------
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/macroslib/src/str_replace.rs b/macroslib/src/str_replace.rs
index f333932..a9417aa 100644
--- a/macroslib/src/str_replace.rs
+++ b/macroslib/src/str_replace.rs
@@ -1,17 +1,27 @@
+/// Replaces variable `from`, but not variables whose names only start with `from`
 pub(crate) fn replace_first_and_other(src: &str, from: &str, first: &str, other: &str) -> String {
-    let mut result = String::new();
+    let mut result = String::with_capacity(src.len());
     let mut last_end = 0;
     let mut matched = false;
     for (start, part) in src.match_indices(from) {
-        result.push_str(unsafe { src.get_unchecked(last_end..start) });
+        let end = start + part.len();
+        if src[end..].starts_with(|c: char| c == '_' || c.is_alphanumeric()) {
+            continue;
+        }
+        result.push_str(&src[last_end..start]);
         if matched {
             result.push_str(other);
         } else {
             result.push_str(first);
             matched = true;
         }
-        last_end = start + part.len();
+        last_end = end;
     }
-    result.push_str(unsafe { src.get_unchecked(last_end..src.len()) });
+    result.push_str(&src[last_end..]);
     result
 }
+
+/// Replaces variable `var`, but not variables whose names only start with `var`
+pub(crate) fn replace_var(src: &str, var: &str, to: &str) -> String {
+    replace_first_and_other(src, var, to, to)
+}
diff --git a/macroslib/src/typemap.rs b/macroslib/src/typemap.rs
index e9bd064..27117c0 100644
--- a/macroslib/src/typemap.rs
+++ b/macroslib/src/typemap.rs
@@ -21,6 +21,7 @@ use syn::{parse_quote, Ident, Type};
 use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result, SourceIdSpan},
     source_registry::SourceId,
+    str_replace::replace_var,
     typemap::{
         ast::{
             get_trait_bounds, normalize_type, DisplayToTokens, ForeignTypeName, GenericTypeConv,
@@ -178,7 +179,11 @@ impl TypeConvCode {
         }
         let mut ret = self.code.clone();
         for (id, val) in self.params.iter().zip(subst.iter()) {
-            ret = ret.replace(id.as_str(), val.as_ref());
+            ret = if id.starts_with('$') {
+                replace_var(&ret, id, val)
+            } else {
+                ret.replace(id.as_str(), val.as_ref())
+            };
         }
         Ok(ret)
     }
diff --git a/macroslib/src/typemap/typemap_macro/parse.rs b/macroslib/src/typemap/typemap_macro/parse.rs
index 87de6bd..f4eafd5 100644
--- a/macroslib/src/typemap/typemap_macro/parse.rs
+++ b/macroslib/src/typemap/typemap_macro/parse.rs
@@ -12,7 +12,7 @@ use super::{
 };
 use crate::{
     source_registry::SourceId,
-    str_replace::replace_first_and_other,
+    str_replace::{replace_first_and_other, replace_var},
     typemap::{
         ast::{DisplayToTokens, SpannedSmolStr},
         TypeConvCode, FROM_VAR_TEMPLATE, TO_VAR_TEMPLATE, TO_VAR_TYPE_TEMPLATE,
@@ -258,14 +258,13 @@ fn parse_r_type_rule(
         }
         Some(if code_str.contains(&out_var_no_type) {
             TypeConvCode::new2(
-                code_str
-                    .replace(&d_var_name, FROM_VAR_TEMPLATE)
+                replace_var(&code_str, &d_var_name, FROM_VAR_TEMPLATE)
                     .replace(&out_var_no_type, &format!("let mut {}", TO_VAR_TEMPLATE)),
                 (SourceId::none(), conv_body.span()),
             )
         } else {
             TypeConvCode::new2(
-                code_str.replace(&d_var_name, FROM_VAR_TEMPLATE).replace(
+                replace_var(&code_str, &d_var_name, FROM_VAR_TEMPLATE).replace(
                     &out_var,
                     &format!("let mut {}: {}", TO_VAR_TEMPLATE, TO_VAR_TYPE_TEMPLATE),
                 ),
@@ -693,10 +692,7 @@ fn parse_f_type_rule(
         })?;
         let var_name = format!("${}", var_name);
         let code = replace_first_and_other(
-            code_str
-                .value()
-                .replace(&var_name, FROM_VAR_TEMPLATE)
-                .as_str(),
+            replace_var(&code_str.value(), &var_name, FROM_VAR_TEMPLATE).as_str(),
             "$out",
             TO_VAR_TYPE_TEMPLATE,
             TO_VAR_TEMPLATE,
-- 
2.43.0


From 7c3ebe9094d6f3aaa589e4f11c140c9bc23f22b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 32/38] fix: C++: typemap with $out and temporaries in
 arguments and results of callbacks

---
 macroslib/src/cpp/cpp_code.rs   | 13 +++---
 macroslib/src/cpp/fclass.rs     |  8 +++-
 macroslib/src/cpp/finterface.rs | 75 ++++++++++++++++++++++++---------
 3 files changed, 68 insertions(+), 28 deletions(-)

diff --git a/macroslib/src/cpp/cpp_code.rs b/macroslib/src/cpp/cpp_code.rs
index 7efdb9d..953bf09 100644
--- a/macroslib/src/cpp/cpp_code.rs
+++ b/macroslib/src/cpp/cpp_code.rs
@@ -101,6 +101,7 @@ pub(in crate::cpp) fn convert_args<'a, NI: Iterator<Item = &'a str>>(
     f_method: &CppForeignMethodSignature,
     known_names: &mut FxHashSet<SmolStr>,
     arg_name_iter: NI,
+    direction: petgraph::Direction,
 ) -> Result<(String, String), DiagnosticError> {
     let mut conv_deps = String::new();
     let mut converted_args = String::new();
@@ -109,6 +110,10 @@ pub(in crate::cpp) fn convert_args<'a, NI: Iterator<Item = &'a str>>(
             converted_args.push_str(", ");
         }
         if let Some(conv) = f_type_info.cpp_converter.as_ref() {
+            let to_typename = match direction {
+                petgraph::Direction::Incoming => &f_type_info.as_ref().name,
+                petgraph::Direction::Outgoing => &conv.typename,
+            };
             let var_name = if conv.converter.has_param(TO_VAR_TYPE_TEMPLATE)
                 || conv.converter.has_param(TO_VAR_TEMPLATE)
             {
@@ -127,12 +132,8 @@ pub(in crate::cpp) fn convert_args<'a, NI: Iterator<Item = &'a str>>(
                                 Some(Cow::Borrowed(arg_name))
                             } else if name == TO_VAR_TYPE_TEMPLATE {
                                 Some(
-                                    format!(
-                                        "{} {}",
-                                        f_type_info.as_ref().name,
-                                        var_name.as_ref().unwrap()
-                                    )
-                                    .into(),
+                                    format!("{} {}", to_typename, var_name.as_ref().unwrap())
+                                        .into(),
                                 )
                             } else if name == TO_VAR_TEMPLATE {
                                 Some(Cow::Borrowed(var_name.as_ref().unwrap()))
diff --git a/macroslib/src/cpp/fclass.rs b/macroslib/src/cpp/fclass.rs
index c8f3cc6..37c4e36 100644
--- a/macroslib/src/cpp/fclass.rs
+++ b/macroslib/src/cpp/fclass.rs
@@ -238,8 +238,12 @@ May be you need to use `private constructor = empty;` syntax?",
         let cpp_args_with_types =
             cpp_code::cpp_generate_args_with_types(f_method, method.arg_names_without_self());
 
-        let (conv_args_code, cpp_args_for_c) =
-            cpp_code::convert_args(f_method, &mut known_names, method.arg_names_without_self())?;
+        let (conv_args_code, cpp_args_for_c) = cpp_code::convert_args(
+            f_method,
+            &mut known_names,
+            method.arg_names_without_self(),
+            Direction::Incoming,
+        )?;
 
         let real_output_typename: Cow<str> = match method.fn_decl.output {
             syn::ReturnType::Default => Cow::Borrowed("()"),
diff --git a/macroslib/src/cpp/finterface.rs b/macroslib/src/cpp/finterface.rs
index 3b39bdb..c5c0270 100644
--- a/macroslib/src/cpp/finterface.rs
+++ b/macroslib/src/cpp/finterface.rs
@@ -1,4 +1,4 @@
-use std::{io::Write, rc::Rc};
+use std::{borrow::Cow, io::Write, rc::Rc};
 
 use petgraph::Direction;
 use rustc_hash::FxHashSet;
@@ -17,7 +17,8 @@ use crate::{
         ast::{parse_ty_with_given_span, DisplayToTokens, ForeignTypeName},
         ty::{ForeignConversionIntermediate, ForeignConversionRule, ForeignTypeS, RustType},
         utils::rust_to_foreign_convert_method_inputs,
-        ForeignTypeInfo, TypeConvCode, FROM_VAR_TEMPLATE, TO_VAR_TEMPLATE, TO_VAR_TYPE_TEMPLATE,
+        ForeignTypeInfo, TypeConvCode, TypeConvCodeSubstParam, FROM_VAR_TEMPLATE, TO_VAR_TEMPLATE,
+        TO_VAR_TYPE_TEMPLATE,
     },
     types::ForeignInterface,
     WRITE_TO_MEM_FAILED_MSG,
@@ -367,6 +368,45 @@ fn find_suitable_ftypes_for_interace_methods(
     Ok(f_methods)
 }
 
+fn convert_callback_output(
+    output: &CppForeignTypeInfo,
+    known_names: &mut FxHashSet<SmolStr>,
+    ret_name: &str,
+) -> Result<(String, String)> {
+    let out_conv = match output.cpp_converter.as_ref() {
+        Some(x) => x,
+        None => return Ok((String::new(), ret_name.into())),
+    };
+    let conv_ret = new_unique_name(known_names, "conv_ret");
+    known_names.insert(conv_ret.clone());
+    let conv_code =
+        out_conv
+            .converter
+            .generate_code_with_subst_func(|param_name| match param_name {
+                TypeConvCodeSubstParam::Name(name) => {
+                    if name == FROM_VAR_TEMPLATE {
+                        Some(Cow::Borrowed(ret_name))
+                    } else if name == TO_VAR_TYPE_TEMPLATE {
+                        Some(format!("{} {}", output.as_ref().name, conv_ret).into())
+                    } else if name == TO_VAR_TEMPLATE {
+                        Some(Cow::Borrowed(&conv_ret))
+                    } else {
+                        None
+                    }
+                }
+                TypeConvCodeSubstParam::Tmp(name_template) => {
+                    let tmp_name = new_unique_name(known_names, name_template);
+                    known_names.insert(tmp_name.clone());
+                    Some(tmp_name.to_string().into())
+                }
+            })?;
+    if out_conv.converter.has_param(TO_VAR_TYPE_TEMPLATE) {
+        Ok((format!("{}\n", conv_code), conv_ret.to_string()))
+    } else {
+        Ok((String::new(), conv_code))
+    }
+}
+
 fn cpp_code_generate_interface(
     ctx: &mut CppContext,
     interface: &ForeignInterface,
@@ -420,16 +460,10 @@ struct C_{interface_name} {{
         let ret_name = new_unique_name(&known_names, "ret");
         known_names.insert(ret_name.clone());
 
-        let (cpp_ret_type, cpp_out_conv) =
-            if let Some(out_conv) = f_method.output.cpp_converter.as_ref() {
-                let conv_code = out_conv
-                    .converter
-                    .as_str()
-                    .replace(FROM_VAR_TEMPLATE, &ret_name);
-                (out_conv.typename.clone(), conv_code)
-            } else {
-                (c_ret_type.clone(), String::new())
-            };
+        let cpp_ret_type = match f_method.output.cpp_converter.as_ref() {
+            Some(out_conv) => &out_conv.typename,
+            None => c_ret_type,
+        };
         writeln!(
             file_c,
             r#"{doc_comments}
@@ -470,8 +504,14 @@ struct C_{interface_name} {{
         )
         .expect(WRITE_TO_MEM_FAILED_MSG);
 
-        let (conv_args_code, call_input_args) =
-            cpp_code::convert_args(f_method, &mut known_names, method.arg_names_without_self())?;
+        let (conv_args_code, call_input_args) = cpp_code::convert_args(
+            f_method,
+            &mut known_names,
+            method.arg_names_without_self(),
+            Direction::Outgoing,
+        )?;
+        let (out_conv_deps, cpp_out_conv) =
+            convert_callback_output(&f_method.output, &mut known_names, &ret_name)?;
 
         write!(
             &mut cpp_static_reroute_methods,
@@ -512,16 +552,11 @@ struct C_{interface_name} {{
                 &mut cpp_static_reroute_methods,
                 r#"
         auto {ret} = {p}->{method_name}({input_args});
-        return {cpp_out_conv};
+{out_conv_deps}        return {cpp_out_conv};
     }}"#,
                 ret = ret_name,
                 method_name = method.name,
                 input_args = call_input_args,
-                cpp_out_conv = if cpp_out_conv.is_empty() {
-                    ret_name.as_str()
-                } else {
-                    cpp_out_conv.as_str()
-                },
                 p = interface_ptr,
             )
             .expect(WRITE_TO_MEM_FAILED_MSG);
-- 
2.43.0


From 53aeadea1cb114fe46b8663a05cd767fa54cf440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 33/38] fix: C++: typemap that requires statements inside
 Option or pair is reported, not pasted as is

---
 macroslib/src/cpp/map_type.rs | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/macroslib/src/cpp/map_type.rs b/macroslib/src/cpp/map_type.rs
index 8a25329..6fa6e44 100644
--- a/macroslib/src/cpp/map_type.rs
+++ b/macroslib/src/cpp/map_type.rs
@@ -157,6 +157,28 @@ impl CppContextForArg<'_, '_> {
             )),
         }
     }
+
+    fn foreign_conv_expr(
+        &self,
+        f_info: CppForeignTypeInfo,
+        ty: &syn::Type,
+        var_name: &str,
+    ) -> Result<String> {
+        let converter = match f_info.cpp_converter {
+            Some(cpp_conv) => cpp_conv.converter,
+            None => return Ok(var_name.into()),
+        };
+        if converter.params().iter().any(|x| x != FROM_VAR_TEMPLATE) {
+            return Err(DiagnosticError::new2(
+                self.arg_ty_span,
+                format!(
+                    "conversion of type '{}' uses $out or temporaries, it can not be part of conversion of another type",
+                    DisplayToTokens(ty)
+                ),
+            ));
+        }
+        Ok(converter.as_str().replace(FROM_VAR_TEMPLATE, var_name))
+    }
 }
 
 impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
@@ -243,14 +265,7 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
             .conv_map
             .find_or_alloc_rust_type(ty, self.arg_ty_span.0);
         let f_info = map_type(self.ctx, &rust_ty, Direction::Incoming, self.arg_ty_span)?;
-        if let Some(cpp_conv) = f_info.cpp_converter {
-            Ok(cpp_conv
-                .converter
-                .as_str()
-                .replace(FROM_VAR_TEMPLATE, var_name))
-        } else {
-            Ok(var_name.into())
-        }
+        self.foreign_conv_expr(f_info, ty, var_name)
     }
     fn swig_foreign_from_i_type(&mut self, ty: &syn::Type, var_name: &str) -> Result<String> {
         let rust_ty = self
@@ -258,14 +273,7 @@ impl TypeMapConvRuleInfoExpanderHelper for CppContextForArg<'_, '_> {
             .conv_map
             .find_or_alloc_rust_type(ty, self.arg_ty_span.0);
         let f_info = map_type(self.ctx, &rust_ty, Direction::Outgoing, self.arg_ty_span)?;
-        if let Some(cpp_conv) = f_info.cpp_converter {
-            Ok(cpp_conv
-                .converter
-                .as_str()
-                .replace(FROM_VAR_TEMPLATE, var_name))
-        } else {
-            Ok(var_name.into())
-        }
+        self.foreign_conv_expr(f_info, ty, var_name)
     }
 }
 
-- 
2.43.0


From 0a5432efbc3c8f808e520c18ecc76d71646777d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 34/38] fix: non ASCII symbols in the code of typemap do not
 cause panic

---
 macroslib/src/typemap/typemap_macro.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/macroslib/src/typemap/typemap_macro.rs b/macroslib/src/typemap/typemap_macro.rs
index 3699e8b..345f160 100644
--- a/macroslib/src/typemap/typemap_macro.rs
+++ b/macroslib/src/typemap/typemap_macro.rs
@@ -687,19 +687,19 @@ where
 fn find_macro(code: &str) -> Option<(&str, Vec<&str>, usize)> {
     let id_end = code.find(|ch: char| !(ch.is_alphanumeric() || ch == '_'))?;
     let mut next_pos = id_end + (code[id_end..]).find(|ch: char| !ch.is_whitespace())?;
-    if &code[next_pos..=next_pos] != "!" {
+    if !code[next_pos..].starts_with('!') {
         return None;
     }
     next_pos += 1;
     next_pos = next_pos + (code[next_pos..]).find(|ch: char| !ch.is_whitespace())?;
-    if &code[next_pos..=next_pos] != "(" {
+    if !code[next_pos..].starts_with('(') {
         return None;
     }
     next_pos += 1;
     let cnt_start = next_pos;
     let mut bracket_counter: usize = 1;
     let mut close_bracket_pos = None;
-    for (idx, ch) in code[next_pos..].chars().enumerate() {
+    for (idx, ch) in code[next_pos..].char_indices() {
         if ch == ')' {
             bracket_counter -= 1;
             if bracket_counter == 0 {
-- 
2.43.0


From 5ab08903439cd027eef15beddb23e8907f6d0ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 35/38] fix: Java: options of typemap that are not supported
 are reported, not by a panic

---
 macroslib/src/java_jni/map_type.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/macroslib/src/java_jni/map_type.rs b/macroslib/src/java_jni/map_type.rs
index 3ec0c96..490f975 100644
--- a/macroslib/src/java_jni/map_type.rs
+++ b/macroslib/src/java_jni/map_type.rs
@@ -35,7 +35,13 @@ pub(in crate::java_jni) fn map_type(
     let ftype = &ctx.conv_map[fti];
     let origin_ftype_span = ftype.src_id_span();
     if !ftype.provided_by_module.is_empty() {
-        unimplemented!();
+        return Err(DiagnosticError::new2(
+            origin_ftype_span,
+            format!(
+                "'req_modules' of type {} not supported for Java",
+                ftype.name
+            ),
+        ));
     }
     let rule = match direction {
         petgraph::Direction::Outgoing => ftype.into_from_rust.as_ref(),
@@ -55,7 +61,13 @@ pub(in crate::java_jni) fn map_type(
     let mut java_converter = None;
     if let Some(intermediate) = rule.intermediate.as_ref() {
         if intermediate.input_to_output {
-            unimplemented!();
+            return Err(DiagnosticError::new2(
+                origin_ftype_span,
+                format!(
+                    "'input_to_output' of type {} not supported for Java",
+                    base_ft_name
+                ),
+            ));
         }
         base_rt = intermediate.intermediate_ty;
         let converter = intermediate.conv_code.to_string();
@@ -276,7 +288,10 @@ impl TypeMapConvRuleInfoExpanderHelper for JavaContextForArg<'_, '_> {
         _in_var_name: &str,
         _out_var_name: &str,
     ) -> Result<String> {
-        unimplemented!();
+        Err(DiagnosticError::new2(
+            self.arg_ty_span,
+            "'swig_from_i_type_to_rust' not supported for Java",
+        ))
     }
     fn swig_f_type(&mut self, ty: &syn::Type, param1: Option<&str>) -> Result<ExpandedFType> {
         let rust_ty = self
@@ -304,7 +319,10 @@ impl TypeMapConvRuleInfoExpanderHelper for JavaContextForArg<'_, '_> {
         })
     }
     fn swig_foreign_to_i_type(&mut self, _ty: &syn::Type, _var_name: &str) -> Result<String> {
-        unimplemented!();
+        Err(DiagnosticError::new2(
+            self.arg_ty_span,
+            "'swig_foreign_to_i_type' not supported for Java",
+        ))
     }
     fn swig_foreign_from_i_type(&mut self, ty: &syn::Type, var_name: &str) -> Result<String> {
         let rust_ty = self
-- 
2.43.0


From 7b219030c714f276d17d6cfffdb73c022041fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 36/38] fix: Java: temporary variables of typemap get unique
 names

---
 macroslib/src/java_jni/fclass.rs   | 27 ++++++++++++++++++++-------
 macroslib/src/java_jni/map_type.rs |  8 ++++++++
 macroslib/src/java_jni/mod.rs      | 17 +++++++++++++++++
 3 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/macroslib/src/java_jni/fclass.rs b/macroslib/src/java_jni/fclass.rs
index cc56f6d..27de26f 100644
--- a/macroslib/src/java_jni/fclass.rs
+++ b/macroslib/src/java_jni/fclass.rs
@@ -150,7 +150,7 @@ public final class {class_name} {{"#,
                 ctx.cfg,
                 f_method,
                 method.arg_names_without_self(),
-                known_names,
+                &mut known_names,
                 conv_code_flags,
             )?;
         let external_args_except_self = java_code::args_with_java_types(
@@ -163,7 +163,13 @@ public final class {class_name} {{"#,
         let (ret_type, intermediate_ret_type, ret_conv_code) = match method.variant {
             MethodVariant::StaticMethod => {
                 if let Some(conv) = f_method.output.java_converter.as_ref() {
-                    calc_output_conv(&f_method.output, conv, &ret_name, &conv_ret)
+                    calc_output_conv(
+                        &f_method.output,
+                        conv,
+                        &ret_name,
+                        &conv_ret,
+                        &mut known_names,
+                    )
                 } else {
                     let ret_type = f_method.output.base.name.display();
                     (ret_type, ret_type, String::new())
@@ -171,7 +177,13 @@ public final class {class_name} {{"#,
             }
             MethodVariant::Method(_) => {
                 if let Some(conv) = f_method.output.java_converter.as_ref() {
-                    calc_output_conv(&f_method.output, conv, &ret_name, &conv_ret)
+                    calc_output_conv(
+                        &f_method.output,
+                        conv,
+                        &ret_name,
+                        &conv_ret,
+                        &mut known_names,
+                    )
                 } else {
                     let ret_type = f_method.output.base.name.display();
                     (ret_type, ret_type, String::new())
@@ -1071,7 +1083,7 @@ fn convert_code_for_method<'a, NI: Iterator<Item = &'a str>>(
     cfg: &JavaConfig,
     f_method: &JniForeignMethodSignature,
     arg_name_iter: NI,
-    mut known_names: FxHashSet<SmolStr>,
+    known_names: &mut FxHashSet<SmolStr>,
     flags: java_code::ArgsFormatFlags,
 ) -> Result<(String, String, String)> {
     use std::fmt::Write;
@@ -1087,10 +1099,10 @@ fn convert_code_for_method<'a, NI: Iterator<Item = &'a str>>(
     for (i, (arg, arg_name)) in f_method.input.iter().zip(arg_name_iter).enumerate() {
         let after_conv_arg_name = if let Some(java_conv) = arg.java_converter.as_ref() {
             let templ = format!("a{}", i);
-            let after_conv_arg_name = new_unique_name(&known_names, &templ);
+            let after_conv_arg_name = new_unique_name(known_names, &templ);
             known_names.insert(after_conv_arg_name.clone());
             let java_code: String = java_conv
-                .converter
+                .code_with_unique_tmp_names(known_names)
                 .replace(
                     TO_VAR_TYPE_TEMPLATE,
                     &format!("{} {}", java_conv.java_transition_type, after_conv_arg_name),
@@ -1170,11 +1182,12 @@ fn calc_output_conv<'a>(
     conv: &'a JavaConverter,
     ret_name: &str,
     conv_ret: &str,
+    known_names: &mut FxHashSet<SmolStr>,
 ) -> (&'a str, &'a str, String) {
     let ret_type = output.base.name.display();
     let intermediate_ret_type = conv.java_transition_type.display();
     let conv_code = conv
-        .converter
+        .code_with_unique_tmp_names(known_names)
         .replace(FROM_VAR_TEMPLATE, ret_name)
         .replace(TO_VAR_TYPE_TEMPLATE, &format!("{} {}", ret_type, conv_ret))
         .replace(TO_VAR_TEMPLATE, conv_ret);
diff --git a/macroslib/src/java_jni/map_type.rs b/macroslib/src/java_jni/map_type.rs
index 490f975..902a66c 100644
--- a/macroslib/src/java_jni/map_type.rs
+++ b/macroslib/src/java_jni/map_type.rs
@@ -71,6 +71,13 @@ pub(in crate::java_jni) fn map_type(
         }
         base_rt = intermediate.intermediate_ty;
         let converter = intermediate.conv_code.to_string();
+        let tmp_names = intermediate
+            .conv_code
+            .params()
+            .iter()
+            .filter(|x| x.starts_with('$'))
+            .cloned()
+            .collect();
         let intermediate_ty = intermediate.intermediate_ty;
 
         let rty = ctx.conv_map[intermediate_ty].clone();
@@ -111,6 +118,7 @@ pub(in crate::java_jni) fn map_type(
         java_converter = Some(JavaConverter {
             java_transition_type: inter_ft.base.name,
             converter,
+            tmp_names,
             annotation,
         });
     } else {
diff --git a/macroslib/src/java_jni/mod.rs b/macroslib/src/java_jni/mod.rs
index 6cc2375..d9e8a3e 100644
--- a/macroslib/src/java_jni/mod.rs
+++ b/macroslib/src/java_jni/mod.rs
@@ -19,6 +19,8 @@ use crate::{
     error::{invalid_src_id_span, DiagnosticError, Result},
     extension::{ClassExtHandlers, EnumExtHandlers, ExtHandlers, MethodExtHandlers},
     file_cache::FileWriteCache,
+    namegen::new_unique_name,
+    str_replace::replace_var,
     typemap::{
         ast::{
             check_if_smart_pointer_return_inner_type, if_result_return_ok_err_types,
@@ -77,6 +79,21 @@ struct JavaConverter {
     java_transition_type: UniqueName,
     annotation: Option<NullAnnotation>,
     converter: String,
+    /// names of temporary variables inside `converter`
+    tmp_names: Vec<SmolStr>,
+}
+
+impl JavaConverter {
+    /// returns `converter` with unique names of temporary variables
+    fn code_with_unique_tmp_names(&self, known_names: &mut FxHashSet<SmolStr>) -> String {
+        let mut code = self.converter.clone();
+        for tmp in &self.tmp_names {
+            let name = new_unique_name(known_names, tmp.trim_start_matches('$'));
+            code = replace_var(&code, tmp, &name);
+            known_names.insert(name);
+        }
+        code
+    }
 }
 
 impl AsRef<ForeignTypeInfo> for JavaForeignTypeInfo {
-- 
2.43.0


From 0fab5b47d82cf0ed3a5e2a4bdcd6437e31bc425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:52 +0000
Subject: [PATCH 37/38] fix: types named like a generic parameter of a
 conversion rule (T, T1, E) were refused inside generic types

---
 macroslib/src/typemap/ast.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/macroslib/src/typemap/ast.rs b/macroslib/src/typemap/ast.rs
index a976d8e..1f74b16 100644
--- a/macroslib/src/typemap/ast.rs
+++ b/macroslib/src/typemap/ast.rs
@@ -809,22 +809,20 @@ fn types_equal_inside_path(
     subst_map: &mut TyParamsSubstMap,
 ) -> bool {
     let type_p1_name = normalize_type(type_p1);
-    let real_type_p1: Type = if let Some(subst) = subst_map.get_mut(&type_p1_name) {
+    if let Some(subst) = subst_map.get_mut(&type_p1_name) {
         match *subst {
-            Some(ref x) => (*x).clone(),
+            // it is known type, not pattern, so names of generic parameters
+            // inside of it are just names of types
+            Some(ref x) => x == type_p2,
             None => {
                 *subst = Some(type_p2.clone());
-                (*type_p2).clone()
+                true
             }
         }
     } else {
-        (*type_p1).clone()
-    };
-    trace!("is_second_subst_of_first_path_args: go deeper");
-    if !is_second_subst_of_first(&real_type_p1, type_p2, subst_map) {
-        return false;
+        trace!("is_second_subst_of_first_path_args: go deeper");
+        is_second_subst_of_first(type_p1, type_p2, subst_map)
     }
-    true
 }
 
 fn return_type_match(
-- 
2.43.0


From b9e5e4fca202063e85b90cfd5837035f3a546a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:52 +0000
Subject: [PATCH 38/38] fix: Java: non ASCII method names gave native functions
 the JVM does not find

---
 macroslib/src/java_jni/rust_code.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/macroslib/src/java_jni/rust_code.rs b/macroslib/src/java_jni/rust_code.rs
index e1ed930..55205bf 100644
--- a/macroslib/src/java_jni/rust_code.rs
+++ b/macroslib/src/java_jni/rust_code.rs
@@ -84,6 +84,11 @@ pub(in crate::java_jni) fn generate_jni_func_name(
                 '[' => output.push_str("_3"),
                 '_' => output.push_str("_1"),
                 ';' => output.push_str("_2"),
+                c if !c.is_ascii() => {
+                    for unit in c.encode_utf16(&mut [0; 2]) {
+                        output.push_str(&format!("_0{:04x}", unit));
+                    }
+                }
                 _ => output.push(c),
             }
         }
-- 
2.43.0

