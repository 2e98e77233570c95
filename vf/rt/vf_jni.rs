// Entry points of the Java drivers.
#[no_mangle]
pub extern "C" fn Java_drv_Vf_op(_: *mut JNIEnv, _: jclass, n: jlong) {
    vf::op(n)
}
#[no_mangle]
pub extern "C" fn Java_drv_Vf_purge(_: *mut JNIEnv, _: jclass) {
    vf::purge()
}
#[no_mangle]
pub extern "C" fn Java_drv_Vf_live(_: *mut JNIEnv, _: jclass) -> jlong {
    vf::live_count()
}
