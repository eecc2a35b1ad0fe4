// Snapshot of the removable-frame rules (lib/normalize_hash.gperf): the reference the library is compared with.
struct RuleRow { const char *fn; std::vector<const char *> files; };
inline const std::vector<RuleRow> &removable_rules()
{
    static const std::vector<RuleRow> v = {
        {"may_core_dump", {"os_unix.c"}},
        {"mch_exit", {"os_unix.c"}},
        {"os::abort", {"os_linux.cpp"}},
        {"VMError::report_and_die", {"vmError.cpp"}},
        {"JVM_handle_linux_signal", {"os_linux_x86.cpp"}},
        {"gerror_to_dbus_error_message", {"dbus-gobject.c"}},
        {"dbus_g_method_return_error", {"dbus-gobject.c"}},
        {"message_queue_dispatch", {"dbus-gmain.c"}},
        {"_dbus_abort", {"dbus-sysdeps.c", "libdbus"}},
        {"dbus_connection_dispatch", {"dbus-connection.c", "libdbus"}},
        {"gdk_x_error", {"gdkmain-x11.c"}},
        {"gdk_threads_dispatch", {"gdk.c"}},
        {"gdk_event_dispatch", {"gdkevents-x11.c", "gdkevents.c"}},
        {"gdk_event_source_dispatch", {"gdkeventsource.c"}},
        {"_gdk_x11_display_error_event", {"gdkdisplay-x11.c", "libgdk"}},
        {"g_log", {"gmessages.c", "libglib"}},
        {"g_logv", {"gmessages.c", "libglib"}},
        {"g_assertion_message", {"gtestutils.c", "libglib"}},
        {"g_assertion_message_expr", {"gtestutils.c", "libglib"}},
        {"g_closure_invoke", {"gclosure.c", "libgobject"}},
        {"g_free", {"gmem.c", "libglib"}},
        {"g_type_class_meta_marshal", {"gclosure.c", "libglib"}},
        {"g_signal_emit_valist", {"gsignal.c", "libgobject"}},
        {"signal_emit_unlocked_R", {"gsignal.c", "libgobject"}},
        {"g_signal_emit", {"gsignal.c", "libgobject"}},
        {"g_idle_dispatch", {"gmain.c", "gutf8.c"}},
        {"g_object_dispatch_properties_changed", {"gobject.c", "libgobject"}},
        {"g_object_notify_dispatcher", {"gobject.c", "libgobject"}},
        {"g_object_unref", {"gobject.c", "libgobject"}},
        {"g_object_run_dispose", {"gobject.c", "libgobject"}},
        {"g_object_new", {"gobject.c", "libgobject"}},
        {"g_object_newv", {"gobject.c", "libgobject"}},
        {"g_main_context_dispatch", {"gmain.c", "libglib"}},
        {"g_main_context_iterate", {"gmain.c", "libglib"}},
        {"g_main_dispatch", {"gmain.c", "libglib"}},
        {"g_main_loop_run", {"gmain.c", "libglib"}},
        {"g_timeout_dispatch", {"gmain.c", "libglib"}},
        {"g_thread_pool_thread_proxy", {"gthreadpool.c", "libglib"}},
        {"g_thread_create_proxy", {"gthread.c", "libglib"}},
        {"g_cclosure_marshal_VOID__BOXED", {"gmarshal.c", "libgobject"}},
        {"g_cclosure_marshal_VOID__VOID", {"gclosure.c", "gmarshal.c", "libgobject"}},
        {"g_object_notify", {"gobject.c", "libgobject"}},
        {"Glib::exception_handlers_invoke()", {"libglibmm"}},
        {"g_signal_handlers_destroy", {"gsignal.c", "libgobject"}},
        {"g_vasprintf", {"gprintf.c", "libglib"}},
        {"g_strdup_vprintf", {"libglib"}},
        {"g_strdup_printf", {"libglib"}},
        {"g_print", {"libglib"}},
        {"invalid_closure_notify", {"gsignal.c", "libgobject"}},
        {"smc_tree_abort", {"gslice.c", "libglib"}},
        {"g_thread_abort", {"libglib"}},
        {"_g_log_abort", {"gmessages.c", "libglib"}},
        {"g_log_default_handler", {"gmessages.c", "libglib"}},
        {"g_log_writer_default", {"gmessages.c", "libglib"}},
        {"g_log_structured_array", {"gmessages.c", "libglib"}},
        {"g_log_structured", {"gmessages.c", "libglib"}},
        {"default_log_handler", {"main.c"}},
        {"g_signal_emit_by_name", {"gsignal.c", "libgobject"}},
        {"__gnu_cxx::__verbose_terminate_handler", {"vterminate.cc"}},
        {"__cxxabiv1::__terminate", {"eh_terminate.cc"}},
        {"std::terminate", {"eh_terminate.cc"}},
        {"__cxxabiv1::__cxa_throw", {"eh_throw.cc"}},
        {"__cxxabiv1::__cxa_rethrow", {"eh_throw.cc"}},
        {"__verbose_terminate_handler", {"vterminate.cc"}},
        {"__cxxabiv1::__cxa_pure_virtual", {"pure.cc"}},
        {"__kernel_vsyscall", {""}},
        {"_XReply", {"xcb_io.c"}},
        {"_XError", {"XlibInt.c"}},
        {"XSync", {"Sync.c"}},
        {"process_responses", {"xcb_io.c"}},
        {"OsSigHandler", {"osinit.c"}},
        {"FatalError", {"log.c"}},
        {"AbortServer", {"log.c"}},
        {"AbortDDX", {"xf86Init.c"}},
        {"ddxGiveUp", {"xf86Init.c"}},
        {"OsAbort", {"utils.c"}},
        {"handle_error", {"xcb_io.c", "libX11"}},
        {"_XIOError", {"XlibInt.c", "libX11"}},
        {"_XEventsQueued", {"xcb_io.c", "libX11"}},
        {"handle_response", {"xcb_io.c", "libX11"}},
        {"_start", {""}},
        {"__libc_start_main", {"libc"}},
        {"clone", {"clone.S", "libc"}},
        {"poll", {"libc"}},
        {"_IO_new_fclose", {"iofclose.c", "libc"}},
        {"_IO_vfprintf_internal", {"vfprintf.c", "libc"}},
        {"_IO_default_xsputn", {"genops.c", "libc"}},
        {"_IO_wdefault_xsputn", {"wgenops.c", "libc"}},
        {"__libc_message", {"libc_fatal.c", "libc"}},
        {"start_thread", {"pthread_create.c", "libpthread"}},
        {"assert_cursor", {"intel_display.c"}},
        {"assert_device_not_suspended", {"intel_uncore.c"}},
        {"assert_pipe", {"intel_display.c"}},
        {"assert_plane", {"intel_display.c"}},
        {"assert_transcoder_disabled", {"intel_display.c"}},
        {"btrfs_assert_delayed_root_empty", {"delayed-inode.c", "btrfs"}},
        {"_cogl_set_error", {"cogl-error.c", "libcogl"}},
        {"defaultCrashHandler", {"kcrash.cpp", "libKF5Crash"}},
        {"_dl_signal_error", {"dl-error.c", "ld-linux"}},
        {"error_dialog_response_cb", {""}},
        {"do_warn", {"_warnings.c", "libpython"}},
        {"QMessageLogger::fatal(char const*, ...) const", {""}},
        {"nsProfileLock::FatalSignalHandler(int, siginfo_t*, void*)", {""}},
        {"qt_message_output", {"qglobal.cpp", "libQtCore"}},
        {"qt_message_output(QtMsgType, char const*)", {""}},
        {"signalHandler(int, siginfo_t*, void*)", {""}},
        {"FatalSignalHandler", {"nsProfileLock.cpp", "libxul"}},
        {"Foam::error::abort()", {""}},
        {"JS_AbortIfWrongThread", {"libmozjs"}},
        {"Crash::defaultCrashHandler(int)", {"libkdeui", "libKF5Crash"}},
        {"Py_FatalError", {"pythonrun.c", "libpython"}},
        {"__btrfs_abort_transaction", {"btrfs"}},
        {"assert_pch_hdmi_disabled", {""}},
        {"assert_pll", {""}},
        {"core::system::abort()", {""}},
        {"ddd_assert_fail", {"assert.C"}},
        {"debug_dma_assert_idle", {""}},
        {"error_handler", {""}},
        {"fatal_error_signal", {""}},
        {"fatal_handler", {"signal.c", "libfreerdp"}},
        {"gpf_notice", {""}},
        {"log", {""}},
        {"_log", {""}},
        {"log_assert_failed", {""}},
        {"mozalloc_abort", {"mozalloc_abort.cpp", "libmozalloc"}},
        {"mozalloc_abort(char const*)", {"libmozalloc", "content-container", "plugin-container"}},
        {"note_interrupt", {"spurious.c", "vmlinux"}},
        {"print_bad_pte", {"memory.c", "vmlinux"}},
        {"print_oops_end_marker", {"panic.c", "vmlinux"}},
        {"printk", {"printk.c", "vmlinux"}},
        {"qupzilla_signal_handler", {"main.cpp", "qupzilla"}},
        {"rb_bug", {"error.c", "libruby"}},
        {"sighandler", {""}},
        {"signalHandler(int)", {""}},
        {"signal_abort", {"signal.c"}},
        {"signal_handler", {""}},
        {"sys_abort", {"error.c", "libgfortran"}},
        {"terminate_due_to_signal", {"emacs.c", "emacs"}},
        {"wl_log", {"wayland-util.c"}},
        {"display_protocol_error", {"wayland-client.c"}},
        {"display_handle_error", {"wayland-client.c"}},
        {"x_io_error", {"libmutter", "meta-xwayland.c"}},
        {"__ioremap_calle", {"ioremap.c"}},
        {"ioremap_nocache", {"ioremap.c"}},
        {"wpa_msg", {"wpa_debug.c"}},
        {"js::gc::FinalizeArenas(js::FreeOp*, js::gc::ArenaHeader**, js::gc::ArenaList&, js::gc::AllocKind, js::SliceBudget&)", {""}},
        {"js::Shape::finalize(js::FreeOp*)", {""}},
        {"WTF::StringImpl::endsWith(char const*, unsigned int, bool) const", {""}},
        {"mozilla::plugins::child::_invokedefault(_NPP*, NPObject*, _NPVariant const*, unsigned int, _NPVariant*)", {""}},
        {"xitk_signal_handler", {"xitk.c", "xine"}},
        {"dump_gjs_stack_on_signal_handler", {"main.c"}},
        {"meta_run", {"libmutter", "main.c"}},
    };
    return v;
}
