#include <glib.h>
void mc_glib_setup(void)
{
    /* a GLib "critical" is a broken precondition: make it a crash */
    g_log_set_always_fatal(G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR | G_LOG_LEVEL_WARNING | G_LOG_FATAL_MASK);
}
