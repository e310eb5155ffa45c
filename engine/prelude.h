#include <config.h>
#include <glib.h>
#include <glib-object.h>
#undef _G_TYPE_CIT
#undef _G_TYPE_CVH
#define _G_TYPE_CIT(ip, gt) (g_type_check_instance_is_a((GTypeInstance *)(ip), (gt)))
#define _G_TYPE_CVH(vl, gt) (g_type_check_value_holds((GValue *)(vl), (gt)))
