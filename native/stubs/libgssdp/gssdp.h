/* Declarations of the (absent) GSSDP library, as used by lib/WebServices. */
#pragma once
#include <glib.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct _GSSDPClient GSSDPClient;
typedef struct _GSSDPResourceGroup GSSDPResourceGroup;
GSSDPClient *gssdp_client_new (const char *, GError **);
void gssdp_client_set_server_id (GSSDPClient *, const char *);
const char *gssdp_client_get_host_ip (GSSDPClient *);
gboolean gssdp_client_get_active (GSSDPClient *);
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *);
unsigned gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *, const char *, const char *, const char *);
void gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean);
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *);
#ifdef __cplusplus
}
#endif
