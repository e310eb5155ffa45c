#ifndef VERIF_CONFIG_H
#define VERIF_CONFIG_H
#define ENABLE_NLS 1
#define GETTEXT_PACKAGE "milter-manager"
#define HAVE_BIND_TEXTDOMAIN_CODESET 1
#define HAVE_DCGETTEXT 1
#define HAVE_DLFCN_H 1
#define HAVE_EV_H 1
#define HAVE_GETTEXT 1
#define HAVE_INTTYPES_H 1
#define HAVE_LC_MESSAGES 1
#define HAVE_LOCALE_H 1
#define HAVE_RECVMSG 1
#define HAVE_SENDMSG 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRUCT_MSGHDR_MSG_CONTROL 1
#define HAVE_SYS_SOCKET_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_SYS_UN_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "milter-manager"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_NAME "milter-manager"
#define PACKAGE_STRING "milter-manager 2.3.2"
#define PACKAGE_TARNAME "milter-manager"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "2.3.2"
#define STDC_HEADERS 1
#define VERSION "2.3.2"
#endif
