from common import *
LM = "libmilter/libmilter-compatible.c"; X = "milter/client/milter-client-context.c"
LIBMILTER = r'''#!/bin/sh
R="$PWD"; T=$(mktemp -d) || exit 99
trap 'rm -r "$T"' EXIT
L="$R/_build/milter"
gcc -w "$(dirname "$0")/demo.c" -o "$T/demo" -I"$R" -I"$R/libmilter" -L"$R/_build/libmilter/.libs" -L"$L/client/.libs" -L"$L/core/.libs" -Wl,-rpath,"$R/_build/libmilter/.libs:$L/client/.libs:$L/core/.libs" -lmilter -lmilter-client -lmilter-core $(pkg-config --cflags --libs glib-2.0 gobject-2.0) -lpthread || exit 99
cd "$T" && timeout 60 "$T/demo"
'''
plant("S19","C30",[(LM,"        case SMFIS_ACCEPT:\n        case SMFIS_TEMPFAIL:\n            return libmilter_compatible_convert_status_to(status);","        case SMFIS_ACCEPT:\n            return libmilter_compatible_convert_status_to(status);")],
 "an MTA which sends the last body chunk within its end-of-message packet, and an xxfi_body callback which returns SMFIS_TEMPFAIL for it",
 "xxfi_eom is called nevertheless and its result decides: the message the milter refused for now is accepted", r"""
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdbool.h>
#include <unistd.h>
#include <pthread.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <libmilter/mfapi.h>
static int eoms;
static sfsistat body (SMFICTX *c, unsigned char *b, size_t n) { return memchr(b, '!', n) ? SMFIS_TEMPFAIL : SMFIS_CONTINUE; }
static sfsistat eom (SMFICTX *c) { eoms++; return SMFIS_CONTINUE; }
static void *run (void *x) { smfi_main(); return NULL; }
static int s;
static void put (char op, const char *d, int n) { char b[1000]; b[0] = b[1] = 0; b[2] = (n + 1) >> 8; b[3] = n + 1; b[4] = op; memcpy(b + 5, d, n); if (write(s, b, n + 5) < 0) _exit(9); }
static char reply (void) {
  unsigned char b[1000]; int n = 0; struct pollfd f = {s, POLLIN, 0};
  while (poll(&f, 1, 3000) > 0) { int r = read(s, b + n, 1); if (r <= 0) return '-'; n += r; if (n >= 5 && n == 4 + b[3] + b[2] * 256) return b[4]; }
  return '?';
}
int main (void) {
  struct smfiDesc d; pthread_t t; struct sockaddr_un a; int i; char got[10] = "";
  memset(&d, 0, sizeof d); d.xxfi_name = "demo"; d.xxfi_version = SMFI_VERSION; d.xxfi_body = body; d.xxfi_eom = eom;
  if (smfi_setconn("unix:./sock") || smfi_register(d)) return 9;
  pthread_create(&t, NULL, run, NULL);
  memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, "./sock");
  s = socket(AF_UNIX, SOCK_STREAM, 0);
  for (i = 0; i < 100 && connect(s, (void *)&a, sizeof a); i++) usleep(50000);
  put('O', "\0\0\0\6\0\0\1\377\0\0\0\0", 12); got[0] = reply();
  put('M', "<a@b>", 6); got[1] = reply();
  put('R', "<a@b>", 6); got[2] = reply();
  put('B', "hello\r\n", 7); got[3] = reply();
  put('E', "last!\r\n", 7); got[4] = reply();
  printf("%s, %d calls of xxfi_eom\n", got, eoms);
  _exit(strcmp(got, "Occct") || eoms);
}""", LIBMILTER)
plant("S20","C41",[(X,"    return status == MILTER_STATUS_DEFAULT ||\n        status == MILTER_STATUS_CONTINUE ||\n        status == MILTER_STATUS_ALL_OPTIONS;\n","    return status == MILTER_STATUS_DEFAULT ||\n        status == MILTER_STATUS_CONTINUE;\n")],
 "two handlers of the negotiation, the first of which asks for all options and the second rejects", "the second handler isn't asked: the session the milter rejects is negotiated", CLIENT+r"""
static MilterStatus first (void) { return MILTER_STATUS_ALL_OPTIONS; }
static MilterStatus second (void) { return MILTER_STATUS_REJECT; }
int main (void) {
  start();
  g_signal_connect(ctx, "negotiate", G_CALLBACK(first), NULL);
  g_signal_connect(ctx, "negotiate", G_CALLBACK(second), NULL);
  feed('O', "\0\0\0\6\0\0\1\377\0\37\377\377", 12); collect();
  printf("<%s>\n", ops());
  return strcmp(ops(), "r") != 0;
}""", CLIENTSH)
