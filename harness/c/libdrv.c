// Executes calls of the embedded library, read from descriptor 0, answered on descriptor 3.
// usage: libdrv data index datasize mode maxsize [hook [id]]
//   open                       -> "1 0\n" or "0 0\n"
//   close
//   set|get|exists|check|del NSLEN KLEN VLEN\n<namespace><key><payload>
//   create|delete|jump|reload|flush NSLEN 0 0\n<namespace>
//   -> STATUS LENGTH\n<bytes>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include "libzdb.h"

static FILE *out;

static void tell(const char *st, void *p, size_t n) {
    fprintf(out, "%s %zu\n", st, n);
    if(n)
        fwrite(p, 1, n, out);
    fflush(out);
}

static zdb_settings_t *start(int argc, char **argv) {
    zdb_settings_t *s = zdb_initialize();

    if(!s)
        return NULL;

    // an id is not required
    if(argc < 8)
        zdb_id_set("libdrv");

    if(argc > 6)
        s->hook = argv[6];

    s->datapath = argv[1];
    s->indexpath = argv[2];
    s->datasize = strtoull(argv[3], NULL, 10);

    if(strcmp(argv[4], "user") == 0)
        s->mode = ZDB_MODE_KEY_VALUE;

    if(strcmp(argv[4], "seq") == 0)
        s->mode = ZDB_MODE_SEQUENTIAL;

    s->maxsize = strtoull(argv[5], NULL, 10);

    return zdb_open(s);
}

int main(int argc, char **argv) {
    if(argc < 6)
        return 2;

    out = fdopen(3, "w");
    zdb_settings_t *settings = NULL;
    char line[256], op[32];

    while(fgets(line, sizeof(line), stdin)) {
        size_t nl = 0, kl = 0, vl = 0;
        if(sscanf(line, "%31s %zu %zu %zu", op, &nl, &kl, &vl) < 1)
            return 3;

        // exactly sized, for the sanitizer to see what is read beyond
        char *ns = malloc(nl + 1), *key = malloc(kl ? kl : 1), *val = malloc(vl ? vl : 1);
        if(fread(ns, 1, nl, stdin) != nl || fread(key, 1, kl, stdin) != kl || fread(val, 1, vl, stdin) != vl)
            return 4;
        ns[nl] = '\0';

        if(strcmp(op, "open") == 0) {
            settings = start(argc, argv);
            tell(settings ? "OPEN" : "REFUSED", NULL, 0);

        } else if(strcmp(op, "close") == 0) {
            zdb_close(settings);
            tell("CLOSED", NULL, 0);

        } else if(strcmp(op, "create") == 0) {
            if(!namespace_valid_name(ns) || namespace_get(ns))
                tell("REFUSED", NULL, 0);
            else
                tell(namespace_create(ns) ? "DONE" : "FAILED", NULL, 0);

        } else if(strcmp(op, "delete") == 0) {
            if(!namespace_valid_name(ns) || !namespace_get(ns))
                tell("REFUSED", NULL, 0);
            else
                tell(namespace_delete(namespace_get(ns)) == 0 ? "DONE" : "FAILED", NULL, 0);

        } else if(strcmp(op, "jump") == 0) {
            if(!namespace_get(ns))
                tell("REFUSED", NULL, 0);
            else
                tell(namespace_jump_next(namespace_get(ns)) ? "DONE" : "FAILED", NULL, 0);

        } else if(strcmp(op, "reload") == 0) {
            if(!namespace_get(ns))
                tell("REFUSED", NULL, 0);
            else
                tell(namespace_reload(namespace_get(ns)) == 0 ? "DONE" : "FAILED", NULL, 0);

        } else if(strcmp(op, "flush") == 0) {
            if(!namespace_get(ns))
                tell("REFUSED", NULL, 0);
            else
                tell(namespace_flush(namespace_get(ns)) == 0 ? "DONE" : "FAILED", NULL, 0);

        } else {
            namespace_t *n = namespace_get(ns);
            zdb_api_t *r = NULL;

            if(!n) {
                tell("NONAMESPACE", NULL, 0);
                goto next;
            }

            if(strcmp(op, "set") == 0)
                r = zdb_api_set(n, key, kl, val, vl);
            else if(strcmp(op, "get") == 0)
                r = zdb_api_get(n, key, kl);
            else if(strcmp(op, "exists") == 0)
                r = zdb_api_exists(n, key, kl);
            else if(strcmp(op, "check") == 0)
                r = zdb_api_check(n, key, kl);
            else if(strcmp(op, "del") == 0)
                r = zdb_api_del(n, key, kl);
            else
                return 5;

            const char *st = zdb_api_debug_type(r->status);

            if(r->status == ZDB_API_BUFFER) {
                zdb_api_buffer_t *b = r->payload;
                tell(st, b->payload, b->size);

            } else if(r->status == ZDB_API_ENTRY) {
                zdb_api_entry_t *e = r->payload;
                int same = e->key.size == kl && memcmp(e->key.payload, key, kl) == 0;
                tell(same ? st : "WRONGKEY", e->payload.payload, e->payload.size);

            } else {
                tell(st, NULL, 0);
            }

            zdb_api_reply_free(r);
        }

    next:
        free(ns);
        free(key);
        free(val);
    }

    return 0;
}
