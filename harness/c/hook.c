/* The hook program given to the daemon.  It does what ZHOOK_DIR/ctl/<type> says and
 * writes down, when it is about to end, what it was called with: one line per run. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static void nap(long ms) {
    struct timespec t = {ms / 1000, (ms % 1000) * 1000000};
    nanosleep(&t, NULL);
}

int main(int argc, char **argv) {
    char path[4096], ctl[16] = "0", *dir = getenv("ZHOOK_DIR");
    static char line[1 << 18];
    size_t n = 0;
    int fd, rc = 0;
    FILE *f;

    if(!dir || argc < 2)
        return 99;

    snprintf(path, sizeof(path), "%s/ctl/%s", dir, argv[1]);
    if((f = fopen(path, "r"))) {
        if(fscanf(f, "%15s", ctl) != 1)
            strcpy(ctl, "0");
        fclose(f);
    }

    if(!strcmp(ctl, "stay")) {          /* until it is killed */
        nap(60000);
        return 0;
    }
    nap(strcmp(argv[1], "namespaces-init") ? 8 : 30);

    if(!strcmp(argv[1], "missing-data") && !strcmp(ctl, "0")) {
        /* bring the file back, if we have it */
        n = snprintf(path, sizeof(path), "%s/stash/", dir);
        for(char *p = argv[argc - 1]; *p && n + 3 < sizeof(path); p++)
            n += sprintf(path + n, "%02x", (unsigned char) *p);
        if(rename(path, argv[argc - 1]))
            rc = 7;
    }
    if(!strcmp(ctl, "7"))
        rc = 7;

    n = 0;
    for(int i = 1; i < argc; i++) {
        for(char *p = argv[i]; *p && n + 4 < sizeof(line); p++)
            n += sprintf(line + n, "%02x", (unsigned char) *p);
        line[n++] = i == argc - 1 ? '\n' : ' ';
    }
    snprintf(path, sizeof(path), "%s/log", dir);
    if((fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0600)) < 0 || write(fd, line, n) != (ssize_t) n)
        return 98;
    close(fd);

    if(!strcmp(ctl, "orphan")) {        /* leave a process behind */
        if(fork() == 0) {
            nap(15);
            _exit(5);
        }
    }
    if(!strcmp(ctl, "k"))
        kill(getpid(), SIGKILL);
    return rc;
}
