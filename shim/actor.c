/* A code formatter which follows a script: actor LOG OP...
   Every run appends the language it was called for to LOG. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static long line_no;

static int put(int fd, const char *s, size_t n) {
    while (n > 0) {
        ssize_t k = write(fd, s, n);
        if (k < 0) {
            if (errno == EINTR) continue;
            return -1;
        }
        s += k;
        n -= (size_t)k;
    }
    return 0;
}
static void say(int fd, const char *s) { put(fd, s, strlen(s)); }

int main(int argc, char **argv) {
    static char buf[40960];
    signal(SIGPIPE, SIG_IGN);
    alarm(40);
    if (argc < 2) return 99;
    int log = open(argv[1], O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (log >= 0) { say(log, "x"); close(log); }
    for (int i = 2; i < argc; i++) {
        const char *op = argv[i];
        switch (op[0]) {
        case 'R': while (read(0, buf, sizeof buf) > 0) {} break;
        case 'r': if (read(0, buf, sizeof buf) < 0) {} break;
        case 'C': for (ssize_t n; (n = read(0, buf, sizeof buf)) > 0;) put(1, buf, (size_t)n); break;
        case 'c': /* copy, reading everything first */ {
            size_t have = 0, room = 1 << 16; char *all = malloc(room);
            for (ssize_t n; (n = read(0, all + have, room - have)) > 0;) { have += (size_t)n; if (have == room) all = realloc(all, room *= 2); }
            put(1, all, have); break; }
        case 'o': { char l[32]; snprintf(l, sizeof l, "o%ld\n", ++line_no); say(1, l); break; }
        case 'O': /* more than a pipe holds */ for (int k = 0; k < 100; k++) { for (int j = 0; j < 100; j++) say(1, "oooooooooo"); say(1, "\n"); } break;
        case 'e': say(2, "complaint\n"); break;
        case 'E': for (int k = 0; k < 1500; k++) say(2, "eeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee\n"); break;
        case 'i': close(0); break;
        case 'u': close(1); break;
        case 'f': say(1, "~~~~~~\n"); break;
        case 'g': say(1, "  ````` x\n"); break;
        case 'q': say(1, "y\r\n"); break;
        case 'n': say(1, "\n"); break;
        case 'm': say(1, "  *m*  \"q\"\n"); break;
        case 'w': say(1, "w"); break;
        case 'b': put(1, "\xff\n", 2); break;
        case 'p': usleep(90000); break;
        case 's': usleep(2200000); break;
        case 'z': usleep(25000000); break;
        case 'h': if (fork() == 0) { alarm(0); usleep(12000000); _exit(0); } break;
        case 'k': kill(getpid(), SIGKILL); break;
        case 'x': return atoi(op + 1);
        }
    }
    return 0;
}
