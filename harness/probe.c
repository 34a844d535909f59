/* A command that reports how it was started and does what its script says. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static int out;

static long long now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000LL + t.tv_nsec / 1000000;
}

static void say(const char *what, const char *text)
{
    size_t n = strlen(text), m = strlen(what);
    char *b = malloc(2 * n + m + 3);
    sprintf(b, "%s ", what);
    char *p = b + m + 1;
    for (size_t i = 0; i < n; i++)
        p += sprintf(p, "%02x", (unsigned char)text[i]);
    *p++ = '\n';
    if (write(out, b, p - b) < 0)
        _exit(98);
    free(b);
}

static char role = 'L'; /* the command itself, or a child that holds its pipes, or is free of them */

static void stamp(const char *what)
{
    char b[80];
    int n = sprintf(b, "%s %d %lld %c\n", what, (int)getpid(), now(), role);
    if (write(out, b, n) < 0)
        _exit(98);
}

static void put(int fd, long n, int c)
{
    char b[4096];
    memset(b, c, sizeof b);
    while (n > 0) {
        ssize_t k = write(fd, b, n < (long)sizeof b ? n : (long)sizeof b);
        if (k <= 0)
            _exit(97);
        n -= k;
    }
}

static void take(long most)
{
    char b[4096], line[64];
    int last = -1;
    long run = 0, k;
    while (most != 0 && (k = read(0, b, most > 0 && most < (long)sizeof b ? most : (long)sizeof b)) > 0) {
        if (most > 0)
            most -= k;
        for (long i = 0; i < k; i++) {
            if ((unsigned char)b[i] != last) {
                if (run && write(out, line, sprintf(line, "in %d %ld\n", last, run)) < 0)
                    _exit(98);
                last = (unsigned char)b[i];
                run = 0;
            }
            run++;
        }
    }
    if (run && write(out, line, sprintf(line, "in %d %ld\n", last, run)) < 0)
        _exit(98);
}

static void nap(long ms)
{
    long long end = now() + ms;
    while (now() < end) {
        long long left = end - now();
        struct timespec t = { left / 1000, (left % 1000) * 1000000 };
        nanosleep(&t, 0);
    }
}

static void spawn(int hold, long life, int more)
{
    pid_t p = fork();
    if (p)
        return;
    if (more) {
        /* the grandchild is left alone */
        if (fork())
            _exit(0);
    }
    if (!hold) {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 0);
        dup2(fd, 1);
        dup2(fd, 2);
    }
    role = hold ? 'h' : 'f';
    stamp("start");
    nap(life);
    stamp("end");
    _exit(0);
}

int main(int argc, char **argv)
{
    const char *script = getenv("PROBE");
    char path[4096], line[4096];
    snprintf(path, sizeof path, "%s.out", script);
    out = open(path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
    FILE *f = fopen(script, "r");
    if (out < 0 || !f)
        _exit(96);
    fcntl(fileno(f), F_SETFD, FD_CLOEXEC);
    stamp("start");
    for (int i = 0; i < argc; i++)
        say("arg", argv[i]);
    for (char **e = environ; *e; e++)
        say("env", *e);
    char cwd[4096];
    if (getcwd(cwd, sizeof cwd))
        say("cwd", cwd);
    while (fgets(line, sizeof line, f)) {
        long a = 0, b = 0;
        char name[3000] = "";
        line[strcspn(line, "\n")] = 0;
        sscanf(line + 1, "%ld %ld", &a, &b);
        sscanf(line + 1, "%2999s", name);
        switch (line[0]) {
        case 'o': put(1, a, b); break;
        case 'e': put(2, a, b); break;
        case 'i': take(-1); break;
        case 'r': take(a); break;
        case 's': nap(a); break;
        case 'c': close(1); close(2); break;
        case 'I':
            signal(SIGTERM, SIG_IGN);
            signal(SIGINT, SIG_IGN);
            signal(SIGHUP, SIG_IGN);
            break;
        case 'm': close(open(name, O_WRONLY | O_CREAT, 0666)); break;
        case 'w': {
            long long end = now() + 20000;
            struct stat st;
            while (stat(name, &st)) {
                if (now() > end)
                    _exit(99);
                nap(2);
            }
            break;
        }
        case 'F': spawn(a, b, 0); break;
        case 'G': spawn(a, b, 1); break;
        case 'x': stamp("end"); _exit(a);
        case 'k':
            stamp("end");
            signal(a, SIG_DFL);
            kill(getpid(), a);
            for (;;)
                pause();
        }
    }
    stamp("end");
    return 0;
}
