/* Stand-in for the compiler, used under the scheduler of ptsched.py.
 *
 * Writes the shared library that the real compiler produces for the given source, in a few pieces, like a linker
 * does: it removes the output, creates it and writes it piece by piece. The libraries come from a store, filled by the
 * real compiler on first use. A source that returns a single number is served from a template.
 * FAKECC_MODE: ok, fail-before, fail-half, signal-half, no-output.
 */
#include <fcntl.h>
#include <regex.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static char *slurp(const char *path, long *n)
{
    int fd = open(path, O_RDONLY);
    struct stat st;
    if (fd < 0 || fstat(fd, &st) < 0) return NULL;
    char *buf = malloc(st.st_size + 1);
    *n = 0;
    long r;
    while ((r = read(fd, buf + *n, st.st_size - *n)) > 0) *n += r;
    buf[*n] = 0;
    close(fd);
    return buf;
}

int main(int argc, char **argv)
{
    const char *src = NULL, *out = "a.out", *mode = getenv("FAKECC_MODE");
    const char *store = getenv("FAKECC_STORE"), *real = getenv("FAKECC_REAL");
    for (int i = 1; i < argc; i++)
    {
        if (!strcmp(argv[i], "-o") && i + 1 < argc) out = argv[++i];
        else if (!strncmp(argv[i], "-o", 2) && argv[i][2]) out = argv[i] + 2;
        else if (argv[i][0] != '-' && !(i > 1 && !strcmp(argv[i - 1], "-x"))) src = argv[i];
    }
    if (!mode) mode = "ok";
    if (!src || !store || !real) return 4;
    long n = 0, len = 0;
    char *text = slurp(src, &n), *lib = NULL;
    if (!text) { fprintf(stderr, "no input\n"); return 1; }
    if (!strcmp(mode, "fail-before")) return 1;

    char path[4096];
    const char *tmpl = getenv("FAKECC_TEMPLATE");
    regex_t re;
    regmatch_t m[2];
    regcomp(&re, "return +([0-9]+\\.[0-9]+) *;", REG_EXTENDED);
    if (tmpl && !regexec(&re, text, 2, m, 0))
    {
        lib = slurp(tmpl, &len);
        double marker = 1234567.890625, value = atof(text + m[1].rm_so);
        for (long i = 0; lib && i + 8 <= len; i++)
            if (!memcmp(lib + i, &marker, 8)) memcpy(lib + i, &value, 8);
    }
    else
    {
        uint64_t h = 1469598103934665603ull;
        for (long i = 0; i < n; i++) h = (h ^ (unsigned char) text[i]) * 1099511628211ull;
        snprintf(path, sizeof path, "%s/%016llx.so", store, (unsigned long long) h);
        if (access(path, R_OK))
        {
            char tmp[4200], copy[4200];
            snprintf(tmp, sizeof tmp, "%s.%d", path, getpid());
            snprintf(copy, sizeof copy, "%s/%d.cpp", store, getpid());
            int fd = open(copy, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (write(fd, text, n) != n) return 5;
            close(fd);
            pid_t p = fork();
            if (!p)
            {
                char **a = calloc(argc + 1, sizeof *a);
                a[0] = (char *) real;
                for (int i = 1; i < argc; i++) a[i] = argv[i] == src ? copy : argv[i] == out ? tmp : argv[i];
                execv(real, a);
                _exit(6);
            }
            int st;
            waitpid(p, &st, 0);
            unlink(copy);
            if (st) { unlink(tmp); return 1; }
            rename(tmp, path);
        }
        lib = slurp(path, &len);
    }
    if (!lib) return 7;
    if (!strcmp(mode, "no-output")) return 0;

    unlink(out);
    int fd = open(out, O_RDWR | O_CREAT | O_TRUNC, 0777);
    if (fd < 0) { perror(out); return 1; }
    long pieces[4] = {64, len/2, len - 100, len}, pos = 0;
    for (int i = 0; i < 4; i++)
    {
        if (i == 2 && !strcmp(mode, "fail-half")) return 1;
        if (i == 2 && !strcmp(mode, "signal-half")) { raise(SIGKILL); return 1; }
        while (pos < pieces[i])
        {
            long w = write(fd, lib + pos, pieces[i] - pos);
            if (w <= 0) return 1;
            pos += w;
        }
    }
    close(fd);
    return 0;
}
