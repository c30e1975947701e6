// Controlled executor: runs the REAL pasm main() once per job in a forked
// child whose working directory, input files, stdout/stderr and time limit are
// decided here.  Every observable of the run is returned to the explorer.
//
// Wire protocol (little endian, stdin -> stdout)
//   request : u32 njobs, then per job
//             u32 timeout_s | fill << 8 | (largest file + 1) << 16; u32 nfiles, (str name, str data)*; u32 nargs, (str)*;
//             u32 nouts, (str name)*
//   response: per job u32 kind(0 exit,1 signal,2 timeout) u32 code,
//             str stdout, str stderr, per out: u32 present, str data
//   str = u32 length + bytes
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

int pasm_main(int argc, char* argv[]);

static const uint32_t kMaxRead = 16u << 20;

static bool rd(void* p, size_t n)
{
    char* c = (char*)p;
    while (n) { ssize_t k = read(0, c, n); if (k == 0) return false; if (k < 0) { if (errno == EINTR) continue; return false; } c += k; n -= k; }
    return true;
}
static uint32_t rd32() { uint32_t v; if (!rd(&v, 4)) exit(0); return v; }
static std::string rds() { uint32_t n = rd32(); std::string s(n, 0); if (n && !rd(&s[0], n)) exit(0); return s; }

static std::string out;
static void w32(uint32_t v) { out.append((char*)&v, 4); }
static void ws(const std::string& s) { w32((uint32_t)s.size()); out += s; }
static void flush_out()
{
    const char* c = out.data(); size_t n = out.size();
    while (n) { ssize_t k = write(1, c, n); if (k < 0) { if (errno == EINTR) continue; exit(3); } c += k; n -= k; }
    out.clear();
}
static bool slurp(const char* name, std::string& s)
{
    s.clear();
    int fd = open(name, O_RDONLY); if (fd < 0) return false;
    struct stat st; if (fstat(fd, &st) || !S_ISREG(st.st_mode)) { close(fd); return false; }
    size_t n = st.st_size > kMaxRead ? kMaxRead : st.st_size; s.resize(n);
    size_t o = 0; while (o < n) { ssize_t k = read(fd, &s[o], n - o); if (k <= 0) break; o += k; }
    s.resize(o); close(fd); return true;
}

// garbage in fresh and freed memory and below the stack pointer
static __attribute__((noinline)) void fill_stack(int v) { volatile char b[1 << 19]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; }

int main()
{
    signal(SIGPIPE, SIG_IGN);
    const char* so = ".mc_stdout"; const char* se = ".mc_stderr";
    for (;;)
    {
        uint32_t njobs; if (!rd(&njobs, 4)) return 0;
        for (uint32_t j = 0; j < njobs; j++)
        {
            uint32_t tmo = rd32();
            uint32_t nf = rd32(); std::vector<std::string> fn, fd;
            for (uint32_t i = 0; i < nf; i++) { fn.push_back(rds()); fd.push_back(rds()); }
            uint32_t na = rd32(); std::vector<std::string> args; for (uint32_t i = 0; i < na; i++) args.push_back(rds());
            uint32_t no = rd32(); std::vector<std::string> outs; for (uint32_t i = 0; i < no; i++) outs.push_back(rds());
            for (auto& o : outs) unlink(o.c_str());
            std::vector<std::string> made;
            for (uint32_t i = 0; i < nf; i++)
            {
                // nested scratch paths only (never absolute, never ..)
                if (fn[i].empty() || fn[i][0] == '/' || fn[i].find("..") != std::string::npos) return 4;
                for (size_t p = fn[i].find('/'); p != std::string::npos; p = fn[i].find('/', p + 1)) if (!mkdir(fn[i].substr(0, p).c_str(), 0755)) made.push_back(fn[i].substr(0, p));
                int h = open(fn[i].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (h < 0) return 5;
                const char* c = fd[i].data(); size_t n = fd[i].size(); while (n) { ssize_t k = write(h, c, n); if (k <= 0) return 6; c += k; n -= k; }
                close(h);
            }
            int h1 = open(so, O_RDWR | O_CREAT | O_TRUNC, 0644), h2 = open(se, O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (h1 < 0 || h2 < 0) return 7;
            pid_t pid = fork();
            if (pid < 0) return 8;
            if (pid == 0)
            {
                dup2(h1, 1); dup2(h2, 2); close(h1); close(h2);
                int z = open("/dev/null", O_RDONLY); if (z >= 0) { dup2(z, 0); close(z); }
                struct rlimit rl;
                rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
                rl.rlim_cur = rl.rlim_max = 64u << 20; setrlimit(RLIMIT_FSIZE, &rl);
#ifndef MC_ASAN
                rl.rlim_cur = rl.rlim_max = 3ull << 30; setrlimit(RLIMIT_AS, &rl);
#endif
                alarm(tmo & 255);
                int fill = tmo >> 8 & 255; if (fill) { mallopt(M_PERTURB, fill); fill_stack(fill); }
                // the medium is full after this many bytes of a file
                if (tmo >> 16) { signal(SIGXFSZ, SIG_IGN); rl.rlim_cur = rl.rlim_max = (tmo >> 16) - 1; setrlimit(RLIMIT_FSIZE, &rl); }
                std::vector<char*> av; for (auto& s : args) av.push_back(strdup(s.c_str())); av.push_back(nullptr);
                int rc = pasm_main((int)args.size(), av.data());
                exit(rc);
            }
            close(h1); close(h2);
            int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (WIFEXITED(st)) { w32(0); w32(WEXITSTATUS(st)); }
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { w32(2); w32(0); }
            else { w32(1); w32(WIFSIGNALED(st) ? WTERMSIG(st) : 0); }
            std::string s;
            slurp(so, s); ws(s); slurp(se, s); ws(s);
            for (auto& o : outs) { bool p = slurp(o.c_str(), s); w32(p); ws(s); unlink(o.c_str()); }
            for (auto& f : fn) unlink(f.c_str());
            while (!made.empty()) { rmdir(made.back().c_str()); made.pop_back(); }
        }
        flush_out();
    }
}
