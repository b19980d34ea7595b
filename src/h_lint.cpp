// The cypher-lint tool against what the library says about the same files.
#include "gen.hpp"
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
using namespace ax;
using namespace gg;
using pbt::Src; using pbt::Ctx; using pbt::strf;
extern char **environ;

namespace {
std::string dir() {
    static std::string d; static pid_t of = 0;
    if (of != getpid()) {
        const char *s = getenv("VERIF_SCRATCH");
        d = strf("%s/lint.%d", s ? s : "/tmp", (int)getpid()); of = getpid();
        mkdir(d.c_str(), 0700); mkdir((d + "/directory").c_str(), 0700);
    }
    return d;
}
void put(const std::string &f, const std::string &s) { FILE *o = fopen(f.c_str(), "w"); if (!o || fwrite(s.data(), 1, s.size(), o) != s.size() || fclose(o)) { perror(f.c_str()); abort(); } }
std::string read_file(const std::string &f) { FILE *i = fopen(f.c_str(), "r"); if (!i) { perror(f.c_str()); abort(); } std::string s = slurp(i); fclose(i); return s; }
struct Ran { int status = -1; bool crashed = false; std::string out, err; };
// A terminal that passes everything on unchanged
struct Term {
    int master = -1, slave = -1;
    bool open() {
        master = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
        if (master < 0) return false;
        char name[128];
        if (grantpt(master) || unlockpt(master) || ptsname_r(master, name, sizeof name) || (slave = ::open(name, O_RDWR | O_NOCTTY | O_CLOEXEC)) < 0) { close(); return false; }
        struct termios t; tcgetattr(slave, &t); cfmakeraw(&t); tcsetattr(slave, TCSANOW, &t);
        return true;
    }
    void close() { if (master >= 0) ::close(master); if (slave >= 0) ::close(slave); master = slave = -1; }
};
Ran lint(const std::vector<std::string> &args, const std::string &in_file, Term *out = nullptr, Term *err = nullptr, bool full = false) {
    Ran r; std::string d = dir();
    std::string exe = std::string(getenv("VERIF_BINDIR") ? getenv("VERIF_BINDIR") : ".") + "/cypher-lint";
    std::vector<char *> av; std::string a0 = exe; av.push_back(&a0[0]);
    std::vector<std::string> copy = args; for (auto &s : copy) av.push_back(&s[0]); av.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, in_file.c_str(), O_RDONLY, 0);
    if (out) posix_spawn_file_actions_adddup2(&fa, out->slave, 1);
    else if (full) posix_spawn_file_actions_addopen(&fa, 1, "/dev/full", O_WRONLY, 0);
    else posix_spawn_file_actions_addopen(&fa, 1, (d + "/out").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (err) posix_spawn_file_actions_adddup2(&fa, err->slave, 2);
    else posix_spawn_file_actions_addopen(&fa, 2, (d + "/err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    pid_t p; int e = posix_spawn(&p, exe.c_str(), &fa, nullptr, av.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (e) { fprintf(stderr, "%s: %s\n", exe.c_str(), strerror(e)); abort(); }
    Term *terms[2] = {out, err}; std::string *to[2] = {&r.out, &r.err};
    for (Term *t : terms) if (t) { ::close(t->slave); t->slave = -1; }
    for (;;) {
        struct pollfd pf[2]; int n = 0, which[2];
        for (int i = 0; i < 2; i++) if (terms[i] && terms[i]->master >= 0) { pf[n] = {terms[i]->master, POLLIN, 0}; which[n++] = i; }
        if (!n) break;
        if (poll(pf, n, -1) < 0) continue;
        for (int i = 0; i < n; i++) if (pf[i].revents) {
            char b[4096]; ssize_t k = read(pf[i].fd, b, sizeof b);
            if (k > 0) to[which[i]]->append(b, k); else if (k == 0 || errno != EINTR) terms[which[i]]->close();
        }
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st)) r.status = WEXITSTATUS(st); else r.crashed = true;
    if (!out && !full) r.out = read_file(d + "/out");
    if (!err) r.err = read_file(d + "/err");
    return r;
}
struct Opt { unsigned flags = 0, width = 0; bool ast = false, stream = false, colour = false, colour_err = false; };
struct Exp { std::string out, err; bool failed = false; };
std::string err_text(const cypher_parse_error_t *e, const std::string &file) {
    Err x = get_err(e);
    std::string ctx = cypher_parse_error_context(e);
    return strf("%s:%u:%u: ", file.c_str(), x.pos.line, x.pos.column) + x.msg + "\n" + ctx + "\n" + std::string(x.ctx_off, ' ') + "^\n";
}
struct SD { Exp *x; const Opt *o; std::string file; };
int seg_cb(void *d, cypher_parse_segment_t *s) {
    SD *k = (SD *)d;
    for (unsigned i = 0; i < cypher_parse_segment_nerrors(s); i++) { k->x->err += err_text(cypher_parse_segment_get_error(s, i), k->file); k->x->failed = true; }
    if (k->o->ast) {
        char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n);
        cypher_parse_segment_fprint_ast(s, f, k->o->width, k->o->colour ? cypher_parser_ansi_colorization : nullptr, 0);
        fclose(f); k->x->out.append(b, n); free(b);
    }
    return 0;
}
// What one file must give; false if nothing more is to be read
bool expect(Exp &x, const Opt &o, FILE *f, const std::string &name, bool header) {
    cypher_parser_config_t *cfg = cypher_parser_new_config();
    if (o.colour_err) cypher_parser_config_set_error_colorization(cfg, cypher_parser_ansi_colorization);
    bool ok = true;
    if (o.stream || !o.ast) {
        SD d{&x, &o, name};
        if (cypher_fparse_each(f, seg_cb, &d, nullptr, cfg, o.flags)) { x.err += std::string("cypher_fparse_each: ") + strerror(errno) + "\n"; x.failed = true; ok = false; }
    } else {
        cypher_parse_result_t *r = cypher_fparse(f, nullptr, cfg, o.flags);
        if (!r) { x.err += std::string("cypher_fparse: ") + strerror(errno) + "\n"; x.failed = true; ok = false; }
        else {
            for (unsigned i = 0; i < cypher_parse_result_nerrors(r); i++) { x.err += err_text(cypher_parse_result_get_error(r, i), name); x.failed = true; }
            if (header) x.out += name + ":\n";
            char *b = nullptr; size_t n = 0; FILE *m = open_memstream(&b, &n);
            cypher_parse_result_fprint_ast(r, m, o.width, o.colour ? cypher_parser_ansi_colorization : nullptr, 0);
            fclose(m); x.out.append(b, n); free(b);
            cypher_parse_result_free(r);
        }
    }
    cypher_parser_config_free(cfg);
    return ok;
}
std::string text(Src &src) {
    std::string s;
    unsigned k = src.below(4);
    if (k == 0) s = wild(src);
    else { POpts po; po.gram.depth = (int)src.below(3); po.gram.clauses = 3; po.gram.wild = src.coin(); po.max = 4; po.empties = true; s = program(src, po).l.src; if (k == 1) s = tame(mutate(src, s, 1 + src.below(3)), 6); }
    if (src.chance(1, 6)) s = std::string(src.below(2500), src.coin() ? ' ' : '\n') + s;
    return s;
}
}

PROPERTY("C23", tool, 8) {
    std::string d = dir();
    Opt o; std::vector<std::string> args, files;
    unsigned n = src.below(5);
    Term t_out, t_err;
    bool tty_out = src.chance(1, 6) && t_out.open(), tty_err = src.chance(1, 6) && t_err.open();
    o.colour = tty_out; o.colour_err = tty_err;
    for (unsigned i = 0; i < n; i++) switch (src.below(7)) {
        case 0: args.push_back("-1"); o.flags |= CYPHER_PARSE_SINGLE; break;
        case 1: case 2: args.push_back(src.coin() ? "-a" : "--ast"); o.ast = true; break;
        case 3: { static const char *const C[] = {"--colorize", "--colorise", "--colourise"}; args.push_back(src.pick(C)); o.colour = o.colour_err = true; break; }
        case 4: { static const char *const C[] = {"--no-colorize", "--no-colorise", "--no-colourise"}; args.push_back(src.pick(C)); o.colour = o.colour_err = false; break; }
        case 5: if (src.coin()) { args.push_back("--only-statements"); o.flags |= CYPHER_PARSE_ONLY_STATEMENTS; } else { o.width = src.below(200); if (src.coin()) args.push_back(strf("--output-width=%u", o.width)); else { args.push_back("--output-width"); args.push_back(strf("%u", o.width)); } } break;
        default: args.push_back("--stream"); o.stream = true;
    }
    unsigned nf = src.below(4);
    std::string all, in = text(src);
    put(d + "/in", in);
    FILE *fin = fopen((d + "/in").c_str(), "r");
    Exp x; bool more = true;
    std::string in_file = d + "/in";
    if (!nf) {
        all = "(standard input) " + pbt::quote(in);
        if (src.chance(1, 30)) { in_file = d + "/directory"; fclose(fin); fin = fopen(in_file.c_str(), "r"); all = "(standard input) a directory"; }
        expect(x, o, fin, "<stdin>", false);
    }
    for (unsigned i = 0; i < nf; i++) {
        unsigned k = src.below(12);
        std::string f;
        if (k == 0) {
            f = "-"; all += "(standard input) " + pbt::quote(in) + "\n";
            // the tool's standard input is at its end when read before
            if (more) expect(x, o, fin, "<stdin>", true);
        } else if (k == 1) {
            f = d + "/missing"; all += "(missing)\n";
            if (more) { x.err += strf("cypher-lint: %s: %s\n", f.c_str(), strerror(ENOENT)); x.failed = true; more = false; }
        } else if (k == 2) {
            f = d + "/directory"; all += "(directory)\n";
            FILE *g = fopen(f.c_str(), "r");
            if (more) more = expect(x, o, g, f, true);
            fclose(g);
        } else {
            std::string t = src.chance(1, 8) ? "" : text(src);
            f = d + strf("/file%u", i); put(f, t); all += pbt::quote(t) + "\n";
            FILE *g = fopen(f.c_str(), "r");
            if (more) more = expect(x, o, g, f, true);
            fclose(g);
        }
        files.push_back(f);
    }
    fclose(fin);
    std::string cmd; for (auto &a : args) cmd += a + " ";
    ctx.text(cmd + "\n" + all); ctx.nontrivial();
    if (src.coin()) for (auto &f : files) args.push_back(f);
    else args.insert(args.begin(), files.begin(), files.end());       // (options may follow the files)
    Ran r = lint(args, in_file, tty_out ? &t_out : nullptr, tty_err ? &t_err : nullptr);
    if (tty_out || tty_err) ctx.cls("a terminal");
    if (tty_out) cmd += "(output to a terminal) ";
    if (tty_err) cmd += "(errors to a terminal) ";
    if (r.crashed || r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error") != std::string::npos) ctx.fail("the tool crashed: " + r.err.substr(0, 2000));
    auto cmp = [&](const char *w, const std::string &want, const std::string &got) { if (want != got) ctx.fail(strf("cypher-lint %s: standard %s ", cmd.c_str(), w) + first_diff(want, got)); };
    cmp("error", x.err, r.err);
    cmp("output", x.out, r.out);
    if ((r.status == 0) == x.failed) ctx.fail(strf("cypher-lint %s: the exit status is %d although there were %s", cmd.c_str(), r.status, x.failed ? "errors" : "no errors"));
    ctx.cls(x.failed ? "with errors" : "no errors"); ctx.cls(o.ast ? o.stream ? "AST in stream mode" : "AST" : "no AST"); ctx.cls(strf("%u files", nf));
}
// The same reports in either mode, and for files together and one by one
PROPERTY("C23", modes, 2) {
    std::string d = dir();
    unsigned n = 1 + src.below(3); std::vector<std::string> files; std::string all;
    for (unsigned i = 0; i < n; i++) { std::string t = text(src); files.push_back(d + strf("/file%u", i)); put(files[i], t); all += pbt::quote(t) + "\n"; }
    ctx.text(all); ctx.nontrivial();
    std::vector<std::string> a = {"--ast"}; a.insert(a.end(), files.begin(), files.end());
    put(d + "/in", "");
    std::string in = d + "/in";
    auto heads = [](const std::string &s) {   // without the context lines, which depend on how much was read ahead
        std::string o; size_t b = 0; unsigned k = 0;
        while (b < s.size()) { size_t e = s.find('\n', b); if (e == std::string::npos) e = s.size(); if (k++ % 3 == 0) o += s.substr(b, e - b) + "\n"; b = e + 1; }
        return o;
    };
    Ran whole = lint(a, in);
    a.insert(a.begin(), "--stream");
    Ran stream = lint(a, in);
    if (whole.crashed || stream.crashed) ctx.fail("the tool crashed: " + whole.err + stream.err);
    std::string e1; bool bad = false;
    for (auto &f : files) { Ran r = lint({f}, in); e1 += r.err; bad |= r.status != 0; if ((r.status != 0) != !r.err.empty()) ctx.fail(strf("exit status %d with reports: ", r.status) + r.err); }
    if (heads(whole.err) != heads(stream.err)) ctx.fail("stream mode " + first_diff(heads(whole.err), heads(stream.err)));
    if (heads(whole.err) != heads(e1)) ctx.fail("files one by one " + first_diff(heads(e1), heads(whole.err)));
    if ((whole.status != 0) != bad || (stream.status != 0) != bad) ctx.fail(strf("exit status %d, in stream mode %d, although one by one %s", whole.status, stream.status, bad ? "there were errors" : "there were none"));
}
// Output that cannot be written
PROPERTY("C23", no_space, 1) {
    std::string d = dir(), t = text(src);
    put(d + "/in", t);
    unsigned k = src.below(4);
    std::vector<std::string> args; if (k & 1) args.push_back("-a"); if (k & 2) args.push_back("--stream");
    ctx.text(strf("%s%s", k & 1 ? "-a " : "", k & 2 ? "--stream " : "") + pbt::quote(t)); ctx.nontrivial();
    Ran ok = lint(args, d + "/in"), r = lint(args, d + "/in", nullptr, nullptr, true);
    if (ok.crashed || r.crashed) ctx.fail("the tool crashed: " + ok.err + r.err);
    if (ok.out.empty()) {
        if (r.status != ok.status || r.err != ok.err) ctx.fail(strf("nothing to write, but status %d (%d): ", r.status, ok.status) + first_diff(ok.err, r.err));
    } else if (!r.status || r.err.empty()) ctx.fail(strf("%zu bytes of output could not be written, but the exit status is %d: ", ok.out.size(), r.status) + r.err);
    ctx.cls(ok.out.empty() ? "nothing to write" : "output lost");
}
PROPERTY("C23", help, 1) {
    static const char *const A[] = {"--help", "-h", "--version", "--nothing", "-x", "--output-width"};
    unsigned k = src.below(6); std::vector<std::string> args;
    if (src.coin()) args.push_back("-a");
    args.push_back(A[k]);
    if (src.coin() && k != 5) args.push_back(dir() + "/missing");
    put(dir() + "/in", "return 1;"); ctx.text(A[k]); ctx.nontrivial();
    Ran r = lint(args, dir() + "/in");
    if (r.crashed) ctx.fail("the tool crashed");
    if (k < 2) { if (r.status || r.out.find("usage: ") || !r.err.empty()) ctx.fail("no help on standard output: " + r.out + r.err); }
    else if (k == 2) { if (r.status || r.out.find(std::string("libcypher-parser: ") + libcypher_parser_version() + "\n") == std::string::npos || !r.err.empty()) ctx.fail("no version on standard output: " + r.out + r.err); }
    else if (!r.status || !r.out.empty() || r.err.find("usage: ") == std::string::npos) ctx.fail(strf("status %d for a wrong option: ", r.status) + r.out + r.err);
}
