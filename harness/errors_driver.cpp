// Replays behaviours of Errors.tla; built once per build mode.
#include "driver.hpp"
#include "NeoFOAM/core/error.hpp"
#include <sys/wait.h>
static std::streambuf* realErr;
static int evals = 0;
static int lhs(int v) { evals++; return v; }

// every macro in a plain statement and as the unbraced branch of an if with an else
#define PLACE(STMT)                                                                                \
    if (where == "plain") { STMT; }                                                                \
    else { if (where == "taken") STMT; else other = true; }
static bool run(const std::string& m, int a, int b, const std::string& where)
{
    bool other = false;
    if (m == "ASSERT") { PLACE(NF_ASSERT(lhs(a) == b, "the message " << a << "/" << b)) }
    else if (m == "ASSERT_THROW") { PLACE(NF_ASSERT_THROW(lhs(a) == b, "the message " << a << "/" << b)) }
    else if (m == "DEBUG_ASSERT") { PLACE(NF_DEBUG_ASSERT(lhs(a) == b, "the message " << a << "/" << b)) }
    else if (m == "DEBUG_ASSERT_THROW") { PLACE(NF_DEBUG_ASSERT_THROW(lhs(a) == b, "the message " << a << "/" << b)) }
    // the operands are expressions of low precedence
    else if (m == "ASSERT_EQUAL") { PLACE(NF_ASSERT_EQUAL(lhs(a) & 255, b | 0)) }
    else if (m == "ASSERT_EQUAL_THROW") { PLACE(NF_ASSERT_EQUAL_THROW(lhs(a) & 255, b | 0)) }
    else if (m == "DEBUG_ASSERT_EQUAL") { PLACE(NF_DEBUG_ASSERT_EQUAL(lhs(a) & 255, b | 0)) }
    else if (m == "DEBUG_ASSERT_EQUAL_THROW") { PLACE(NF_DEBUG_ASSERT_EQUAL_THROW(lhs(a) & 255, b | 0)) }
    else if (m == "THROW") { PLACE(NF_THROW("the message " + std::to_string(a) + "/" + std::to_string(b))) }
    else if (m == "ERROR_EXIT") { PLACE(NF_ERROR_EXIT("the message " << a << "/" << b)) }
    else std::abort();
    return other;
}
static bool has(const std::string& t, const std::string& w) { return t.find(w) != std::string::npos; }
static std::string judge(const std::string& text, const std::string& m, const std::string& a, const std::string& b)
{
    std::string miss;
    if (has(m, "EQUAL"))
    {
        if (!has(text, "Expected " + b)) miss += " expected value";
        if (!has(text, "got " + a)) miss += " actual value";
    }
    else if (!has(text, "the message " + a + "/" + b)) miss += " message";
    if (has(m, "ASSERT") && !has(m, "EQUAL") && !has(text, "lhs(a) == b")) miss += " condition";
    if (!has(text, "errors_driver.cpp")) miss += " file";
#ifdef NF_DEBUG_MESSAGING
    if (!has(text, "<stack trace>")) miss += " trace";
#endif
    return miss.empty() ? " with message" : ", message lacks" + miss;
}
struct S : Session
{
    bool alive = true;
    J step(const J& op) override
    {
        const J& a = op["a"];
        std::string m = a[0].str(), w = a[3].str(), sa = a[1].str(), sb = a[2].str();
        int x = std::stoi(sa), y = std::stoi(sb);
        int fd[2];
        if (pipe(fd)) std::abort();
        pid_t pid = fork();
        if (pid == 0)
        {
            std::cerr.rdbuf(realErr);
            dup2(fd[1], 2);
            evals = 0;
            std::string out;
            try
            {
                bool other = run(m, x, y, w);
                out = (other == (w == "skipped")) ? "PASSED" : "PASSED the wrong branch";
            }
            catch (const NeoFOAM::NeoFOAMException& e)
            {
                const std::exception& base = e;
                out = std::string("THREW ") + base.what();
            }
            catch (...) { out = "OTHER"; }
            out = "\n@" + std::to_string(evals) + "@" + out;
            if (write(fd[1], out.data(), out.size()) < 0) _exit(79);
            _exit(77);
        }
        close(fd[1]);
        std::string text;
        char buf[4096];
        ssize_t n;
        while ((n = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, static_cast<std::size_t>(n));
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
        {
            auto p = text.find("\n@"), q = text.find("@", p + 2);
            std::string ev = text.substr(p + 2, q - p - 2), body = text.substr(q + 1);
            if (body == "PASSED") return ret(p == 0 ? "" : "passed but wrote a message", tv("str", ev));
            // the message of a failed comparison may look at the operands again
            if (has(m, "EQUAL") && has(body, "THREW") && ev != "0") ev = "1";
            if (has(body, "THREW")) return ret("throws" + judge(body, m, sa, sb), tv("str", ev));
            return ret(body, tv("str", ev));
        }
        alive = false;
        if (!WIFEXITED(st)) return ret("killed by a signal", tv("str", "1"));
        // the number of evaluations dies with the process; a failing check evaluates once
        std::string ev = m == "ERROR_EXIT" ? "0" : "1";
        return ret("exit " + std::to_string(WEXITSTATUS(st)) + judge(text, m, sa, sb), tv("str", ev));
    }
    J obs() override { J o = J::obj(); o.set("alive", alive); return o; }
};
int main()
{
    realErr = std::cerr.rdbuf();
    return runDriver([&] { return std::make_unique<S>(); });
}
