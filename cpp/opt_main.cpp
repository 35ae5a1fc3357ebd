#include "opt_check.hpp"
#include <map>
namespace oc
{
static std::map<std::string, void (*)(Ctx &)> &all() { static std::map<std::string, void (*)(Ctx &)> m; return m; }
Reg::Reg(const char *name, void (*fn)(Ctx &)) { all()[name] = fn; }
}
int main()
{
    int bad = 0;
    for (auto &[n, f] : oc::all())
    {
        oc::Ctx c;
        c.project = n;
        try { f(c); }
        catch (const std::exception &e) { c.check(false, std::string("exception: ") + e.what()); }
        bad += c.failures;
        std::printf("DONE %s %d\n", n.c_str(), c.cases);
    }
    return bad ? 1 : 0;
}
