#include "conc.h"
#include "eckit/container/Queue.h"
#include "main_init.h"

using namespace vt;

struct Interrupted : public std::exception {
    const char* what() const noexcept override { return "interrupted"; }
};

struct Q : ConcObj {
    eckit::Queue<long> q;
    Q(long max) : q(max) {}
    std::string apply(const Op& o, int) override {
        try {
            if (o.name == "push") {
                return "[\"ok\"," + jnum(q.push(o.i(0))) + "]";
            }
            if (o.name == "emplace") {
                return "[\"ok\"," + jnum(q.emplace(o.i(0))) + "]";
            }
            if (o.name == "pop") {
                long e = -7;
                long n = q.pop(e);
                return n < 0 ? "[\"closed\"]" : "[\"ok\",[" + jnum(e) + "," + jnum(n) + "]]";
            }
            if (o.name == "popn") {
                std::vector<long> v(o.i(0), -7);
                long n = q.pop(v);
                if (n < 0) {
                    return "[\"closed\"]";
                }
                v.resize(std::min<size_t>(n, v.size()));
                return "[\"ok\"," + jnums(v) + "]";
            }
            if (o.name == "close") {
                q.close();
                return "[\"ok\"]";
            }
            if (o.name == "closed") {
                return "[\"ok\"," + jbool(q.closed()) + "]";
            }
            if (o.name == "empty") {
                return "[\"ok\"," + jbool(q.empty()) + "]";
            }
            if (o.name == "resize") {
                q.resize(o.i(0));
                return "[\"ok\"]";
            }
            if (o.name == "interrupt") {
                q.interrupt(std::make_exception_ptr(Interrupted()));
                return "[\"ok\"]";
            }
        }
        catch (Interrupted&) {
            return "[\"intr\"]";
        }
        catch (eckit::Exception&) {
            return "[\"exc\"]";
        }
        return "[\"badop\"]";
    }
};

int main(int argc, char** argv) {
    vt_main();
    auto make = [](const Script& s) -> ConcObj* { return new Q(s.ci(0)); };
    return schedmain(argc, argv, [&](const Script& s) { runConc(s, make); });
}
