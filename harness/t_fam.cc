// FAM list and map, concurrent clients (every access to the fabric memory is a scheduling point)
#include "conc.h"
#include "fam_obj.h"
#include "main_init.h"
struct CO : ConcObj {
    std::unique_ptr<FamL> l;
    std::unique_ptr<FamM> m;
    CO(const Script& s) {
        fammock::point() = [] { vsched::yield_hint(); };
        if (s.cs(0) == "list") l.reset(new FamL);
        else m.reset(new FamM);
    }
    std::string apply(const Op& o, int t) override { return l ? l->apply(o, t) : m->apply(o, t); }
};
int main(int argc, char** argv) {
    vt_main();
    auto make = [](const Script& s) -> ConcObj* { return new CO(s); };
    return schedmain(argc, argv, [&](const Script& s) { runConc(s, make); });
}
