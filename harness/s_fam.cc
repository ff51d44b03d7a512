// FAM list and map, sequential histories
#include "fam_obj.h"
#include "main_init.h"
int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, [](const Script& s) {
        if (s.cs(0) == "list") { FamL f; for (auto& o : s.ops) put(f.apply(o, 0)); }
        else { FamM f; for (auto& o : s.ops) put(f.apply(o, 0)); }
    });
}
