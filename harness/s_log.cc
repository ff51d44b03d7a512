// E01: channels of logs and their targets
#include "common.h"
#include "main_init.h"
#include "eckit/log/CallbackTarget.h"
#include "eckit/log/Channel.h"
#include "eckit/log/FileTarget.h"
#include "eckit/log/OStreamTarget.h"
#include "eckit/log/PrefixTarget.h"
using namespace vt;
using namespace eckit;

static std::string show(const std::string& t) {
    std::string r = "[";
    for (size_t i = 0; i < t.size();) {
        size_t j = i;
        while (j < t.size() && t[j] == t[i]) j++;
        r += std::string(i ? "," : "") + "[" + std::to_string(int((unsigned char)t[i])) + "," + std::to_string(j - i) + "]";
        i = j;
    }
    return r + "]";
}

struct Receiver {
    std::ostringstream text;
    std::string lines, path;
    std::string got() const {
        if (path.size()) {
            std::ifstream in(path);
            std::stringstream ss;
            ss << in.rdbuf();
            return ss.str();
        }
        return text.str() + lines;
    }
};
static void line(void* ctxt, const char* l) {
    static_cast<Receiver*>(ctxt)->lines += std::string(l) + "\n";
}

static void run(const Script& s) {
    std::map<long, Receiver> rec;
    LogTarget* kept[3] = {nullptr, new CallbackTarget(line, &rec[1]), new PrefixTarget("P", new OStreamTarget(rec[2].text))};
    kept[1]->attach();
    kept[2]->attach();
    std::unique_ptr<Channel> chan[3];
    chan[1].reset(new Channel);
    chan[2].reset(new Channel);
    std::string dir = scratch() + "/logXXXXXX";
    if (!mkdtemp(&dir[0])) return;
    auto target = [&](const std::string& k, long i) -> LogTarget* {
        if (k == "kept") return kept[i];
        if (k == "cb") return new CallbackTarget(line, &rec[i]);
        if (k == "fl") return new FileTarget(rec[i].path = dir + "/log" + std::to_string(i), i % 3 ? 4096 : 0);
        return new OStreamTarget(rec[i].text);
    };
    static const char* spaces[] = {"", " ", "  ", "   "};
    long n = 0;
    for (auto& o : s.ops) {
        std::string r = "[\"ok\"]";
        try {
            Channel* c = o.name == "get" ? nullptr : chan[o.i(0)].get();
            const std::string& k = o.s(1);
            long i = o.i(2);
            if (o.name == "write") {
                std::string t;
                auto v = o.ints(1);
                for (size_t j = 0; j + 1 < v.size(); j += 2) t += std::string(v[j + 1], char(v[j]));
                switch (o.i(2)) {
                    case 0: *c << t; break;
                    case 1: for (char x : t) c->put(x); break;
                    case 2: for (size_t p = 0, l = 1; p < t.size(); p += l, l = l * 3 % 1999 + 1) c->write(t.data() + p, std::min(l, t.size() - p)); break;
                    default: for (char x : t) *c << x;
                }
            }
            else if (o.name == "flush") c->flush();
            else if (o.name == "set" || o.name == "add") {
                bool set = o.name == "set", direct = n++ & 1;
                if (k == "cb" && direct) set ? c->setCallback(line, &rec[i]) : c->addCallback(line, &rec[i]);
                else if (k == "st" && direct) set ? c->setStream(rec[i].text) : c->addStream(rec[i].text);
                else if (k == "fl" && direct) {
                    rec[i].path = dir + "/log" + std::to_string(i);
                    set ? c->setFile(rec[i].path) : c->addFile(rec[i].path);
                }
                else set ? c->setTarget(target(k, i)) : c->addTarget(target(k, i));
            }
            else if (o.name == "setprefix") c->setTarget(new PrefixTarget(std::string(1, char(80 + o.i(3))), target(k, i)));
            else if (o.name == "addprefix") c->addTarget(new PrefixTarget(std::string(1, char(80 + o.i(3))), target(k, i)));
            else if (o.name == "indent") c->indent(spaces[o.i(1)]);
            else if (o.name == "unindent") c->unindent();
            else if (o.name == "reset") c->reset();
            else if (o.name == "destroy") {
                chan[o.i(0)].reset();
                chan[o.i(0)].reset(new Channel);
            }
            else if (o.name == "active") {
                bool a = bool(*c);
                if (!*c == a) throw std::runtime_error("active");
                r = a ? "[\"ok\",1]" : "[\"ok\",0]";
            }
            else if (o.name == "get") r = "[\"ok\"," + show(rec[o.i(0)].got()) + "]";
            else r = "[\"unknown\"]";
        }
        catch (std::exception& e) {
            r = "[\"exc\"]";
        }
        put(r);
    }
    chan[1].reset();
    chan[2].reset();
    kept[1]->detach();
    kept[2]->detach();
    for (auto& x : rec) unlink(x.second.path.c_str());
    rmdir(dir.c_str());
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, run);
}
