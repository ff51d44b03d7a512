// Q02: queries over tables in memory
#include <cmath>
#include <cstring>
#include <algorithm>
#include "common.h"
#include "main_init.h"
#include "eckit/sql/SQLColumn.h"
#include "eckit/sql/SQLDatabase.h"
#include "eckit/sql/SQLOutput.h"
#include "eckit/sql/SQLParser.h"
#include "eckit/sql/SQLSelect.h"
#include "eckit/sql/SQLSession.h"
#include "eckit/sql/SQLStatement.h"
#include "eckit/sql/SQLTable.h"
#include "eckit/sql/expression/SQLExpressions.h"
#include "eckit/parser/JSONParser.h"
#include "eckit/value/Value.h"
using namespace vt;
using namespace eckit;
using namespace eckit::sql;

static const std::vector<std::string> TEXTS{"", "a", "ab", "abcdefghijkl", "abcdefghijklm", "b", "c d"};
static const double MI = 2147483647, MR = -2147483647;
struct Cell {
    bool missing;
    long v;
};
struct Data {
    std::vector<std::vector<Cell>> rows;
    bool moves;  // other widths after the first row
};
static Data data(const Value& v, bool moves) {
    Data d{{}, moves};
    for (size_t i = 0; i < v.size(); i++) {
        d.rows.emplace_back();
        for (size_t j = 0; j < v[i].size(); j++) {
            Value c = v[i][j];
            d.rows.back().push_back(c.size() ? Cell{false, long((long long)c[0])} : Cell{true, 0});
        }
    }
    return d;
}

struct Table : SQLTable {
    Data data;
    std::vector<std::string> types;
    Table(SQLDatabase& db, const std::string& name, Data d, std::vector<std::pair<std::string, std::string>> cols) : SQLTable(db, "/" + name, name), data(d) {
        int i = 0;
        for (auto& c : cols) {
            types.push_back(c.second);
            addColumn(c.first, i++, c.second == "string" ? type::SQLType::lookup("string", data.moves ? 1 : 2) : type::SQLType::lookup(c.second), c.second != "string", missing(c.second));
        }
    }
    static double missing(const std::string& t) { return t == "integer" ? MI : t == "string" ? 0 : MR; }
    struct It : SQLTableIterator {
        const Table& t;
        std::vector<size_t> cols;
        std::function<void(SQLTableIterator&)> cb;
        std::vector<double> buf;
        size_t at = 0;
        bool wide;
        It(const Table& t, std::vector<size_t> c, std::function<void(SQLTableIterator&)> cb) : t(t), cols(c), cb(cb), buf(40), wide(!t.data.moves) {}
        void rewind() override { at = 0; }
        bool next() override {
            if (at >= t.data.rows.size()) return false;
            if (at == 0 && t.data.moves && !wide) {
                wide = true;
                cb(*this);
            }
            std::vector<size_t> o = columnOffsets();
            for (size_t i = 0; i < cols.size(); i++) {
                const Cell& c  = t.data.rows[at][cols[i]];
                const auto& ty = t.types[cols[i]];
                if (ty == "string") {
                    memset(&buf[o[i]], 0, 16);
                    memcpy(&buf[o[i]], TEXTS.at(c.v).data(), TEXTS[c.v].size());
                }
                else buf[o[i]] = c.missing ? missing(ty) : c.v;
            }
            at++;
            return true;
        }
        std::vector<size_t> columnOffsets() const override {
            std::vector<size_t> o;
            size_t p = wide && t.data.moves ? 3 : 0;
            for (auto c : cols) {
                o.push_back(p);
                p += t.types[c] == "string" && wide ? 2 : 1;
            }
            return o;
        }
        std::vector<size_t> doublesDataSizes() const override {
            std::vector<size_t> o;
            for (auto c : cols) o.push_back(t.types[c] == "string" && wide ? 2 : 1);
            return o;
        }
        std::vector<char> columnsHaveMissing() const override {
            std::vector<char> o;
            for (auto c : cols) o.push_back(t.types[c] != "string");
            return o;
        }
        std::vector<double> missingValues() const override {
            std::vector<double> o;
            for (auto c : cols) o.push_back(missing(t.types[c]));
            return o;
        }
        const double* data() const override { return buf.data(); }
    };
    SQLTableIterator* iterator(const std::vector<std::reference_wrapper<const SQLColumn>>& columns, std::function<void(SQLTableIterator&)> cb) const override {
        std::vector<size_t> c;
        for (auto& x : columns) c.push_back(x.get().index());
        return new It(*this, c, cb);
    }
};

struct Rows : SQLOutput {
    std::vector<std::vector<std::string>> rows, done;
    void print(std::ostream& s) const override { s << "Out"; }
    void cleanup(SQLSelect&) override {}
    void reset() override { rows.clear(); }
    void flush() override { done = rows; }
    bool output(const expression::Expressions& r) override {
        rows.emplace_back();
        for (auto& e : r) e->output(*this);
        return true;
    }
    void prepare(SQLSelect&) override {}
    void num(double d, bool missing) { rows.back().push_back(missing ? "[]" : "[" + std::to_string(std::llround(d * 176400)) + "]"); }
    void outputReal(double d, bool m) override { num(d, m); }
    void outputDouble(double d, bool m) override { num(d, m); }
    void outputInt(double d, bool m) override { num(d, m); }
    void outputUnsignedInt(double d, bool m) override { num(d, m); }
    void outputBitfield(double d, bool m) override { num(d, m); }
    void outputString(const char* s, size_t l, bool m) override {
        std::string x = m ? "" : std::string(s, l);
        auto it       = std::find(TEXTS.begin(), TEXTS.end(), x);
        rows.back().push_back(m ? "[]" : it == TEXTS.end() ? "[" + jstr(x) + "]" : "[" + std::to_string(it - TEXTS.begin()) + "]");
    }
    unsigned long long count() override { return rows.size(); }
};

static bool less(const std::vector<std::string>& a, const std::vector<std::string>& b) {
    for (size_t i = 0; i < a.size() && i < b.size(); i++) {
        if (a[i] == b[i]) continue;
        if (a[i] == "[]" || b[i] == "[]") return a[i] == "[]";
        return atoll(a[i].c_str() + 1) < atoll(b[i].c_str() + 1);
    }
    return false;
}

static std::string show(std::vector<std::vector<std::string>> r, bool sort) {
    if (sort) std::stable_sort(r.begin(), r.end(), less);
    return "[\"ok\"," + jlist(r, [](const std::vector<std::string>& x) { return jlist(x, [](const std::string& s) { return s; }); }) + "]";
}

static std::string select(const Op& o) {
    // rows of t, rows of u, sort, sql, how
    std::string sql = o.s(3);
    int how         = o.i(4);
    bool sort       = o.i(2);
    std::unique_ptr<SQLOutput> out(new Rows);
    Rows& res = static_cast<Rows&>(*out);
    SQLSession session(std::move(out));
    SQLDatabase& db(session.currentDatabase());
    db.addTable(new Table(db, "t", data(JSONParser::decodeString(o.s(0)), how & 1), {{"a", "integer"}, {"b", "real"}, {"s", "string"}}));
    db.addTable(new Table(db, "u", data(JSONParser::decodeString(o.s(1)), how & 2), {{"c", "integer"}, {"d", "double"}}));
    SQLParser().parseString(session, sql);
    session.statement().execute();
    std::string r = show(res.done, sort);
    for (int i = 0; i < 2; i++) {
        session.statement().execute();
        std::string again = show(res.done, sort);
        if (again != r) return "[\"again\"," + r + "," + again + "]";
    }
    return r;
}

static void run(const Script& s) {
    for (auto& o : s.ops) {
        std::string r;
        try {
            r = select(o);
        }
        catch (std::exception& e) {
            r = "[\"exc\"]";
            if (getenv("VT_VERBOSE")) fprintf(stderr, "%s\n", e.what());
        }
        put(r);
    }
}

int main(int argc, char** argv) {
    vt_main();
    return seqmain(argc, argv, run);
}
