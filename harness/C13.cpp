// C13: the datastore is a table of typed columns under any history of calls.
// modules: data_management csv
#include "common.hpp"
#include <cerrno>
#include <memory>
const char *sim_property = "C13";
const char *sim_rule = "a run counts when a drawn history of datastore calls (loads by column, by complete and partial rows and from "
                       "CSV, concatenations, labels, selections, removals, element updates, extractions, refused calls, failing "
                       "allocations) was executed on up to three stores and every status and every cell was compared with the "
                       "model; distinct = distinct event hashes";
const char *sim_real_components = "datastore, interval maps and sets, blocks, CSV reader, option registry, error stack: all real code from /repo";
const char *sim_stub_components = "allocator (fails on command), file system calls (scratch directory)";
void sim_warmup() {}

enum Type { TI, TD, TS, TB, TC };
static const char *tname[] = {"int", "real_d", "real_s", "uint8", "str"};
struct Cell {
    i64 i = 0;
    double d = 0;
    std::string s;
};
struct Col {
    Type t;
    std::vector<Cell> v;
};
struct Sel {
    std::set<da_int> r, c;
};
struct Model {
    da_int m = 0;
    std::vector<Col> cols;
    std::vector<std::pair<da_int, da_int>> iv; // column intervals
    bool missing = false;
    da_int start = 0, rows = 0; // partial row block
    std::map<std::string, Sel> sel;
    std::vector<std::string> label;
    da_int n() const { return (da_int)cols.size(); }
    const std::pair<da_int, da_int> &at(da_int j) const {
        for (auto &p : iv)
            if (p.first <= j && j <= p.second)
                return p;
        sim::give_up("model interval");
        return iv[0];
    }
};
template <typename T> struct tr;
template <> struct tr<da_int> {
    static constexpr Type t = TI;
    static Cell make(sim::Rng &r) {
        Cell c;
        c.i = r.below(12) == 0 ? std::numeric_limits<da_int>::max() : r.below(25) == 0 ? std::numeric_limits<da_int>::min() : r.range(-99, 99);
        return c;
    }
    static da_int get(const Cell &c) { return (da_int)c.i; }
    static bool same(const Cell &c, da_int v) { return c.i == v; }
};
template <> struct tr<uint8_t> {
    static constexpr Type t = TB;
    static Cell make(sim::Rng &r) {
        Cell c;
        c.i = r.below(12) == 0 ? 255 : (i64)r.below(3);
        return c;
    }
    static uint8_t get(const Cell &c) { return (uint8_t)c.i; }
    static bool same(const Cell &c, uint8_t v) { return c.i == v; }
};
static double rnd(sim::Rng &r) {
    switch (r.below(16)) {
    case 0:
        return std::numeric_limits<double>::quiet_NaN();
    case 1:
        return std::numeric_limits<double>::infinity();
    case 2:
        return -0.0;
    default:
        return (double)r.range(-500, 500) / 8;
    }
}
template <> struct tr<double> {
    static constexpr Type t = TD;
    static Cell make(sim::Rng &r) {
        Cell c;
        c.d = rnd(r);
        return c;
    }
    static double get(const Cell &c) { return c.d; }
    static bool same(const Cell &c, double v) { return std::isnan(c.d) ? std::isnan(v) : bits(c.d) == bits(v); }
};
template <> struct tr<float> {
    static constexpr Type t = TS;
    static Cell make(sim::Rng &r) {
        Cell c;
        c.d = rnd(r);
        return c;
    }
    static float get(const Cell &c) { return (float)c.d; }
    static bool same(const Cell &c, float v) { return std::isnan(c.d) ? std::isnan(v) : bits((float)c.d) == bits(v); }
};
static bool is_missing(Type t, const Cell &c) {
    switch (t) {
    case TI:
        return c.i == std::numeric_limits<da_int>::max();
    case TB:
        return c.i == 255;
    case TD:
    case TS:
        return std::isnan(c.d);
    default:
        return false;
    }
}
static std::string show(Type t, const Cell &c) {
    return t == TC ? "'" + c.s + "'" : t == TD || t == TS ? std::to_string(c.d) : std::to_string(c.i);
}
template <typename F> static da_status call(const char *what, F f) {
    sim::Api a(what);
    return f();
}

struct Store {
    da_datastore s = nullptr;
    Model m;
    int id = 0;
    ~Store() {
        if (s)
            call("da_datastore_destroy", [&] { return da_datastore_destroy(&s), da_status_success; });
    }
};
struct Run {
    std::vector<std::unique_ptr<Store>> st;
    std::vector<std::shared_ptr<void>> keep; // user arrays the stores point to
    sim::Rng rr{"cells"};
    bool faults;
    int fresh = 0;

    // status of a call under a possible allocation fault: true when it did what it should (the model is to
    // be changed), false when it refused as expected
    template <typename F> bool go(Store &s, const char *what, bool ok, F f, bool warn_ok = false) {
        bool inject = faults && chance("fault", 0.15);
        if (inject)
            sim::fail_alloc(pick("nth", 1, 6), sim::one_of<i64>("count", {1, 1, 3, 1000}));
        da_status r = call(what, f);
        i64 fired = sim::alloc_faults_fired();
        sim::fail_alloc(0, 0);
        if (getenv("SIM_VERBOSE"))
            fprintf(stderr, "store %d %s expect %d: %d%s\n", s.id, what, (int)ok, (int)r, fired ? " fault" : "");
        if (inject && fired > 0) {
            probe("fault_fired");
            if (r != da_status_success && !(warn_ok && r == da_status_full_extraction)) {
                if (ok && r != da_status_memory_error)
                    failf((std::string(what) + ":memstatus").c_str(), "%s: status %d after a failed allocation", what, (int)r);
                check(s, what);
                return false;
            }
            // it coped: falls through to the ordinary verdict
        }
        if (ok && r != da_status_success && !(warn_ok && r == da_status_full_extraction))
            failf((std::string(what) + ":refused").c_str(), "%s: valid call on store %d refused with status %d", what, s.id, (int)r);
        if (!ok && r == da_status_success)
            failf((std::string(what) + ":accepted").c_str(), "%s: invalid call on store %d accepted", what, s.id);
        if (!ok) {
            probe("refused");
            check(s, what);
        }
        return ok;
    }
    // ---- loads ----
    template <typename T> void load(Store &s) {
        Model &m = s.m;
        bool row = chance("row", m.n() ? 0.6 : 0.2);
        da_order o = chance("row_major", 0.5) ? row_major : column_major;
        bool copy = chance("copy", 0.5);
        da_int r, c;
        Type t = tr<T>::t;
        if (row && m.n()) {
            da_int s0 = m.missing ? m.start : 0;
            r = m.missing ? (chance("other_rows", 0.08) ? (da_int)pick("rows", 0, 5) : m.rows) : (da_int)pick("rows", chance("none", 0.05) ? 0 : 1, 5);
            // a number of whole intervals, sometimes cut
            c = 0;
            da_int j = s0;
            int k = (int)pick("intervals", 1, 3);
            while (k-- > 0 && j < m.n() && m.cols[j].t == t) {
                c += m.at(j).second - j + 1;
                j = m.at(j).second + 1;
            }
            if (c == 0)
                c = m.at(s0).second - s0 + 1;
            if (chance("cut", 0.1))
                c += pick("by", -2, 2);
        } else {
            r = m.m && !m.missing ? m.m : m.m ? m.m : (da_int)pick("rows", 1, 7);
            if (chance("other_rows", 0.06))
                r += pick("by", -2, 2);
            c = (da_int)pick("cols", chance("none", 0.05) ? 0 : 1, 3);
        }
        if (r > 200 || m.n() > 40)
            return;
        // what should happen
        bool ok = r > 0 && c > 0, as_col = !row || m.n() == 0;
        if (as_col)
            ok = ok && !m.missing && (m.m == 0 || m.m == r);
        else {
            da_int s0 = m.missing ? m.start : 0;
            ok = ok && s0 + c <= m.n() && (!m.missing || r == m.rows);
            for (da_int j = s0; ok && j < s0 + c; j = m.at(j).second + 1)
                ok = m.cols[j].t == t && m.at(j).second < s0 + c;
        }
        bool null = chance("null", 0.03);
        if (null)
            ok = false;
        da_int R = std::max<da_int>(r, 0), C = std::max<da_int>(c, 0);
        std::vector<std::vector<Cell>> cells(C, std::vector<Cell>(R));
        auto b = std::make_shared<Buf<T>>((size_t)R * C);
        for (da_int j = 0; j < C; j++)
            for (da_int i = 0; i < R; i++) {
                cells[j][i] = tr<T>::make(rr);
                (*b)[o == column_major ? (size_t)j * R + i : (size_t)i * C + j] = tr<T>::get(cells[j][i]);
            }
        if (copy)
            b->input();
        T *p = null ? nullptr : b->p;
        std::string what = std::string(row ? "da_data_load_row_" : "da_data_load_col_") + tname[t];
        bool did = go(s, what.c_str(), ok, [&] {
            return row ? da_data_load_row(s.s, r, c, p, o, (da_int)copy) : da_data_load_col(s.s, r, c, p, o, (da_int)copy);
        });
        if (copy) { // the store has its own copy now
            b->writable();
            for (size_t i = 0; i < b->n; i++)
                (*b)[i] = T(77);
            b->drop();
        } else
            keep.push_back(b);
        if (did)
            loaded(s, t, as_col, cells, r, c);
    }
    void loaded(Store &s, Type t, bool as_col, const std::vector<std::vector<Cell>> &cells, da_int r, da_int c) {
        Model &m = s.m;
        if (as_col) {
            m.iv.push_back({m.n(), m.n() + c - 1});
            for (auto &v : cells)
                m.cols.push_back({t, v});
            m.label.resize(m.cols.size());
            m.m = r;
            probe("col_block");
        } else {
            da_int s0 = m.missing ? m.start : 0;
            for (da_int j = 0; j < c; j++)
                m.cols[s0 + j].v.insert(m.cols[s0 + j].v.end(), cells[j].begin(), cells[j].end());
            if (!m.missing)
                m.m += r;
            else
                probe("partial_rows");
            m.missing = s0 + c < m.n();
            m.start = m.missing ? s0 + c : 0;
            m.rows = m.missing ? r : 0;
            probe("row_block");
        }
    }
    void load_str(Store &s) {
        Model &m = s.m;
        bool row = chance("row", m.n() ? 0.5 : 0.2);
        da_order o = chance("row_major", 0.5) ? row_major : column_major;
        da_int r, c;
        if (row && m.n()) {
            da_int s0 = m.missing ? m.start : 0;
            r = m.missing ? m.rows : (da_int)pick("rows", 1, 4);
            c = m.at(s0).second - s0 + 1;
        } else {
            r = m.m ? m.m : (da_int)pick("rows", 1, 5);
            c = (da_int)pick("cols", 1, 2);
            if (chance("other_rows", 0.06))
                r += pick("by", -2, 2);
        }
        if (r > 200 || m.n() > 40)
            return;
        bool ok = r > 0, as_col = !row || m.n() == 0;
        if (as_col)
            ok = ok && !m.missing && (m.m == 0 || m.m == r);
        else
            ok = ok && m.cols[m.missing ? m.start : 0].t == TC;
        da_int R = std::max<da_int>(r, 0);
        std::vector<std::vector<Cell>> cells(c, std::vector<Cell>(R));
        std::vector<std::string> text(R * c);
        std::vector<const char *> p(R * c + 1);
        for (da_int j = 0; j < c; j++)
            for (da_int i = 0; i < R; i++) {
                std::string w = rr.below(6) == 0 ? "" : "w" + std::to_string(rr.range(0, 999)) + std::string((size_t)rr.below(30), 'y');
                size_t k = o == column_major ? (size_t)j * R + i : (size_t)i * c + j;
                cells[j][i].s = text[k] = w;
            }
        for (size_t k = 0; k < text.size(); k++)
            p[k] = text[k].c_str();
        if (go(s, row ? "da_data_load_row_str" : "da_data_load_col_str", ok,
               [&] { return row ? da_data_load_row_str(s.s, r, c, p.data(), o) : da_data_load_col_str(s.s, r, c, p.data(), o); }))
            loaded(s, TC, as_col, cells, r, c);
    }
    void csv(Store &s) {
        Model &m = s.m;
        bool ok = m.m == 0 && m.n() == 0;
        da_int R = (da_int)pick("rows", 1, 6), C = (da_int)pick("cols", 1, 5);
        bool head = chance("header", 0.5), single = chance("single_type", 0.3), rowm = chance("row_major_file", 0.3), integers = chance("int_as_float", 0.2);
        std::string f;
        if (head)
            for (da_int j = 0; j < C; j++)
                f += (j ? ",h" : "h") + std::to_string(j);
        if (head)
            f += "\n";
        std::vector<Col> cols(C);
        int st = (int)pick("type", 0, 2);
        for (da_int j = 0; j < C; j++)
            cols[j] = {single ? std::vector<Type>{TI, TD, TC}[st] : std::vector<Type>{TI, TD, TC}[pick("type", 0, 2)], {}};
        for (da_int i = 0; i < R; i++) {
            for (da_int j = 0; j < C; j++) {
                Cell c;
                std::string w;
                if (cols[j].t == TI)
                    c.i = rr.range(-999, 999), c.d = c.i, w = std::to_string(c.i);
                else if (cols[j].t == TD) {
                    i64 q = rr.range(-999, 999);
                    c.d = q / 8.0;
                    char b[40];
                    snprintf(b, sizeof b, "%.3f", c.d);
                    w = b;
                } else
                    c.s = w = "z" + std::to_string(rr.range(0, 99999)) + std::string((size_t)rr.below(20), 'k');
                cols[j].v.push_back(c);
                f += (j ? "," : "") + w;
            }
            f += "\n";
        }
        if (!single && integers)
            for (auto &c : cols)
                if (c.t == TI)
                    c.t = TD;
        std::string name = sim::scratch("t.csv");
        FILE *fp = fopen(name.c_str(), "wb");
        if (!fp || fwrite(f.data(), 1, f.size(), fp) != f.size() || fclose(fp))
            sim::give_up("cannot write the scratch file");
        OK("da_datastore_options_set_int", da_datastore_options_set_int(s.s, "use header row", head));
        OK("da_datastore_options_set_int", da_datastore_options_set_int(s.s, "integers as floats", integers));
        const char *kinds[] = {"integer", "double", "string"};
        OK("da_datastore_options_set_string", da_datastore_options_set_string(s.s, "datatype", single ? kinds[st] : "auto"));
        OK("da_datastore_options_set_string", da_datastore_options_set_string(s.s, "storage order", rowm && single ? "row-major" : "column-major"));
        bool torn = faults && chance("read_error", 0.1);
        if (torn) {
            sim::IoFaults io;
            io.read_fail_after = pick("after", 0, (i64)f.size() - 1);
            io.read_errno = EIO;
            sim::io_faults(io);
            sim::fault("read_error");
        }
        bool did = false;
        if (torn) {
            da_status r = call("da_data_load_from_csv", [&] { return da_data_load_from_csv(s.s, name.c_str()); });
            sim::io_clear();
            if (r == da_status_success)
                fail("csv:torn", "da_data_load_from_csv: success although the file could not be read");
            check(s, "da_data_load_from_csv");
        } else
            did = go(s, "da_data_load_from_csv", ok, [&] { return da_data_load_from_csv(s.s, name.c_str()); });
        if (!did)
            return;
        m.m = R;
        m.cols = cols;
        m.iv.clear();
        m.label.assign(C, "");
        for (da_int j = 0; j < C; j++) {
            if (head)
                m.label[j] = "h" + std::to_string(j);
            if (j && (single || cols[j].t == cols[j - 1].t))
                m.iv.back().second = j;
            else
                m.iv.push_back({j, j});
        }
        probe("csv");
    }
    // ---- the rest ----
    void bounds(const char *n, da_int dim, da_int &lo, da_int &hi) {
        lo = (da_int)pick((std::string(n) + "_lo").c_str(), 0, std::max<da_int>(dim - 1, 0));
        hi = (da_int)pick((std::string(n) + "_hi").c_str(), lo, std::max<da_int>(std::min<da_int>(dim - 1, lo + 4), lo));
        if (chance("bad_bounds", 0.05)) {
            switch (pick("how", 0, 3)) {
            case 0:
                lo = -1;
                break;
            case 1:
                hi = dim;
                break;
            case 2:
                hi = lo - 1;
                break;
            default:
                lo = hi = std::numeric_limits<da_int>::max();
            }
        }
    }
    static bool valid(da_int lo, da_int hi, da_int dim) { return lo >= 0 && lo <= hi && hi < dim; }
    std::string key() {
        if (chance("internal_key", 0.02))
            return "dainternal_";
        return std::string(1, (char)('a' + pick("key", 0, 3)));
    }
    void select(Store &s) {
        Model &m = s.m;
        std::string k = key();
        const char *kp = chance("null_key", 0.02) ? nullptr : k.c_str();
        bool okk = kp != nullptr && !m.missing;
        bool internal = k.size() > 1;
        da_int rl = 0, rh = 0, cl = 0, ch = 0;
        int what = (int)pick("select", 0, 5);
        if (what != 1)
            bounds("rows", m.m, rl, rh);
        if (what != 0)
            bounds("cols", m.n(), cl, ch);
        switch (what) {
        case 0:
            if (internal)
                return;
            if (go(s, "da_data_select_rows", okk && valid(rl, rh, m.m), [&] { return da_data_select_rows(s.s, kp, rl, rh); }))
                for (da_int i = rl; i <= rh; i++)
                    m.sel[k].r.insert(i);
            break;
        case 1:
            if (internal)
                return;
            if (go(s, "da_data_select_columns", okk && valid(cl, ch, m.n()), [&] { return da_data_select_columns(s.s, kp, cl, ch); }))
                for (da_int i = cl; i <= ch; i++)
                    m.sel[k].c.insert(i);
            break;
        case 2:
            if (internal)
                return;
            if (go(s, "da_data_select_slice", okk && valid(rl, rh, m.m) && valid(cl, ch, m.n()),
                   [&] { return da_data_select_slice(s.s, kp, rl, rh, cl, ch); })) {
                for (da_int i = rl; i <= rh; i++)
                    m.sel[k].r.insert(i);
                for (da_int i = cl; i <= ch; i++)
                    m.sel[k].c.insert(i);
            }
            break;
        case 3:
            if (go(s, "da_data_select_remove_rows", okk && valid(rl, rh, m.m) && m.sel.count(k),
                   [&] { return da_data_select_remove_rows(s.s, kp, rl, rh); }))
                for (da_int i = rl; i <= rh; i++)
                    m.sel[k].r.erase(i);
            break;
        case 4:
            if (go(s, "da_data_select_remove_columns", okk && valid(cl, ch, m.n()) && m.sel.count(k),
                   [&] { return da_data_select_remove_columns(s.s, kp, cl, ch); }))
                for (da_int i = cl; i <= ch; i++)
                    m.sel[k].c.erase(i);
            break;
        default: {
            if (internal)
                return;
            bool full = chance("full_rows", 0.5);
            if (go(s, "da_data_select_non_missing", okk && m.m > 0, [&] { return da_data_select_non_missing(s.s, kp, full); })) {
                Sel &q = m.sel[k];
                if (q.r.empty())
                    for (da_int i = 0; i < m.m; i++)
                        q.r.insert(i);
                for (auto it = q.r.begin(); it != q.r.end();) {
                    bool miss = false;
                    for (da_int j = 0; j < m.n(); j++)
                        if (full || q.c.empty() || q.c.count(j))
                            miss = miss || is_missing(m.cols[j].t, m.cols[j].v[*it]);
                    it = miss ? q.r.erase(it) : std::next(it);
                }
                probe("non_missing");
            }
        }
        }
    }
    template <typename T> void element(Store &s) {
        Model &m = s.m;
        da_int i = (da_int)pick("i", 0, std::max<da_int>(m.m - 1, 0)), j = (da_int)pick("j", 0, std::max<da_int>(m.n() - 1, 0));
        if (chance("bad_index", 0.06))
            (chance("bad_row", 0.5) ? i : j) = chance("negative", 0.5) ? -1 : chance("by_one", 0.5) ? m.m + m.n() : std::numeric_limits<da_int>::max();
        bool ok = i >= 0 && j >= 0 && i < m.m && j < m.n() && m.cols[j].t == tr<T>::t && i < (da_int)m.cols[j].v.size();
        if (chance("set", 0.6)) {
            Cell c = tr<T>::make(rr);
            if (go(s, (std::string("da_data_set_element_") + tname[tr<T>::t]).c_str(), ok,
                   [&] { return da_data_set_element(s.s, i, j, tr<T>::get(c)); })) {
                m.cols[j].v[i] = c;
                probe("set_element");
            }
        } else {
            T v = T(42);
            if (go(s, (std::string("da_data_get_element_") + tname[tr<T>::t]).c_str(), ok, [&] { return da_data_get_element(s.s, i, j, &v); })) {
                if (!tr<T>::same(m.cols[j].v[i], v))
                    failf("get_element", "da_data_get_element (%d,%d) returned %g, the table holds %s", (int)i, (int)j, (double)v,
                          show(m.cols[j].t, m.cols[j].v[i]).c_str());
            } else if (!faults && !(v == T(42)))
                fail("get_element:wrote", "da_data_get_element wrote its result although it failed");
        }
    }
    template <typename T> void extract(Store &s, const std::string &k) {
        Model &m = s.m;
        da_order o = chance("row_major", 0.5) ? row_major : column_major;
        std::vector<da_int> rows, cols;
        bool known = m.sel.count(k) > 0, all = m.sel.empty();
        Sel q = known ? m.sel[k] : Sel();
        for (da_int i = 0; i < m.m; i++)
            if (q.r.empty() || q.r.count(i))
                rows.push_back(i);
        for (da_int j = 0; j < m.n(); j++)
            if (q.c.empty() || q.c.count(j))
                cols.push_back(j);
        bool ok = !m.missing && m.m > 0 && m.n() > 0 && (known || all);
        for (da_int j : cols)
            ok = ok && m.cols[j].t == tr<T>::t;
        Mat<T> x((da_int)rows.size(), (da_int)cols.size(), o, (da_int)pick("pad", 0, 2));
        bool short_ld = chance("short_ld", 0.05);
        da_int ld = short_ld ? (o == column_major ? x.r : x.c) - 1 : x.ld;
        if (short_ld)
            ok = false;
        std::vector<T> before;
        for (da_int i = 0; i < x.r; i++)
            for (da_int j = 0; j < x.c; j++)
                x(i, j) = T(99);
        bool did = go(s, (std::string("da_data_extract_selection_") + tname[tr<T>::t]).c_str(), ok,
                      [&] { return da_data_extract_selection(s.s, k.c_str(), o, x.p(), ld); }, all);
        for (da_int i = 0; i < x.r; i++)
            for (da_int j = 0; j < x.c; j++)
                if (did ? !tr<T>::same(m.cols[cols[j]].v[rows[i]], x(i, j)) : !(x(i, j) == T(99)))
                    failf(did ? "extract" : "extract:wrote", "extract_selection '%s' (%s): entry (%d,%d), row %d column %d of the table: %g, expected %s",
                          k.c_str(), did ? "succeeded" : "failed", (int)i, (int)j, (int)rows[i], (int)cols[j], (double)x(i, j),
                          did ? show(m.cols[cols[j]].t, m.cols[cols[j]].v[rows[i]]).c_str() : "no change");
        if (did)
            probe(rows.size() < (size_t)m.m || cols.size() < m.cols.size() ? "extract_part" : "extract_all");
    }
    void labels(Store &s) {
        Model &m = s.m;
        std::string l = "l" + std::to_string(pick("label", 0, 5)) + (chance("long", 0.2) ? std::string(40, 'q') : "");
        if (chance("label_empty", 0.03))
            l = "";
        da_int j = (da_int)pick("j", 0, std::max<da_int>(m.n() - 1, 0));
        if (chance("bad_index", 0.05))
            j = chance("negative", 0.5) ? -1 : m.n();
        if (go(s, "da_data_label_column", j >= 0 && j < m.n(), [&] { return da_data_label_column(s.s, l.c_str(), j); }))
            m.label[j] = l;
    }
    void hconcat(size_t a, size_t b) {
        Store &s = *st[a], &t = *st[b];
        bool ok = a != b && s.m.m == t.m.m && !s.m.missing && !t.m.missing;
        if (a == b && chance("skip_self", 0.7))
            return;
        int idb = t.id;
        if (go(s, "da_data_hconcat", ok, [&] { return da_data_hconcat(&s.s, &t.s); })) {
            if (t.s != nullptr)
                fail("hconcat:kept", "da_data_hconcat: the second store is still there");
            da_int n0 = s.m.n();
            for (auto &c : t.m.cols)
                s.m.cols.push_back(c);
            for (auto &l : t.m.label)
                s.m.label.push_back(l);
            for (auto &p : t.m.iv)
                s.m.iv.push_back({p.first + n0, p.second + n0});
            if (chance("again", 0.1)) { // the second store is gone
                da_status r = call("da_data_hconcat", [&] { return da_data_hconcat(&s.s, &t.s); });
                if (r == da_status_success)
                    fail("hconcat:null", "da_data_hconcat with a destroyed store succeeded");
            }
            t.m = Model();
            OK("da_datastore_init", da_datastore_init(&t.s));
            t.id = idb + 10;
            probe("hconcat");
        } else if (&s != &t)
            check(t, "da_data_hconcat");
    }
    // ---- the whole table against the model ----
    template <typename T> void column(Store &s, da_int j, const char *after) {
        Model &m = s.m;
        Buf<T> b(m.m);
        for (da_int i = 0; i < m.m; i++)
            b[i] = T(13);
        da_status r = call("da_data_extract_column", [&] { return da_data_extract_column(s.s, j, m.m, b.p); });
        bool ok = !m.missing && m.cols[j].t == tr<T>::t;
        if ((r == da_status_success) != ok)
            failf("column:status", "after %s: extracting column %d of type %s as %s gives status %d", after, (int)j, tname[m.cols[j].t], tname[tr<T>::t], (int)r);
        for (da_int i = 0; i < m.m; i++)
            if (ok ? !tr<T>::same(m.cols[j].v[i], b[i]) : !(b[i] == T(13)))
                failf("column", "after %s: column %d row %d is %g, expected %s", after, (int)j, (int)i, (double)b[i], ok ? show(m.cols[j].t, m.cols[j].v[i]).c_str() : "no change");
    }
    template <typename T> void cell(Store &s, da_int i, da_int j, const char *after) {
        T v = T(0);
        da_status r = call("da_data_get_element", [&] { return da_data_get_element(s.s, i, j, &v); });
        auto &c = s.m.cols[j];
        bool have = i < (da_int)c.v.size();
        if (have ? r != da_status_success : r != da_status_missing_block)
            failf("cell:status", "after %s: element (%d,%d) gives status %d", after, (int)i, (int)j, (int)r);
        if (have && !tr<T>::same(c.v[i], v))
            failf("cell", "after %s: element (%d,%d) is %g, expected %s", after, (int)i, (int)j, (double)v, show(c.t, c.v[i]).c_str());
    }
    void check(Store &s, const char *after) {
        Model &m = s.m;
        da_int r = -5, c = -5;
        OK("da_data_get_n_rows", da_data_get_n_rows(s.s, &r));
        OK("da_data_get_n_cols", da_data_get_n_cols(s.s, &c));
        if (r != m.m || c != m.n())
            failf("dims", "after %s: store %d is %d x %d, expected %d x %d", after, s.id, (int)r, (int)c, (int)m.m, (int)m.n());
        for (da_int j = 0; j < c; j++) {
            if (m.missing) {
                for (da_int i = 0; i < r; i++)
                    switch (m.cols[j].t) {
                    case TI:
                        cell<da_int>(s, i, j, after);
                        break;
                    case TD:
                        cell<double>(s, i, j, after);
                        break;
                    case TS:
                        cell<float>(s, i, j, after);
                        break;
                    case TB:
                        cell<uint8_t>(s, i, j, after);
                        break;
                    default:;
                    }
            }
            switch (m.cols[j].t) {
            case TI:
                column<da_int>(s, j, after);
                break;
            case TD:
                column<double>(s, j, after);
                break;
            case TS:
                column<float>(s, j, after);
                break;
            case TB:
                column<uint8_t>(s, j, after);
                break;
            default: {
                std::vector<char *> b(r + 1, nullptr);
                da_status q = call("da_data_extract_column_str", [&] { return da_data_extract_column_str(s.s, j, r, b.data()); });
                if ((q == da_status_success) == m.missing)
                    failf("column:status", "after %s: extracting string column %d gives status %d", after, (int)j, (int)q);
                for (da_int i = 0; i < r && q == da_status_success; i++)
                    if (!b[i] || m.cols[j].v[i].s != b[i])
                        failf("column:str", "after %s: column %d row %d is '%s', expected '%s'", after, (int)j, (int)i, b[i] ? b[i] : "(null)", m.cols[j].v[i].s.c_str());
            }
            }
            // labels
            std::string &l = m.label[j];
            da_int sz = (da_int)l.size() + 1;
            Buf<char> lb(sz);
            if (!l.empty() && (i64)rr.below(8) == 0) { // too small
                da_int s2 = rr.below(2) ? sz - 1 : rr.below(2) ? 0 : -1;
                Buf<char> small(std::max<da_int>(s2, 1));
                da_int s3 = s2;
                da_status q = call("da_data_get_col_label", [&] { return da_data_get_col_label(s.s, j, &s3, small.p); });
                if (q == da_status_success || s3 != sz)
                    failf("label:size", "da_data_get_col_label with size %d for a label of %d characters: status %d, size returned %d", (int)s2, (int)sz, (int)q, (int)s3);
            }
            OK("da_data_get_col_label", da_data_get_col_label(s.s, j, &sz, lb.p));
            if (l != std::string(lb.p))
                failf("label", "after %s: label of column %d is '%s', expected '%s'", after, (int)j, lb.p, l.c_str());
            if (!l.empty()) {
                da_int k = -1;
                da_status q = call("da_data_get_col_idx", [&] { return da_data_get_col_idx(s.s, l.c_str(), &k); });
                if (q != da_status_success || k < 0 || k >= c || m.label[k] != l)
                    failf("label:idx", "after %s: label '%s' of column %d is found at column %d (status %d)", after, l.c_str(), (int)j, (int)k, (int)q);
            }
        }
        da_int k = -1;
        std::string un = "unused";
        if (call("da_data_get_col_idx", [&] { return da_data_get_col_idx(s.s, un.c_str(), &k); }) == da_status_success)
            fail("label:unknown", "da_data_get_col_idx found a label nobody gave");
        for (int q = 0; q < 6; q++) { // labels that were replaced are gone
            std::string l = "l" + std::to_string(q);
            if (std::find(m.label.begin(), m.label.end(), l) != m.label.end())
                continue;
            if (call("da_data_get_col_idx", [&] { return da_data_get_col_idx(s.s, l.c_str(), &k); }) == da_status_success)
                failf("label:stale", "after %s: label '%s' belongs to no column but is found at column %d", after, l.c_str(), (int)k);
        }
    }
    void typed(Store &s, int what) {
        int t = (int)pick("type", 0, 3);
        // mostly a type that is there
        if (s.m.n() && chance("matching", 0.75)) {
            da_int j = s.m.missing ? s.m.start : what == 2 ? (da_int)pick("col", 0, s.m.n() - 1) : 0;
            if (s.m.cols[j].t != TC)
                t = s.m.cols[j].t;
        }
        std::string k = what == 2 ? key() : "";
        if (what == 2 && s.m.sel.count(k) && !s.m.sel[k].c.empty() && chance("matching", 0.8)) {
            Type q = s.m.cols[*s.m.sel[k].c.begin()].t;
            if (q != TC)
                t = q;
        }
        auto f = [&](auto z) {
            typedef decltype(z) T;
            what == 0 ? load<T>(s) : what == 1 ? element<T>(s) : extract<T>(s, k);
        };
        t == TI ? f(da_int()) : t == TD ? f(double()) : t == TS ? f(float()) : f(uint8_t());
    }
    void run() {
        faults = chance("faulty", 0.35);
        int ns = (int)pick("stores", 1, 3);
        for (int i = 0; i < ns; i++) {
            st.emplace_back(new Store);
            st.back()->id = i;
            OK("da_datastore_init", da_datastore_init(&st.back()->s));
        }
        int nops = (int)pick("ops", 4, 24);
        // one run uses few kinds of calls
        std::vector<int> kinds;
        static const int weight[] = {0, 0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6, 7};
        for (int k : weight)
            if (k == 0 || chance("use", 0.75))
                kinds.push_back(k);
        for (int o = 0; o < nops; o++) {
            size_t a = (size_t)pick("store", 0, ns - 1);
            Store &s = *st[a];
            int k = kinds[(size_t)pick("kind", 0, (i64)kinds.size() - 1)];
            switch (k) {
            case 0:
                typed(s, 0);
                break;
            case 1:
                typed(s, 1);
                break;
            case 2:
                typed(s, 2);
                break;
            case 3:
                select(s);
                break;
            case 4:
                labels(s);
                break;
            case 5:
                load_str(s);
                break;
            case 6:
                hconcat(a, (size_t)pick("second", 0, ns - 1));
                break;
            default:
                csv(s);
            }
            if (chance("look", 0.3))
                check(s, "the calls");
        }
        for (auto &s : st)
            check(*s, "the whole history");
        st.clear();
        keep.clear();
    }
};
static void history() {
    int base = sim::live_blocks();
    {
        Run r;
        r.run();
    }
    if (sim::live_blocks() > base)
        failf("leak", "blocks left after all stores were destroyed: %d: %s", sim::live_blocks() - base, sim::live_sites(3).c_str());
    probe("history");
}
// row selections against a set of integers: many intervals on a taller store
static void selections() {
    Store s;
    OK("da_datastore_init", da_datastore_init(&s.s));
    da_int R = (da_int)pick("rows", 5, 40), blocks = (da_int)pick("blocks", 1, 4);
    std::vector<std::shared_ptr<Buf<da_int>>> keep;
    da_int m = 0;
    std::vector<da_int> val;
    for (da_int b = 0; b < blocks; b++) {
        da_int r = b ? (da_int)pick("more", 1, 8) : R;
        auto p = std::make_shared<Buf<da_int>>(r * 2);
        for (da_int i = 0; i < r; i++) {
            (*p)[i] = m + i;
            (*p)[r + i] = -(m + i);
            val.push_back(m + i);
        }
        p->input();
        keep.push_back(p);
        if (b == 0)
            OK("da_data_load_col_int", da_data_load_col(s.s, r, 2, p->p, column_major, (da_int)0));
        else
            OK("da_data_load_row_int", da_data_load_row(s.s, r, 2, p->p, column_major, (da_int)0));
        m += r;
    }
    std::set<da_int> rows;
    int ops = (int)pick("ops", 3, 30);
    for (int o = 0; o < ops; o++) {
        da_int lo = (da_int)pick("lo", 0, m - 1), hi = (da_int)pick("hi", lo, std::min<da_int>(m - 1, lo + (chance("wide", 0.2) ? m : 4)));
        if (rows.empty() || chance("add", 0.6)) {
            OK("da_data_select_rows", da_data_select_rows(s.s, "k", lo, hi));
            for (da_int i = lo; i <= hi; i++)
                rows.insert(i);
        } else {
            OK("da_data_select_remove_rows", da_data_select_remove_rows(s.s, "k", lo, hi));
            for (da_int i = lo; i <= hi; i++)
                rows.erase(i);
        }
        std::vector<da_int> want(rows.begin(), rows.end());
        if (want.empty())
            want = val;
        da_order ord = chance("row_major", 0.5) ? row_major : column_major;
        Mat<da_int> x((da_int)want.size(), 2, ord, (da_int)pick("pad", 0, 2));
        OK("da_data_extract_selection_int", da_data_extract_selection(s.s, "k", ord, x.p(), x.ld));
        for (size_t i = 0; i < want.size(); i++)
            if (x((da_int)i, 0) != want[i] || x((da_int)i, 1) != -want[i])
                failf("selection", "row %d of the selection is (%d,%d), expected (%d,%d)", (int)i, (int)x((da_int)i, 0), (int)x((da_int)i, 1), (int)want[i], (int)-want[i]);
    }
    probe("selection_intervals");
}
sim::Scenario sim_scenarios[] = {{"history", history, 4}, {"selections", selections, 1}, {nullptr, nullptr, 0}};
