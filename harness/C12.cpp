// C12: reading a CSV file returns exactly the table the file contains, or an
// error; read errors, full memory and malformed files never become data.
// modules: csv data_management
#include "common.hpp"
const char *sim_property = "C12";
const char *sim_rule = "a run counts when at least one CSV file was parsed by the library and its result "
                       "compared with the table the file was rendered from; distinct = event hashes";
const char *sim_real_components =
    "da_read_csv_*, da_data_load_from_csv, tokenizer, number conversion, column type detection, "
    "datastore and option registry: all real code from /repo on glibc stdio";
const char *sim_stub_components = "the file descriptor below stdio (simulated disk with injected faults), "
                                  "allocator";
void sim_warmup() {}

struct Dialect {
    char delim = ',', quote = '"', esc = '\\', comment = '#', dec = '.', thou = 0, sci = 'e';
    std::string eol = "\n";
    bool customeol = false, ws = false, skipblank = false, skipinit = false, dq = false, header = false,
         footer = false, warn = false;
    da_order order = column_major;
    int row_start = 0;
    std::vector<int> skip;
};
struct Store {
    da_datastore s = nullptr;
    Store() {
        // the C code's own allocations; exceptions are C15's subject
        sim::fail_malloc_only(true);
        OK("da_datastore_init", da_datastore_init(&s));
    }
    ~Store() { destroy(); }
    void destroy() {
        if (s) {
            sim::Api a("da_datastore_destroy");
            da_datastore_destroy(&s);
        }
        s = nullptr;
    }
    void str(const char *o, const std::string &v) {
        OK("da_datastore_options_set_string", da_datastore_options_set_string(s, o, v.c_str()));
    }
    void num(const char *o, da_int v) {
        OK("da_datastore_options_set_int", da_datastore_options_set_int(s, o, v));
    }
};
static std::string cs(char c) { return c ? std::string(1, c) : std::string(); }
static void apply(Store &S, const Dialect &d) {
    sim::log("dialect delim=%c quote=%c esc=%c comment=%c dec=%c thou=%c sci=%c eol=%d custom=%d ws=%d skipblank=%d "
             "skipinit=%d dq=%d header=%d footer=%d warn=%d row_start=%d skips=%zu",
             d.delim, d.quote ? d.quote : '0', d.esc ? d.esc : '0', d.comment ? d.comment : '0', d.dec,
             d.thou ? d.thou : '0', d.sci, d.eol[0], d.customeol, d.ws, d.skipblank, d.skipinit, d.dq, d.header,
             d.footer, d.warn, d.row_start, d.skip.size());
    S.str("delimiter", cs(d.delim));
    S.str("quote character", cs(d.quote));
    S.str("escape character", cs(d.esc));
    S.str("comment", cs(d.comment));
    S.str("decimal", cs(d.dec));
    S.str("thousands", cs(d.thou));
    S.str("scientific notation character", cs(d.sci));
    S.str("line terminator", d.customeol ? d.eol : "");
    S.num("whitespace delimiter", d.ws);
    S.num("skip empty lines", d.skipblank);
    S.num("skip initial space", d.skipinit);
    S.num("double quote", d.dq);
    S.num("use header row", d.header);
    S.num("skip footer", d.footer);
    S.num("warn for missing data", d.warn);
    S.num("row start", d.row_start);
    std::string sk;
    for (size_t i = 0; i < d.skip.size(); i++)
        sk += (i ? (i % 2 ? ", " : " ") : "") + std::to_string(d.skip[i]);
    S.str("skip rows", sk);
    S.str("storage order", d.order == row_major ? "row-major" : "column-major");
}
static Dialect gen_dialect() {
    Dialect d;
    if (chance("plain_dialect", 0.25)) {
        d.order = chance("row_major", 0.5) ? row_major : column_major;
        return d;
    }
    d.delim = sim::one_of<char>("delim", {',', ';', '|', ':'});
    d.quote = sim::one_of<char>("quote", {'"', '\'', 0});
    d.esc = sim::one_of<char>("esc", {'\\', '!', 0});
    d.comment = sim::one_of<char>("comment", {'#', '%', 0});
    d.dec = d.delim != ',' && chance("dec_comma", 0.3) ? ',' : '.';
    if (chance("thousands", 0.25))
        d.thou = d.dec == ',' ? '.' : d.delim != ',' ? ',' : '_';
    d.sci = sim::one_of<char>("sci", {'e', 'd', 'g'});
    switch (pick("eol", 0, 4)) {
    case 2:
        d.eol = "\r\n";
        break;
    case 3:
        d.eol = "\r";
        break;
    case 4:
        d.eol = "~";
        d.customeol = true;
        break;
    }
    d.ws = chance("ws", 0.2);
    d.skipblank = chance("skipblank", 0.3);
    d.skipinit = chance("skipinit", 0.3);
    d.dq = chance("dq", 0.3);
    d.header = chance("header", 0.35);
    d.footer = chance("footer", 0.2);
    d.warn = chance("warn", 0.3);
    d.order = chance("row_major", 0.5) ? row_major : column_major;
    return d;
}
// one cell of the model table
struct Cell {
    std::string text;   // unescaped content
    double num = 0;     // numeric value
    bool missing = false, isnum = false, exact = true;
    bool lead = false;  // content starts with a blank
};
static std::string grouped(const std::string &digits, char t) {
    std::string r;
    for (size_t i = 0; i < digits.size(); i++) {
        if (i && (digits.size() - i) % 3 == 0)
            r += t;
        r += digits[i];
    }
    return r;
}
template <typename T> Cell gen_num(sim::Rng &r, const Dialect &d);
template <> Cell gen_num<da_int>(sim::Rng &r, const Dialect &d) {
    Cell c;
    c.isnum = true;
    long long v = 0;
    switch (r.below(6)) {
    case 0:
        v = r.range(-9, 9);
        break;
    case 1:
        v = r.range(INT32_MIN, INT32_MAX);
        break;
    case 2:
        v = r.below(2) ? INT32_MAX : INT32_MIN;
        break;
    default:
        v = r.range(-100000, 100000);
    }
    std::string s = std::to_string(v < 0 ? -v : v);
    if (d.thou)
        s = grouped(s, d.thou);
    else if (r.below(8) == 0)
        s = "00" + s;
    c.text = (v < 0 ? "-" : r.below(6) == 0 ? "+" : "") + s;
    c.num = (double)v;
    return c;
}
template <typename T> static Cell gen_fp(sim::Rng &r, const Dialect &d) {
    Cell c;
    c.isnum = true;
    int digits = (int)r.range(1, sizeof(T) == 8 ? 15 : 6);
    std::string m;
    for (int i = 0; i < digits; i++)
        m += (char)('0' + (i == 0 ? r.range(1, 9) : r.below(10)));
    int point = (int)r.range(0, digits); // digits before the decimal point
    std::string ip = m.substr(0, point), fp = m.substr(point);
    bool neg = r.below(3) == 0;
    std::string std_text = (neg ? "-" : "") + (ip.empty() ? "0" : ip) + "." + (fp.empty() ? "0" : fp);
    std::string ipt = ip.empty() ? (r.below(2) ? "0" : "") : d.thou ? grouped(ip, d.thou) : ip;
    c.text = (neg ? "-" : r.below(8) == 0 ? "+" : "") + ipt;
    if (!fp.empty())
        c.text += d.dec + fp;
    else if (r.below(3) == 0)
        c.text += d.dec;
    if (r.below(3) == 0) {
        int e = (int)r.range(sizeof(T) == 8 ? -40 : -12, sizeof(T) == 8 ? 40 : 12);
        c.text += (char)(r.below(2) ? toupper(d.sci) : d.sci);
        c.text += e < 0 ? "-" : r.below(2) ? "+" : "";
        c.text += std::to_string(e < 0 ? -e : e);
        std_text += "e" + std::to_string(e);
        c.exact = false;
    }
    c.num = strtod(std_text.c_str(), nullptr);
    return c;
}
template <> Cell gen_num<double>(sim::Rng &r, const Dialect &d) { return gen_fp<double>(r, d); }
template <> Cell gen_num<float>(sim::Rng &r, const Dialect &d) { return gen_fp<float>(r, d); }
template <> Cell gen_num<uint8_t>(sim::Rng &r, const Dialect &) {
    static const char *t[] = {"True", "true", "TRUE", "tRuE"}, *f[] = {"False", "false", "FALSE", "fALSE"};
    Cell c;
    bool v = r.below(2);
    c.text = v ? t[r.below(4)] : f[r.below(4)];
    c.num = v;
    return c;
}
static Cell gen_str(sim::Rng &r, const Dialect &d, bool wordy, bool lone) {
    Cell c;
    static const char al[] = "abcXYZ019_.-+";
    int n = (int)r.below(9);
    bool special = r.below(3) == 0;
    bool can_quote = d.quote != 0, can_esc = d.esc != 0;
    for (int i = 0; i < n; i++) {
        if (special && r.below(3) == 0) {
            char k = 0;
            switch (r.below(7)) {
            case 0:
                k = d.ws ? ' ' : d.delim;
                break;
            case 1:
                k = d.quote;
                break;
            case 2:
                k = d.esc;
                break;
            case 3:
                k = d.comment;
                break;
            case 4:
                k = '\n';
                break;
            case 5:
                k = d.customeol ? d.eol[0] : '\r';
                break;
            case 6:
                k = ' ';
                break;
            }
            // representable at all in this dialect?
            bool isq = k && k == d.quote, ise = k && k == d.esc;
            bool ok = k != 0;
            if (isq && !can_esc && !d.dq)
                ok = false;
            if (ise && !can_esc)
                ok = false;
            if (!isq && !ise && !can_quote && !can_esc)
                ok = false;
            if (ok) {
                c.text += k;
                continue;
            }
        }
        c.text += al[r.below(sizeof al - 1)];
    }
    if (wordy)
        c.text = "w" + c.text; // never a number, not blank
    // trailing blanks are documented to be trimmed; do not generate them
    while (!c.text.empty() && isspace((unsigned char)c.text.back()))
        c.text.pop_back();
    if (d.skipinit)
        while (!c.text.empty() && isspace((unsigned char)c.text.front()))
            c.text.erase(c.text.begin());
    // with blanks as delimiter a leading blank is a separator; keep to the
    // documented uses
    if (d.ws)
        while (!c.text.empty() && isspace((unsigned char)c.text.front()))
            c.text.erase(c.text.begin());
    if (c.text.empty() && !d.quote && (d.ws || lone))
        c.text = "k"; // an empty entry cannot be written
    return c;
}
static std::string render(const Cell &c, sim::Rng &r, const Dialect &d, bool lone) {
    std::string o;
    auto special = [&](char k) {
        return k == d.delim || (d.quote && k == d.quote) || (d.esc && k == d.esc) ||
               (d.comment && k == d.comment) || k == '\n' || k == '\r' || (d.customeol && k == d.eol[0]) ||
               k == ' ' || k == '\t';
    };
    bool any = false;
    for (char k : c.text)
        any |= special(k);
    bool strlike = !c.isnum;
    bool empty = c.text.empty() && !c.missing;
    bool needq = strlike && (any || (empty && (lone || d.ws || d.quote)));
    bool q = d.quote && ((needq && (!d.esc || empty || r.below(2))) || (!c.missing && r.below(10) == 0));
    // a blank in front would be swallowed with "skip initial space" unless quoted
    if (c.isnum && !d.ws && !c.missing && r.below(10) == 0)
        o += " ";
    if (q && o.size() && !d.skipinit)
        o.clear(); // a quote only opens a field at its very start
    if (q)
        o += d.quote;
    for (char k : c.text) {
        if (strlike || special(k)) {
            if (q) {
                if (k == d.quote)
                    o += d.dq && (!d.esc || r.below(2)) ? d.quote : d.esc;
                else if (d.esc && k == d.esc)
                    o += d.esc;
            } else if (special(k) && d.esc && !(c.isnum && k != d.delim))
                o += d.esc;
        }
        o += k;
    }
    if (q)
        o += d.quote;
    if (c.isnum && !d.ws && !c.missing && r.below(12) == 0)
        o += " ";
    return o;
}
struct Table {
    int rows, cols;
    std::vector<std::string> head;
    std::vector<std::vector<Cell>> v;
    bool any_missing = false;
    std::string file;
    Dialect d; // with row_start / skip filled in by the renderer
};
enum Kind { K_INT, K_DBL, K_FLT, K_BOOL, K_STR };
static Cell gen_cell(Kind k, sim::Rng &r, const Dialect &d, bool lone) {
    return k == K_INT   ? gen_num<da_int>(r, d)
           : k == K_DBL ? gen_num<double>(r, d)
           : k == K_FLT ? gen_num<float>(r, d)
           : k == K_BOOL ? gen_num<uint8_t>(r, d)
                         : gen_str(r, d, false, lone);
}
static const long CHUNK = 262144;
static Table gen_table(const Dialect &d0, const std::vector<Kind> &kinds, bool big, sim::Rng &r, bool mixed) {
    Table t;
    t.d = d0;
    Dialect &d = t.d;
    t.cols = (int)kinds.size();
    t.rows = big ? (int)pick("rows_big", 200, 1500) : (int)pick("rows", 1, 14);
    for (int j = 0; j < t.cols; j++)
        t.head.push_back("h" + std::to_string(j) + (r.below(2) ? "col" : ""));
    for (int i = 0; i < t.rows; i++) {
        t.v.emplace_back();
        for (int j = 0; j < t.cols; j++) {
            Cell c = mixed && kinds[j] == K_STR ? gen_str(r, d, true, t.cols == 1) : gen_cell(kinds[j], r, d, t.cols == 1);
            if (mixed && (kinds[j] == K_DBL || kinds[j] == K_FLT) && i == 0 && c.text.find(d.dec) == std::string::npos)
                c = Cell(), c.isnum = true, c.text = std::string("2") + d.dec + "5", c.num = 2.5;
            if (!mixed && d.warn && !d.ws && t.cols > 1 && kinds[j] != K_STR && r.below(8) == 0) {
                c = Cell();
                c.missing = true;
                t.any_missing = true;
            }
            t.v.back().push_back(c);
        }
    }
    // ---- render ----
    std::string f;
    int line = 0; // 0-based index of the physical (logical) line
    auto eol = [&]() {
        f += d.eol;
        line++;
    };
    bool comments = d.comment && chance("comments", 0.4);
    bool blanks = d.skipblank && chance("blanks", 0.6);
    bool skips = chance("skips", 0.25);
    bool trailing = comments && chance("trailing_comments", 0.4);
    bool straddle = (d.comment || true) && chance("straddle", big ? 0.2 : 0.12);
    static const char *junk[] = {"junk", "1,2,3,4,5,6,7,8,9", "x y z", "-"};
    if (chance("row_start", 0.2)) {
        int k = (int)pick("row_start_n", 1, 3);
        d.row_start = k;
        for (int i = 0; i < k; i++) {
            f += junk[r.below(4)];
            eol();
        }
    }
    if (straddle) { // a long ignored line puts the table across a read boundary
        long slack = (long)r.below(60);
        long want = CHUNK - slack - (long)f.size() - (long)d.eol.size() - 1;
        if (r.below(6) == 0)
            want += CHUNK;
        if (d.comment)
            f += d.comment;
        else {
            f += "z";
            d.skip.push_back(line);
        }
        f += std::string((size_t)want, 'z');
        eol();
        probe("table across a read boundary");
    }
    auto extras = [&]() {
        if (comments && r.below(4) == 0) {
            f += d.comment;
            if (r.below(2))
                f += " note, 1,2";
            eol();
        }
        if (blanks && r.below(4) == 0) {
            if (r.below(3) == 0 && !d.customeol)
                f += "  ";
            eol();
        }
        if (skips && r.below(5) == 0) {
            d.skip.push_back(line);
            f += junk[r.below(4)];
            eol();
        }
    };
    // "\r" ends a comment or blank line only together with what follows; an empty
    // first field right after it is ambiguous, so keep such lines apart
    if (d.eol == "\r")
        comments = blanks = trailing = false;
    auto sep = [&]() {
        if (!d.ws)
            f += d.delim;
        else
            f += r.below(3) ? " " : r.below(2) ? "  " : "\t";
    };
    if (d.header) {
        extras();
        for (int j = 0; j < t.cols; j++) {
            if (j)
                sep();
            f += t.head[j];
        }
        eol();
    }
    for (int i = 0; i < t.rows; i++) {
        extras();
        if (d.ws && r.below(6) == 0)
            f += " ";
        bool lastq = false;
        for (int j = 0; j < t.cols; j++) {
            if (j)
                sep();
            std::string c = render(t.v[i][j], r, d, t.cols == 1);
            lastq = !c.empty() && c.back() == d.quote;
            f += c;
        }
        if (trailing && r.below(4) == 0 && !(d.dq && lastq)) {
            f += d.comment;
            f += "tail,1";
        }
        bool last = i + 1 == t.rows && !d.footer;
        if (last && r.below(3) == 0 && !t.v[i].back().missing)
            probe("no terminator after the last line");
        else
            eol();
    }
    if (d.footer) {
        f += "9999";
        if (r.below(2))
            f += d.eol;
    }
    t.file = f;
    return t;
}
static void put(const char *name, const std::string &s) {
    FILE *f = fopen(name, "wb");
    if (!f || (s.size() && fwrite(s.data(), 1, s.size(), f) != s.size())) {
        sim::give_up("cannot write the scratch file");
    }
    fclose(f);
}
static std::string show(const std::string &s) {
    std::string o;
    size_t a = s.size() > 400 && s.find("zzzzzzzz") != std::string::npos ? s.find_last_of('z') : 0;
    for (size_t i = a; i < s.size() && o.size() < 500; i++) {
        char c = s[i];
        if (c == '\n')
            o += "\\n";
        else if (c == '\r')
            o += "\\r";
        else if (c == '\t')
            o += "\\t";
        else
            o += c;
    }
    return o;
}
template <typename T> bool same_val(const T &g, const Cell &c) {
    if (c.missing) {
        if (std::numeric_limits<T>::has_quiet_NaN)
            return g != g;
        return g == std::numeric_limits<T>::max();
    }
    if (c.exact)
        return g == (T)c.num;
    double tol = (sizeof(T) == 8 ? 1e-15 : 1e-6) * fabs(c.num);
    return fabs((double)g - c.num) <= tol;
}
template <> bool same_val<char *>(char *const &g, const Cell &c) { return g && c.text == g; }
template <typename T> void free_arr(T *&a, da_int) {
    if (a)
        free(a);
    a = nullptr;
}
template <> void free_arr<char *>(char **&a, da_int n) {
    if (a) {
        sim::Api s("da_delete_string_array");
        da_delete_string_array(&a, n);
    }
    a = nullptr;
}
template <typename T> std::string val_str(const T &v) { return std::to_string((double)v); }
template <> std::string val_str<char *>(char *const &v) { return v ? std::string("'") + v + "'" : "null"; }
template <typename T> Kind kind();
template <> Kind kind<da_int>() { return K_INT; }
template <> Kind kind<double>() { return K_DBL; }
template <> Kind kind<float>() { return K_FLT; }
template <> Kind kind<uint8_t>() { return K_BOOL; }
template <> Kind kind<char *>() { return K_STR; }
template <typename T> struct Out { // what the caller holds
    T *a = nullptr;
    da_int n = 0, m = 0;
    char **head = nullptr;
    void drop() {
        free_arr(a, n * m);
        if (head) {
            sim::Api s("da_delete_string_array");
            da_delete_string_array(&head, m);
        }
        head = nullptr;
    }
};
template <typename T> static da_status do_read(Store &S, const char *fn, Out<T> &o) {
    sim::Api a("da_read_csv");
    return da_read_csv(S.s, fn, &o.a, &o.n, &o.m, &o.head);
}
template <typename T> static void compare(const Table &t, Out<T> &o, const char *when) {
    if (o.n != t.rows || o.m != t.cols)
        failf("csv:shape", "%s: read %d x %d, the file holds %d x %d: %s", when, (int)o.n, (int)o.m, t.rows,
              t.cols, show(t.file).c_str());
    for (int i = 0; i < t.rows; i++)
        for (int j = 0; j < t.cols; j++) {
            T &g = o.a[t.d.order == row_major ? (size_t)i * t.cols + j : (size_t)j * t.rows + i];
            if (!same_val<T>(g, t.v[i][j]))
                failf("csv:value", "%s: row %d column %d is %s, the file says '%s': %s", when, i, j,
                      val_str<T>(g).c_str(), show(t.v[i][j].text).c_str(), show(t.file).c_str());
        }
    if (t.d.header) {
        if (!o.head)
            failf("csv:header", "%s: no headings returned", when);
        for (int j = 0; j < t.cols; j++)
            if (!o.head[j] || t.head[j] != o.head[j])
                failf("csv:header", "%s: heading %d is '%s', the file says '%s'", when, j,
                      o.head[j] ? o.head[j] : "null", t.head[j].c_str());
    }
}
template <typename T> static Table any_table(const Dialect &d, sim::Rng &r) {
    std::vector<Kind> k((size_t)pick("cols", 1, 6), kind<T>());
    if (d.thou && 0)
        k.size();
    return gen_table(d, k, chance("big", 0.04), r, false);
}
template <typename T> static void roundtrip() {
    int base = sim::live_blocks();
    {
        Store S;
        sim::Rng r("table");
        int files = (int)pick("files", 1, 3);
        for (int k = 0; k < files; k++) {
            Dialect d = gen_dialect();
            Table t = any_table<T>(d, r);
            put("f0", t.file);
            apply(S, t.d);
            sim::log("file %s", show(t.file).c_str());
            Out<T> o;
            if (chance("short_reads", 0.3)) {
                sim::IoFaults f;
                f.short_io = pick("short_max", 1, 5000);
                f.eintr_every = chance("eintr", 0.0) ? 3 : 0;
                sim::io_faults(f);
                sim::fault("short reads");
            }
            da_status st = do_read(S, "f0", o);
            sim::io_clear();
            da_status want = t.any_missing ? da_status_missing_data : da_status_success;
            if (st != want)
                da_datastore_print_error_message(S.s); // shown when a run is replayed
            if (st != want)
                failf("csv:status", "valid file: status %d, expected %d: %s", (int)st, (int)want,
                      show(t.file).c_str());
            compare(t, o, "fault-free read");
            o.drop();
            probe("table compared");
            if (k)
                probe("store used for several files");
            hash_vec(t.file);
        }
    }
    if (sim::live_blocks() != base)
        failf("csv:leak", "%d blocks still allocated after destroying the store and freeing the results",
              sim::live_blocks() - base);
}
template <typename T> static void faults() {
    int base = sim::live_blocks();
    {
        Store S;
        sim::Rng r("table");
        Dialect d = gen_dialect();
        Table t = any_table<T>(d, r);
        put("f0", t.file);
        apply(S, t.d);
        int rounds = (int)pick("rounds", 1, 3);
        da_status want = t.any_missing ? da_status_missing_data : da_status_success;
        for (int k = 0; k < rounds; k++) {
            Out<T> o;
            sim::IoFaults f;
            int what = (int)pick("fault", 0, 2);
            if (what == 2)
                what = 3; // allocation failures are C15's subject
            i64 size = (i64)t.file.size();
            const char *name = "f0";
            i64 deliver = size;
            if (what == 0) { // the disk stops delivering
                deliver = size > CHUNK && chance("at_boundary", 0.6) ? CHUNK : pick("deliver", 0, size);
                f.read_fail_after = deliver;
                f.read_errno = 5;
                if (chance("short_too", 0.3))
                    f.short_io = pick("short_max", 1, 5000);
                sim::io_faults(f);
            } else if (what == 1) {
                f.open_fail = 1;
                f.open_errno = sim::one_of<int>("errno", {24, 2, 13, 12});
                sim::io_faults(f);
            } else if (what == 2) {
                sim::fail_alloc(pick("nth_alloc", 1, 60 + (i64)t.rows * t.cols), chance("persist", 0.5) ? 1000000 : 1);
            } else
                name = "."; // a directory: opens, but cannot be read
            sim::u64 af = sim::alloc_faults_fired();
            da_status st = do_read(S, name, o);
            auto io = sim::io_stats();
            bool fired = what == 2 ? sim::alloc_faults_fired() > af : what == 3 ? true : io.fired > 0;
            sim::io_clear();
            sim::clear_alloc_faults();
            if (fired)
                probe(what == 0   ? "read error met"
                      : what == 1 ? "open error met"
                      : what == 2 ? "allocation failure met"
                                  : "directory given");
            if (st == want || st == da_status_success) {
                if (what != 2 && fired && deliver < size)
                    failf("csv:lost-data", "read error after %lld of %lld bytes, yet status %d with a %d x %d table",
                          (long long)deliver, (long long)size, (int)st, (int)o.n, (int)o.m);
                compare(t, o, "read with an injected fault that reported success");
            } else if (!fired)
                failf("csv:status", "no fault was met: status %d: %s", (int)st, show(t.file).c_str());
            o.drop();
        }
        Out<T> o;
        da_status st = do_read(S, "f0", o);
        if (st != want)
            failf("csv:recover", "valid file after faults stopped: status %d, expected %d", (int)st, (int)want);
        compare(t, o, "read after faults stopped");
        o.drop();
        probe("read after faults stopped");
        hash_vec(t.file);
    }
    if (sim::live_blocks() != base)
        failf("csv:leak", "%d blocks still allocated after destroying the store and freeing the results",
              sim::live_blocks() - base);
}
// files that are not tables: the reader refuses or returns a readable table, and
// the caller's variables keep a state the caller can clean up from
template <typename T> static void malformed() {
    int base = sim::live_blocks();
    {
        Store S;
        sim::Rng r("table");
        int files = (int)pick("files", 1, 3);
        Out<T> o; // reused from file to file, as a caller reading many files does
        std::vector<Out<T>> owned;
        for (int k = 0; k < files; k++) {
            Dialect d = gen_dialect();
            Table t = any_table<T>(d, r);
            std::string f = t.file;
            int what = (int)pick("how", 0, 4);
            bool must_fail = false, valid = false;
            if (what == 0) { // one line with too many fields
                t = any_table<T>(d, r);
                f = t.file;
                if (!t.d.footer && t.rows > 1 && f.size() >= t.d.eol.size() && f.substr(f.size() - t.d.eol.size()) == t.d.eol) {
                    for (int j = 0; j < t.cols + 2; j++)
                        f += (j ? (t.d.ws ? " " : std::string(1, t.d.delim)) : "") + std::string("1");
                    f += t.d.eol;
                    must_fail = true;
                }
            } else if (what == 1) { // random truncation
                f = f.substr(0, (size_t)r.below((i64)f.size() + 1));
            } else if (what == 2) { // random edits
                int n = (int)r.range(1, 6);
                for (int i = 0; i < n && !f.empty(); i++) {
                    size_t p = (size_t)r.below((i64)f.size());
                    static const char pool[] = "\"'\\!#%,;\n\r \t0e-.x\0\xef\xbb\xbf";
                    char c = pool[r.below(sizeof pool - 1)];
                    switch (r.below(3)) {
                    case 0:
                        f[p] = c;
                        break;
                    case 1:
                        f.insert(p, 1, c);
                        break;
                    default:
                        f.erase(p, 1);
                    }
                }
            } else if (what == 3) { // an entry that is no value of the type
                if (kind<T>() != K_STR && !t.d.warn) {
                    int i = (int)r.below(t.rows), j = (int)r.below(t.cols);
                    t.v[i][j] = Cell();
                    f.clear();
                    for (int a = 0; a < t.rows; a++)
                        for (int b = 0; b < t.cols; b++) {
                            f += a == i && b == j ? "x" : kind<T>() == K_BOOL ? "true" : "1";
                            f += b + 1 < t.cols ? (t.d.ws ? " " : std::string(1, t.d.delim)) : t.d.eol;
                        }
                    t.d.header = t.d.footer = false;
                    t.d.row_start = 0;
                    t.d.skip.clear();
                    must_fail = true;
                }
            } else
                valid = true;
            put("f0", f);
            apply(S, t.d);
            Out<T> before = o;
            da_status st = do_read(S, "f0", o);
            da_status want = t.any_missing ? da_status_missing_data : da_status_success;
            if (valid) {
                if (st != want)
                    failf("csv:status", "valid file after malformed ones: status %d, expected %d: %s", (int)st,
                          (int)want, show(f).c_str());
                compare(t, o, "valid file after malformed ones");
            }
            if (must_fail && (st == da_status_success || st == da_status_missing_data))
                failf("csv:accepted", "malformed file accepted with status %d: %s", (int)st, show(f).c_str());
            if (st == da_status_success || st == da_status_missing_data) {
                if (o.n < 0 || o.m < 0)
                    failf("csv:shape", "negative dimensions %d x %d", (int)o.n, (int)o.m);
                volatile unsigned char sink = 0;
                for (size_t i = 0; i < (size_t)o.n * o.m * sizeof(T); i++)
                    sink += ((unsigned char *)o.a)[i];
            } else
                probe("file refused");
            // what the call handed out is the caller's, whatever the status;
            // variables may keep the stale values of an earlier read
            Out<T> got = o;
            if (got.a == before.a)
                got.a = nullptr;
            if (got.head == before.head)
                got.head = nullptr;
            owned.push_back(got);
            if (chance("fresh_vars", 0.5))
                o = Out<T>();
        }
        for (auto &x : owned)
            x.drop();
    }
    int extra = sim::live_blocks() - base;
    if (extra != 0)
        failf("csv:leak", "%d blocks still allocated after destroying the store and freeing the results", extra);
}
// ---- datastore loading with column type detection ---------------------------------
static void autodetect() {
    int base = sim::live_blocks();
    {
        Store S;
        sim::Rng r("table");
        Dialect d = gen_dialect();
        d.warn = false;
        std::vector<Kind> kinds;
        bool single = chance("single", 0.3), ifp = chance("int_as_fp", 0.2), flt = chance("single_prec", 0.3);
        int nc = (int)pick("cols", 1, 6);
        Kind one = (Kind)pick("one", 0, 4);
        for (int j = 0; j < nc; j++) {
            Kind k = single ? one : (Kind)pick("kind", 0, 4);
            if (!single && (k == K_DBL || k == K_FLT))
                k = flt ? K_FLT : K_DBL;
            kinds.push_back(k);
        }
        Table t = gen_table(d, kinds, chance("big", 0.03), r, true);
        if (t.d.header && t.cols > 64)
            return;
        put("f0", t.file);
        apply(S, t.d);
        static const char *dtn[] = {"integer", "double", "float", "boolean", "string"};
        S.str("datatype", single ? dtn[one] : "auto");
        S.str("datastore precision", flt ? "single" : "double");
        S.num("integers as floats", ifp);
        bool faulty = chance("faulty", 0.35);
        bool loaded = false;
        if (faulty) {
            int what = (int)pick("fault", 0, 1);
            i64 size = (i64)t.file.size(), deliver = size;
            if (what == 0) {
                sim::IoFaults f;
                deliver = size > CHUNK && chance("at_boundary", 0.6) ? CHUNK : pick("deliver", 0, size);
                f.read_fail_after = deliver;
                f.read_errno = 5;
                sim::io_faults(f);
            } else if (what == 1) {
                sim::IoFaults f;
                f.open_fail = 1;
                f.open_errno = 2;
                sim::io_faults(f);
            } else
                sim::fail_alloc(pick("nth_alloc", 1, 100 + 3 * (i64)t.rows * t.cols),
                                chance("persist", 0.5) ? 1000000 : 1);
            sim::u64 af = sim::alloc_faults_fired();
            da_status st;
            {
                sim::Api a("da_data_load_from_csv");
                st = da_data_load_from_csv(S.s, "f0");
            }
            bool fired = what == 2 ? sim::alloc_faults_fired() > af : sim::io_stats().fired > 0;
            sim::io_clear();
            sim::clear_alloc_faults();
            if (st == da_status_success) {
                loaded = true;
                if (fired && what != 2 && deliver < size)
                    failf("csv:lost-data", "read error after %lld of %lld bytes, yet the load succeeded",
                          (long long)deliver, (long long)size);
            } else if (!fired)
                failf("csv:status", "no fault was met: load status %d: %s", (int)st, show(t.file).c_str());
            else {
                probe("load refused");
                if (what == 2) { // a half-loaded store is only required to be destroyable
                    S.destroy();
                    goto out;
                }
            }
        }
        if (!loaded)
            OK("da_data_load_from_csv", da_data_load_from_csv(S.s, "f0"));
        da_int n = -1, m = -1;
        OK("da_data_get_n_rows", da_data_get_n_rows(S.s, &n));
        OK("da_data_get_n_cols", da_data_get_n_cols(S.s, &m));
        if (n != t.rows || m != t.cols)
            failf("csv:shape", "loaded %d x %d, the file holds %d x %d: %s", (int)n, (int)m, t.rows, t.cols,
                  show(t.file).c_str());
        for (int j = 0; j < t.cols; j++) {
            Kind k = kinds[j];
            if (!single && k == K_INT && ifp)
                k = flt ? K_FLT : K_DBL;
            auto bad = [&](int i, const std::string &g) {
                failf("csv:value", "loaded row %d column %d is %s, the file says '%s': %s", i, j, g.c_str(),
                      show(t.v[i][j].text).c_str(), show(t.file).c_str());
            };
            auto check = [&](auto tag) {
                typedef decltype(tag) T;
                Buf<T> b(t.rows);
                da_status st;
                {
                    sim::Api a("da_data_extract_column");
                    st = da_data_extract_column(S.s, j, t.rows, b.p);
                }
                if (st != da_status_success)
                    failf("csv:type", "column %d holds kind %d but extraction returned %d: %s", j, (int)k, (int)st,
                          show(t.file).c_str());
                for (int i = 0; i < t.rows; i++) {
                    if (sizeof(T) != sizeof(char *) || !std::is_pointer<T>::value) {
                        Cell c = t.v[i][j];
                        if (k == K_FLT && kinds[j] == K_INT)
                            c.exact = false; // rounded digit by digit to 9 digits
                        if (!same_val<T>(b[i], c))
                            bad(i, val_str<T>(b[i]));
                    } else if (!same_val<T>(b[i], t.v[i][j]))
                        bad(i, val_str<T>(b[i]));
                }
            };
            switch (k) {
            case K_INT:
                check(da_int());
                break;
            case K_DBL:
                check(double());
                break;
            case K_FLT:
                check(float());
                break;
            case K_BOOL:
                check(uint8_t());
                break;
            case K_STR:
                check((char *)nullptr);
                break;
            }
            if (t.d.header) {
                da_int ix = -1;
                OK("da_data_get_col_idx", da_data_get_col_idx(S.s, t.head[j].c_str(), &ix));
                if (ix != j)
                    failf("csv:label", "label %s is column %d, not %d", t.head[j].c_str(), (int)ix, j);
            }
        }
        probe("loaded table compared");
        hash_vec(t.file);
    }
out:
    if (sim::live_blocks() != base)
        failf("csv:leak", "%d blocks still allocated after destroying the store", sim::live_blocks() - base);
}
template <int K> static void wrap() {
    bool fl = K & 1;
    switch (pick("type", 0, 4)) {
    case 0:
        return fl ? faults<double>() : roundtrip<double>();
    case 1:
        return fl ? faults<float>() : roundtrip<float>();
    case 2:
        return fl ? faults<da_int>() : roundtrip<da_int>();
    case 3:
        return fl ? faults<uint8_t>() : roundtrip<uint8_t>();
    case 4:
        return fl ? faults<char *>() : roundtrip<char *>();
    }
}
static void mal() {
    switch (pick("type", 0, 3)) {
    case 0:
        return malformed<double>();
    case 1:
        return malformed<da_int>();
    case 2:
        return malformed<uint8_t>();
    case 3:
        return malformed<char *>();
    }
}
sim::Scenario sim_scenarios[] = {{"roundtrip", wrap<0>, 3}, {"faults", wrap<1>, 3}, {"autodetect", autodetect, 3},
                                 {"malformed", mal, 2},     {nullptr, nullptr, 0}};
