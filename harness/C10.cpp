// C10: loading a torn, corrupted or unreadable model fails cleanly.
// modules: all
#include "zoo.hpp"
#include <cerrno>
#include <climits>
#include <fstream>
#include <sstream>
const char *sim_property = "C10";
const char *sim_rule = "a run counts when at least one damaged, torn or unreadable copy of a saved model was loaded and the intact "
                       "model was loaded and queried afterwards; distinct = distinct event hashes";
const char *sim_real_components = "da_handle_load_model, serialization_buffer, load code of every savable handle, C++ file streams: "
                                  "all real code";
const char *sim_stub_components = "OpenMP runtime, threads, allocator (with accounting of the memory asked for), open/read/write "
                                  "(simulated faults and crashes on a scratch directory); BLAS is the real OpenBLAS";
void sim_warmup() {}
using namespace zoo;

static void ask(const ModelBase &m, da_handle h, std::vector<Out> &o) {
    sim::random_schedule(false);
    o.clear();
    for (auto &q : m.queries) {
        o.emplace_back();
        q.f(h, o.back());
    }
    sim::random_schedule(true);
}
static void write_file(const std::string &name, const std::vector<char> &b) {
    std::ofstream f(name, std::ios::binary | std::ios::trunc);
    f.write(b.data(), (std::streamsize)b.size());
}
// length of the metadata: keyword, integer size, version, type, precision, library version
static size_t header_size(const std::vector<char> &b) {
    auto i64_ = [&](size_t at) {
        int64_t v;
        memcpy(&v, b.data() + at, 8);
        return (size_t)v;
    };
    size_t p = 8 + i64_(0) + 32;
    return p + 8 + i64_(p);
}
static void go(int kind) {
    Env env;
    ModelBase m = draw(kind);
    sim::log("%s", describe(m).c_str());
    Handle h;
    if (init(h, m) != da_status_success)
        fail("init", "da_handle_init failed");
    std::string at;
    if (train(h.h, m, &at) != da_status_success) {
        probe("fit_refused");
        return;
    }
    std::vector<Out> base, got;
    std::vector<char> ref;
    if (api("da_handle_save_model", [&] { return da_handle_save_model(h.h, ref); }) != da_status_success)
        failf("save:status", "%s: a fitted model was not saved: %s", m.kind.c_str(), errmsg(h.h).c_str());
    ask(m, h.h, base);
    size_t hdr = header_size(ref);
    if (hdr >= ref.size())
        fail("harness:header", "metadata longer than the model");
    std::string name = sim::scratch("model");
    sim::Rng g("damage");
    int rounds = (int)pick("rounds", 1, 12);
    for (int r = 0; r < rounds; r++) {
        std::vector<char> b = ref;
        bool must_fail = false;
        int how = (int)pick("how", 0, 13);
        bool file = chance("file", 0.4);
        sim::IoFaults f;
        std::string what, target = name;
        auto pos = [&]() -> size_t {
            i64 w = pick("area", 0, 3);
            return w == 0 ? (size_t)pick("at_head", 0, (i64)hdr + 60 < (i64)b.size() ? (i64)hdr + 60 : (i64)b.size() - 1)
                   : w == 1 ? b.size() - 1 - (size_t)pick("at_tail", 0, std::min<i64>(60, (i64)b.size() - 1))
                            : (size_t)pick("at", 0, (i64)b.size() - 1);
        };
        char tx[160];
        switch (how) {
        case 0:
        case 1: // torn: only a prefix reached the disk
            b.resize(pos());
            must_fail = true;
            snprintf(tx, sizeof tx, "the first %zu of %zu bytes", b.size(), ref.size());
            break;
        case 2: { // crash while the file was being written over
            size_t k = pos();
            for (size_t i = k; i < b.size(); i++)
                b[i] = 0;
            snprintf(tx, sizeof tx, "zeros from byte %zu of %zu", k, ref.size());
            break;
        }
        case 3: { // one bit
            size_t k = pos();
            b[k] = (char)(b[k] ^ (1 << pick("bit", 0, 7)));
            snprintf(tx, sizeof tx, "a bit of byte %zu of %zu flipped", k, ref.size());
            break;
        }
        case 4: { // several bytes
            int c = (int)pick("bytes", 1, 30);
            for (int i = 0; i < c; i++)
                b[(size_t)g.below((i64)b.size())] = (char)g.next();
            snprintf(tx, sizeof tx, "%d random bytes", c);
            break;
        }
        case 5:
        case 6: { // an 8 byte integer (length, dimension, enumeration)
            size_t k = std::min(pos(), b.size() - 8);
            int64_t v = sim::one_of<int64_t>("value", {-1, 0, 1, INT_MAX, INT_MIN, 1 << 20, 255, 3, 7, 1000, -1000, 1 << 30, INT64_MAX, INT64_MIN, 1LL << 32, 1LL << 40, (int64_t)ref.size()});
            if (chance("relative", 0.3)) {
                memcpy(&v, b.data() + k, 8);
                v = (int64_t)((uint64_t)v + (uint64_t)sim::one_of<int64_t>("delta", {1, -1, 2, -2, 100}));
            }
            memcpy(b.data() + k, &v, 8);
            snprintf(tx, sizeof tx, "integer %lld at byte %zu of %zu", (long long)v, k, ref.size());
            break;
        }
        case 7: { // an 8 byte value
            size_t k = std::min(pos(), b.size() - 8);
            double v = sim::one_of<double>("real", {NAN, INFINITY, -1.0, 1e300, 0.0, -0.0});
            memcpy(b.data() + k, &v, 8);
            snprintf(tx, sizeof tx, "value %g at byte %zu of %zu", v, k, ref.size());
            break;
        }
        case 8: { // bytes lost or doubled in the middle
            size_t k = pos(), c = (size_t)pick("gap", 1, 40);
            if (chance("doubled", 0.5)) {
                std::vector<char> t(b.begin() + (long)k, b.begin() + (long)std::min(b.size(), k + c));
                b.insert(b.begin() + (long)k, t.begin(), t.end());
                snprintf(tx, sizeof tx, "bytes %zu+%zu of %zu doubled", k, c, ref.size());
            } else {
                b.erase(b.begin() + (long)k, b.begin() + (long)std::min(b.size(), k + c));
                must_fail = b.empty();
                snprintf(tx, sizeof tx, "bytes %zu+%zu of %zu lost", k, c, ref.size());
            }
            break;
        }
        case 9: { // metadata that does not fit this library
            size_t kw;
            {
                int64_t v;
                memcpy(&v, b.data(), 8);
                kw = (size_t)v;
            }
            int field = (int)pick("meta", 0, 4);
            auto put = [&](size_t k, int64_t v) { memcpy(b.data() + 8 + kw + k, &v, 8); };
            if (field == 0)
                b[8 + (size_t)pick("kw", 0, (i64)kw - 1)] ^= 0x20;
            else if (field == 1)
                put(0, sim::one_of<int>("intsize", {8, 0, 1, -4, 16}));
            else if (field == 2)
                put(8, sim::one_of<int>("version", {0, 1, -1, 40000}));
            else if (field == 3)
                put(16, sim::one_of<int>("type", {-1, 0, 1000, 99999, INT_MAX, INT_MIN}));
            else
                put(24, sim::one_of<int>("prec", {0, 2, 16, -8, 1}));
            must_fail = true;
            snprintf(tx, sizeof tx, "metadata field %d", field);
            break;
        }
        case 10: { // the type or precision of another model
            int64_t v;
            memcpy(&v, b.data(), 8);
            size_t k = 8 + (size_t)v + 16;
            if (chance("precision", 0.3)) {
                v = m.dbl ? 4 : 8;
                memcpy(b.data() + k + 8, &v, 8);
            } else {
                v = pick("other", 0, 14);
                memcpy(b.data() + k, &v, 8);
            }
            snprintf(tx, sizeof tx, "type or precision %d", (int)v);
            break;
        }
        case 11: // reads fail
            file = true;
            f.read_fail_after = pick("read_fail", 0, (i64)b.size() - 1);
            f.read_errno = sim::one_of<int>("errno", {EIO, EBADF, ENOMEM});
            if (chance("short_io", 0.4))
                f.short_io = pick("short_n", 1, 300);
            must_fail = true;
            snprintf(tx, sizeof tx, "read error after %lld of %zu bytes", (long long)f.read_fail_after, b.size());
            break;
        case 12: // nothing to open
            file = true;
            must_fail = true;
            if (chance("dir", 0.3))
                target = sim::scratch("");
            else if (chance("missing", 0.5))
                target = sim::scratch("nothing_here");
            else {
                f.open_fail = 1;
                f.open_errno = sim::one_of<int>("errno_open", {EACCES, EMFILE, ENFILE, EIO});
            }
            snprintf(tx, sizeof tx, "a file that cannot be opened");
            break;
        default: // memory runs out while loading the intact file
            sim::fail_alloc(pick("nth", 1, 60), sim::one_of<i64>("cnt", {1, 1, 3, 100000}));
            snprintf(tx, sizeof tx, "failed allocations");
        }
        if (file)
            write_file(name, b);
        sim::io_faults(f);
        if (how < 11)
            sim::fault("damaged-model");
        Handle l;
        da_status st;
        sim::peak_reset();
        {
            Buf<char> ub(b);
            st = api("da_handle_load_model", [&] {
                return file ? da_handle_load_model(&l.h, target.c_str()) : da_handle_load_model(&l.h, ub.p, b.size());
            });
        }
        bool fired = sim::alloc_faults_fired() > 0;
        sim::io_clear();
        sim::clear_alloc_faults();
        sim::log("round %d: %s: status %d", r, tx, (int)st);
        sim::hash_mix((sim::u64)st);
        // every length is bounded by the bytes there are: a container of vectors needs a few dozen
        // bytes per element at most
        if (sim::peak_bytes() > 200 * ref.size() + (1 << 20))
            failf("memory", "%s: %s: loading %zu bytes took %zu bytes of memory", m.kind.c_str(), tx, ref.size(), sim::peak_bytes());
        if (must_fail && st == da_status_success)
            failf(how <= 1 ? "accepted:torn" : how == 9 ? "accepted:metadata" : how == 11 ? "accepted:read-error" : "accepted:other",
                  "%s: loading a model with %s reported success", m.kind.c_str(), tx);
        if (how == 13 && !fired && st != da_status_success)
            failf("refused", "%s: an intact model was refused: %d", m.kind.c_str(), (int)st);
        if (st == da_status_success && (how == 11 || how == 12 || how == 13)) {
            ask(m, l.h, got);
            for (size_t k = 0; k < base.size(); k++) {
                std::string e = diff(base[k], got[k]);
                if (!e.empty())
                    failf("fault:query", "%s: %s: loaded with success but %s: %s", m.kind.c_str(), tx, m.queries[k].name.c_str(), e.c_str());
            }
        }
        if (st != da_status_success && l.h) {
            errmsg(l.h);
            if (chance("load_again_same", 0.2)) { // a handle that exists is not loaded over
                Buf<char> ub(ref);
                da_handle before = l.h;
                da_status s2 = api("da_handle_load_model", [&] { return da_handle_load_model(&l.h, ub.p, ref.size()); });
                if (s2 == da_status_success || l.h != before)
                    failf("over", "%s: loading over an existing handle returned %d", m.kind.c_str(), (int)s2);
            }
        }
        if (st == da_status_success)
            probe("damage_accepted");
        else
            probe("refused");
        l.destroy();
        if (r == rounds - 1 || chance("intact_now", 0.3)) {
            Handle k;
            if (file)
                write_file(name, ref);
            Buf<char> ub(ref);
            st = api("da_handle_load_model", [&] {
                return file ? da_handle_load_model(&k.h, name.c_str()) : da_handle_load_model(&k.h, ub.p, ref.size());
            });
            if (st != da_status_success)
                failf("intact:load", "%s: after %s the intact model does not load: %d", m.kind.c_str(), tx, (int)st);
            ask(m, k.h, got);
            for (size_t q = 0; q < base.size(); q++) {
                std::string e = diff(base[q], got[q]);
                if (!e.empty())
                    failf("intact:query", "%s: after %s: %s: %s", m.kind.c_str(), tx, m.queries[q].name.c_str(), e.c_str());
            }
            probe("intact");
        }
    }
}
#define S(n, k) static void n() { go(k); }
S(linmod, K_LINMOD) S(pca, K_PCA) S(kpca, K_KPCA) S(kmeans, K_KMEANS) S(tree, K_TREE) S(forest, K_FOREST) S(nn, K_NN)
S(ann, K_ANN) S(svm, K_SVM)
sim::Scenario sim_scenarios[] = {{"linmod", linmod, 3}, {"pca", pca, 3},   {"kernel_pca", kpca, 2}, {"kmeans", kmeans, 3},
                                 {"tree", tree, 3},     {"forest", forest, 3}, {"nn", nn, 3},          {"approx_nn", ann, 3},
                                 {"svm", svm, 3},       {nullptr, nullptr, 0}};
