// C20: the logger.
#include "common.hpp"
#include <map>
#include <set>
#include "desktop_logger/desktop_logger.hpp"
#define ZF_LOG_LEVEL ZF_LOG_VERBOSE
#include "desktop_logger/zf_log/zf_log.h"

// ---- what the process does at exit, called by the harness
static void (*EXIT_FN)();
extern "C" int __wrap_atexit(void (*f)()) { Quiet z; EXIT_FN = f; return 0; }

// ---- history.  Times are event numbers.  State bits: 1 open, 2 closed.
struct Msg { int th, seq; std::string text; int lvl; uint64_t t0, t1; unsigned file = 0, out = 0; };
struct Op { uint64_t s, e; int after; };
struct Rot { bool on; size_t size; int max; };
struct H {
    uint64_t now = 0; std::vector<Msg> msgs; std::vector<Op> ops; int start_state = 2;
    std::vector<Rot> rots;                 // configurations that may be in force
    std::vector<std::string> bases; std::map<std::string, std::string> gone;     // discarded backups, oldest first
    unsigned rotated = 0, discarded = 0; uint64_t exit_at = ~0ull;
};
static H* h;
static int states(uint64_t t0, uint64_t t1) {
    int b = 0; bool any = false;
    for (auto& o : h->ops) {
        if (o.s <= t1 && o.e >= t0) { b |= o.after; continue; }
        if (o.e > t0) continue;
        bool last = true; for (auto& p : h->ops) if (&p != &o && p.s >= o.e && p.e < t0) last = false;
        if (last) b |= o.after, any = true;
    }
    return any ? b : b | h->start_state;
}
static bool split(const std::string& p, std::string& base, int& k) {
    for (auto& b : h->bases) { if (p == b) { base = b; k = 0; return true; }
        if (p.size() > b.size() + 1 && p.compare(0, b.size() + 1, b + ".") == 0) { std::string r = p.substr(b.size() + 1); char* e; long v = strtol(r.c_str(), &e, 10); if (*e || v < 1) return false; base = b; k = (int)v; return true; } }
    return false;
}
static void on_event(char what, const std::string& a, const std::string& b, const std::string& data, const std::string* over) {
    std::string base, base2; int k = 0, k2 = 0; size_t minsz = ~(size_t)0; bool en = false; std::set<int> maxs;
    for (auto& r : h->rots) if (r.on) { en = true; minsz = std::min(minsz, r.size); maxs.insert(r.max); }
    if (!split(a, base, k)) sim::fail("foreign-file", "the logger removes or renames %s", a.c_str());
    if (!en) sim::fail("rotation-off", "log files are rotated while rotation is off");
    auto discard = [&](const std::string& d) { h->gone[base] += d; h->discarded++; };
    if (what == 'u') { if (!maxs.count(k)) sim::fail("wrong-discard", "backup %d is deleted, the oldest kept is %d", k, *maxs.rbegin()); discard(data); return; }
    if (!split(b, base2, k2) || base2 != base || k2 != k + 1) sim::fail("wrong-rename", "rotation renames %s to %s", a.c_str(), b.c_str());
    if (k == 0) { h->rotated++; progress(); if (data.size() < minsz) sim::fail("early-rotation", "a log file of %zu bytes is rotated, the limit is %zu", data.size(), minsz); }
    if (k2 > *maxs.rbegin()) sim::fail("too-many-backups", "rotation makes backup %d of at most %d", k2, *maxs.rbegin());
    if (over && b != a) { if (!maxs.count(k2)) sim::fail("lost-backup", "rotation overwrites backup %d, the oldest kept is %d", k2, *maxs.rbegin()); discard(*over); }
}
static const char lvls[] = "?vdIWEF";
static std::string text_of(int th, int seq, size_t pad) { char b[64]; snprintf(b, sizeof b, "T%d #%d ", th, seq); std::string s = b; for (size_t i = 0; i < pad; i++) s += (char)('a' + (i * 7 + seq) % 26); return s + " end"; }
// one stored line -> message; -1 old line, -2 not intact
static int match(const std::string& l, bool out, std::map<std::pair<int, int>, int>& idx) {
    std::string s = l;
    if (out) { size_t p = s.find('m'); if (s.empty() || s[0] != '\x1b' || p == std::string::npos) return -2; s = s.substr(p + 1); static const std::string rs = cler::COLOR_RESET; if (s.size() < rs.size() || s.compare(s.size() - rs.size(), rs.size(), rs)) return -2; s.resize(s.size() - rs.size()); }
    if (s.compare(0, 4, "old ") == 0) return -1;
    if (s.size() < 27 || s[0] != '[' || s[5] != '-' || s[8] != '-' || s[11] != ' ' || s[14] != ':' || s[17] != ':' || s.compare(20, 3, "] [") || s.compare(24, 2, "] ")) return -2;
    char lc = s[23]; s = s.substr(26); int th, seq, n = 0;
    if (sscanf(s.c_str(), "T%d #%d %n", &th, &seq, &n) < 2) return -2;
    auto it = idx.find({th, seq}); if (it == idx.end()) return -2;
    const Msg& m = h->msgs[it->second];
    if (lc != lvls[m.lvl]) return -2;
    if (m.text.size() <= 400 ? s != m.text : s.size() < 400 || m.text.compare(0, s.size(), s)) return -2;
    return it->second;
}
static void s_log() {
    static H hist; unsigned nthr, nmsg, padmax; int level; bool null_start, faults, twice, exit_early; std::string A = "/log/a.log", B = "/log/b.log"; Rot first{false, 0, 1};
    { Quiet z; h = &hist; *h = H(); h->bases = {A, B}; sim::fs_capture_stdout(true); sim::fs_on_event(on_event); progress();
      nthr = 1 + sim::cfg(3); nmsg = 5 + sim::work(30); static const unsigned ps[4] = {300, 20, 120, 700}; padmax = ps[sim::cfg(4)]; level = sim::cfg(4) == 0 ? 4 : 0; null_start = sim::cfg(4) == 0; faults = sim::cfg(2); twice = sim::cfg(4) == 0; exit_early = sim::cfg(3) == 0;
      if (sim::cfg(4)) { static const size_t sz[4] = {1024, 0, 1500, 4000}; first = {true, sz[sim::cfg(4)], (int)sim::cfg(5)}; }
      for (auto& b : h->bases) if (sim::cfg(3) == 0) { std::string d; for (int i = 0; i < 30; i++) d += "old line " + std::to_string(i) + "\n"; sim::fs_put(b, d); if (sim::cfg(2)) sim::fs_put(b + ".1", "old backup\n"); if (sim::cfg(2)) sim::fs_put(b + ".2", "old backup\n"); }
      sim::set_rate(sim::F_STALL, sim::cfg(6) == 0 ? 2 : 0);
      sim::sample("%u threads, %u messages of up to %u characters, %s, rotation %s from %zu bytes keeping %d%s", nthr, nmsg, padmax, null_start ? "no file at first" : "file", first.on ? "on" : "off", first.size, first.max, faults ? ", I/O errors" : ""); }
    auto clampr = [](Rot r) { r.size = std::max<size_t>(r.size, 1024); r.max = std::max(1, std::min(100, r.max)); return r; };
    if (Wk(2)) { auto r = cler::reset_logfile("/log/none"); Quiet z; if (r != cler::LOGGER_NOT_STARTED || sim::fs_exists("/log/none")) sim::fail("wrong-result", "reset_logfile() before start_logging() returns %d", (int)r); }
    auto r0 = cler::start_logging(null_start ? nullptr : A.c_str());
    { Quiet z; if (r0 != cler::LOGGER_SUCCESS) sim::fail("wrong-result", "start_logging() returns %d", (int)r0); h->start_state = null_start ? 2 : 1; if (!EXIT_FN) sim::fail("no-exit-handler", "the log file is not closed at exit"); }
    if (twice) { auto r = cler::start_logging(B.c_str()); Quiet z; if (r != cler::LOGGER_ALREADY_STARTED) sim::fail("wrong-result", "a second start_logging() returns %d", (int)r); }
    if (first.on) { { Quiet z; h->rots = {clampr(first)}; } cler::enable_log_rotation(first.size, first.max); } else { Quiet z; h->rots = {{false, 0, 1}}; }
    cler::set_log_level(level);
    bool stop = false; unsigned running = nthr;
    std::vector<std::thread> ts;
    { Quiet z; ts.reserve(8); h->msgs.reserve(200); h->ops.reserve(400); }
    for (unsigned t = 0; t < nthr; t++) ts.emplace_back([&, t] {
        for (unsigned i = 0; i < nmsg; i++) {
            std::string txt; int lvl; size_t at; uint64_t o0;
            { Quiet z; txt = text_of((int)t, (int)i, sim::work(padmax)); lvl = 1 + (int)sim::work(6); at = h->msgs.size(); h->msgs.push_back({(int)t, (int)i, txt, lvl, h->now++, ~0ull}); o0 = sim::fault_count(sim::F_OPEN); progress(); }
            ZF_LOG_WRITE(lvl, "tag", "%s", txt.c_str());
            uint64_t nap = 0;
            { Quiet z; h->msgs[at].t1 = h->now++; if (sim::fault_count(sim::F_OPEN) != o0) h->ops.push_back({h->msgs[at].t0, h->msgs[at].t1, 3}); if (sim::work(6) == 0) nap = 1000 * sim::work(200); }
            if (nap) sim::sleep_ns(nap);
        }
        Quiet z; running--;
    });
    // one thread switches files, another one changes the rotation and verifies
    auto file_op = [&](unsigned what) {
        Op o; { Quiet z; o.s = h->now++; o.after = 0; progress(); }
        if (what == 0) { cler::close_log_file(); o.after = 2; }
        else if (what == 1) { auto r = cler::reset_logfile(nullptr); Quiet z; if (r != cler::LOGGER_FILEPATH_EMPTY) sim::fail("wrong-result", "reset_logfile(null) returns %d", (int)r); }
        else { uint64_t e0; { Quiet z; e0 = sim::fault_count(sim::F_OPEN) + sim::fault_count(sim::F_ALLOC); } const char* p = what & 1 ? A.c_str() : B.c_str(); auto r = cler::reset_logfile(p); Quiet z; o.after = r == cler::LOGGER_SUCCESS ? 1 : 2;
            if (r != cler::LOGGER_SUCCESS && (r != cler::LOGGER_COULD_NOT_OPEN_FILE || sim::fault_count(sim::F_OPEN) + sim::fault_count(sim::F_ALLOC) == e0)) sim::fail("wrong-result", "reset_logfile() returns %d", (int)r); }
        Quiet z; o.e = h->now++; if (o.after) h->ops.push_back(o);
    };
    std::vector<std::pair<Op, int>> verifies; unsigned nfile, nrot; { Quiet z; nfile = sim::cfg(2) ? sim::work(10) : 0; nrot = sim::cfg(2) ? sim::work(10) : 0; verifies.reserve(64); }
    std::thread ctl1, ctl2;
    if (nfile) ctl1 = std::thread([&] { for (unsigned i = 0; i < nfile; i++) { unsigned w; uint64_t nap; { Quiet z; w = sim::work(6); nap = 1000 * sim::work(300); } sim::sleep_ns(nap); file_op(w); } });
    if (nrot) ctl2 = std::thread([&] {
        int grow; { Quiet z; grow = first.on ? clampr(first).max : 1; }
        for (unsigned i = 0; i < nrot; i++) {
            unsigned w; uint64_t nap; Rot r{true, 0, 1}; { Quiet z; w = sim::work(4); nap = 1000 * sim::work(300); r.size = 900 + sim::work(2000); grow = r.max = grow + (int)sim::work(2); }
            sim::sleep_ns(nap);
            if (w < 2) { { Quiet z; h->rots.push_back(w ? clampr(r) : Rot{false, 0, 1}); } if (w) cler::enable_log_rotation(r.size, r.max); else cler::disable_log_rotation(); Quiet z; h->rots.erase(h->rots.begin(), h->rots.end() - 1); }
            else { Op o; uint64_t f0; { Quiet z; o.s = h->now++; f0 = sim::fault_count(sim::F_FSYNC) + sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_DISK_FULL); }
                auto res = cler::verify_logfile();
                Quiet z; o.e = h->now++; bool flt = sim::fault_count(sim::F_FSYNC) + sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_DISK_FULL) != f0; o.after = flt;
                if (res != cler::LOGGER_SUCCESS && res != cler::LOGGER_FILE_PTR_IS_NULL && !flt) sim::fail("wrong-result", "verify_logfile() returns %d although no system call failed", (int)res);
                verifies.push_back({o, (int)res}); if (res != cler::LOGGER_SUCCESS && res != cler::LOGGER_FILE_PTR_IS_NULL) { o.after = 2; h->ops.push_back(o); } }
        }
    });
    { Quiet z; if (faults) { static const unsigned rt[4] = {0, 20, 5, 80}; for (auto f : {sim::F_OPEN, sim::F_WRITE_ERR, sim::F_WRITE_SHORT, sim::F_DISK_FULL, sim::F_RENAME, sim::F_UNLINK, sim::F_FSYNC, sim::F_CLOSE, sim::F_ALLOC}) sim::set_rate(f, rt[sim::cfg(4)]); } }
    // a full disk does not stay full
    if (faults) { for (int i = 0; i < 400; i++) { bool e; { Quiet z; e = running == 0; if (sim::work(4) == 0) sim::fs_disk_budget(-1); } if (e) break; sim::sleep_ns(50000); } }
    if (exit_early) until([&] { return running == 0; }, 1000 + Wk(1000000)); else until([&] { return running == 0; });
    { Op o; { Quiet z; for (auto f : {sim::F_OPEN, sim::F_WRITE_ERR, sim::F_DISK_FULL, sim::F_RENAME, sim::F_UNLINK, sim::F_FSYNC, sim::F_ALLOC}) if (!exit_early) sim::set_rate(f, 0); o.s = h->now++; h->exit_at = o.s; }
      EXIT_FN(); Quiet z; o.e = h->now++; o.after = 2; h->ops.push_back(o); }
    for (auto& t : ts) t.join();
    if (nfile) ctl1.join();
    if (nrot) ctl2.join();
    cler::close_log_file();
    // ---------------------------------------------------------------- the record
    Quiet z; progress();
    std::map<std::pair<int, int>, int> idx; for (size_t i = 0; i < h->msgs.size(); i++) idx[{h->msgs[i].th, h->msgs[i].seq}] = (int)i;
    uint64_t werr = sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_DISK_FULL); unsigned broken = 0;
    auto scan = [&](const std::string& data, bool out, const char* where) {
        std::map<int, int> last; size_t p = 0;
        while (p < data.size()) {
            size_t q = data.find('\n', p); std::string l = data.substr(p, q == std::string::npos ? q : q - p); bool whole = q != std::string::npos; p = whole ? q + 1 : data.size();
            int m = whole ? match(l, out, idx) : -2;
            if (m == -2) { if (l.empty() && werr) continue; if (out || ++broken > werr) sim::fail("broken-line", "%s holds the line \"%.60s...\", which is not one logged message (%llu failed writes)", where, l.c_str(), (unsigned long long)werr); continue; }
            if (m < 0) continue;
            Msg& g = h->msgs[m]; (out ? g.out : g.file)++;
            if ((out ? g.out : g.file) > 1) sim::fail("duplicate", "message %d of thread %d appears twice (%s)", g.seq, g.th, where);
            auto it = last.find(g.th); if (it != last.end() && it->second > g.seq) sim::fail("order", "thread %d: message %d comes after message %d in %s", g.th, g.seq, it->second, where);
            last[g.th] = g.seq;
        }
    };
    for (auto& b : h->bases) {
        std::vector<std::pair<int, std::string>> bk; std::string base; int k;
        for (auto& f : sim::fs_list()) if (split(f, base, k) && base == b) bk.push_back({-k, f});
        std::sort(bk.begin(), bk.end());
        std::string all = h->gone[b]; for (auto& f : bk) all += sim::fs_get(f.second);
        scan(all, false, b.c_str());
    }
    for (auto& f : sim::fs_list()) { std::string base; int k; if (f != "<stdout>" && !split(f, base, k)) sim::fail("foreign-file", "the logger made the file %s", f.c_str()); }
    if (first.on && !nrot && !faults) for (auto& b : h->bases) if (sim::fs_get(b).size() >= clampr(first).size + 1200) sim::fail("no-rotation", "%s has grown to %zu bytes, files are rotated from %zu", b.c_str(), sim::fs_get(b).size(), clampr(first).size);
    scan(sim::fs_get("<stdout>"), true, "the terminal");
    uint64_t missing = 0;
    for (auto& m : h->msgs) {
        bool quiet = m.lvl < level; int st = states(m.t0, m.t1);
        if (quiet) { if (m.file || m.out) sim::fail("level", "message %d of thread %d is below the log level and appears", m.seq, m.th); continue; }
        if (m.file && !(st & 1)) sim::fail("after-close", "message %d of thread %d was logged while no file was open and appears in a file", m.seq, m.th);
        if (!m.file && st == 1 && m.t1 < h->exit_at) { missing++; if (missing > werr) sim::fail("lost-message", "message %d of thread %d was logged while the file was open and is in no file (%llu missing, %llu failed writes)", m.seq, m.th, (unsigned long long)missing, (unsigned long long)werr); }
        if (!m.out && m.t1 < h->exit_at) sim::fail("lost-message", "message %d of thread %d did not reach the terminal", m.seq, m.th);
    }
    for (auto& v : verifies) { int st = states(v.first.s, v.first.e); if (st == 1 && v.second == cler::LOGGER_FILE_PTR_IS_NULL) sim::fail("wrong-result", "verify_logfile() says no file is open, one is"); if (st == 2 && v.second == cler::LOGGER_SUCCESS) sim::fail("wrong-result", "verify_logfile() succeeds, no file is open"); }
    if (sim::live_files()) sim::fail("leak", "%d files are still open after exit", sim::live_files());
    sim::probe("rotated", h->rotated); sim::probe("discarded", h->discarded);
    if (h->rotated || nfile || werr) sim::nontrivial();
}
// several threads start the logger and log at once
static void s_start() {
    static H hist; unsigned nthr, nmsg; bool sw; { Quiet z; h = &hist; *h = H(); h->bases = {"/log/a.log", "/log/b.log"}; sim::fs_capture_stdout(true); sim::fs_on_event(on_event); progress(); nthr = 2 + sim::cfg(2); nmsg = 1 + sim::work(5); sw = sim::cfg(2); sim::sample("%u threads start the logger%s", nthr, sw ? " and switch files" : ""); sim::set_rate(sim::F_STALL, sim::cfg(6) == 0 ? 2 : 0); }
    std::vector<std::thread> ts; { Quiet z; ts.reserve(4); h->msgs.reserve(64); } unsigned started = 0; cler::set_log_level(0);
    for (unsigned t = 0; t < nthr; t++) ts.emplace_back([&, t] {
        if (sw && Wk(3) == 0) { auto r = cler::reset_logfile("/log/b.log"); Quiet z; if (r != cler::LOGGER_SUCCESS && r != cler::LOGGER_NOT_STARTED) sim::fail("wrong-result", "reset_logfile() returns %d", (int)r); }
        auto r = cler::start_logging("/log/a.log");
        { Quiet z; if (r == cler::LOGGER_SUCCESS) started++; else if (r != cler::LOGGER_ALREADY_STARTED) sim::fail("wrong-result", "start_logging() returns %d", (int)r); }
        for (unsigned i = 0; i < nmsg; i++) {
            if (sw && Wk(4) == 0) { auto q = cler::reset_logfile(Wk(2) ? "/log/a.log" : "/log/b.log"); Quiet z; if (q != cler::LOGGER_SUCCESS) sim::fail("wrong-result", "reset_logfile() returns %d", (int)q); }
            std::string txt; { Quiet z; txt = text_of((int)t, (int)i, sim::work(40)); h->msgs.push_back({(int)t, (int)i, txt, 3, 0, 0}); }
            ZF_LOG_WRITE(3, "tag", "%s", txt.c_str());
        }
    });
    for (auto& t : ts) t.join();
    if (started != 1) sim::fail("wrong-result", "%u threads were told that they started the logger", started);
    cler::close_log_file();
    Quiet z; std::map<std::pair<int, int>, int> idx; for (size_t i = 0; i < h->msgs.size(); i++) idx[{h->msgs[i].th, h->msgs[i].seq}] = (int)i;
    for (auto& b : h->bases) { std::string d = sim::fs_get(b); std::map<int, int> last; size_t p = 0, q; while ((q = d.find('\n', p)) != std::string::npos) { int m = match(d.substr(p, q - p), false, idx); p = q + 1; if (m < 0) sim::fail("broken-line", "%s holds a line that is not one logged message", b.c_str()); if (h->msgs[m].file++) sim::fail("duplicate", "a message appears twice"); int th = h->msgs[m].th; if (last.count(th) && last[th] > h->msgs[m].seq) sim::fail("order", "messages of thread %d are out of order", th); last[th] = h->msgs[m].seq; } if (p != d.size()) sim::fail("broken-line", "%s ends inside a line", b.c_str()); }
    // (a thread that was told "already started" may log before the starter has opened the file: absence is not checked here)
    sim::nontrivial();
}
static const sim::Scenario S[] = {{"log", 4, s_log}, {"start", 1, s_start}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
