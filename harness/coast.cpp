// C24: the coastline map of the aircraft display, read from a shapefile whose reads are short or fail,
// that ends anywhere, is damaged, or is rewritten while it is read.
#include "sim.hpp"
#include <algorithm>
#include <thread>
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <cmath>
#include <memory>
#include "desktop_blocks/adsb/adsb_coastline_loader.hpp"
using sim::Quiet;
#define NOTSAN __attribute__((no_sanitize("thread")))
static const char* PATH = "/map/coast.shp";
typedef std::vector<std::pair<float, float>> Line;
static unsigned C(unsigned n) { Quiet z; return sim::cfg(n); }

struct Rec { std::vector<Line> lines; size_t at, end; unsigned parts = 0, pts = 0; };     // a polyline record and its bytes in the file
struct Map { std::string bytes; std::vector<Rec> recs; size_t lines = 0; };
static void be32(std::string& s, uint32_t v) { for (int k = 24; k >= 0; k -= 8) s += (char)(v >> k); }
static void le32(std::string& s, uint32_t v) { for (int k = 0; k < 32; k += 8) s += (char)(v >> k); }
static void f64(std::string& s, double v) { char b[8]; memcpy(b, &v, 8); s.append(b, 8); }
static NOTSAN Map make_map() {
    Map m; m.bytes.assign(100, '\0'); m.bytes[2] = 0x27; m.bytes[3] = 0x0a;
    unsigned n = sim::work(24), big = sim::cfg(4) == 0 ? 300 : 12, serial = sim::work(1000);
    for (unsigned i = 0; i < n; i++) {
        std::string c; Rec r; bool poly = sim::work(6) != 1;
        if (!poly) { le32(c, sim::work(3) == 1 ? 0 : 1); for (unsigned k = sim::work(3) * 8 + (sim::work(4) == 1 ? 2 : 0); k > 0; k--) c += (char)k; }   // null shapes, points
        else {
            le32(c, 3); for (int k = 0; k < 4; k++) f64(c, k);
            unsigned parts = sim::work(8) == 1 ? 0 : 1 + (sim::work(3) == 1 ? sim::work(5) : 0), pts = 0; std::string idx, xy;
            for (unsigned p = 0; p < parts; p++) {
                le32(idx, pts); Line l; unsigned k = sim::work(10) == 1 ? 0 : 1 + sim::work(big);
                for (unsigned j = 0; j < k; j++, serial++) { double lon = (serial % 3600) / 10.0 - 180, lat = (serial % 1777) / 10.0 - 88; f64(xy, lon); f64(xy, lat); l.push_back({(float)lat, (float)lon}); }
                pts += k; if (k) r.lines.push_back(l);
            }
            r.parts = parts; r.pts = pts; le32(c, parts); le32(c, pts); c += idx + xy; if (sim::work(8) == 1) c += std::string(2 * (1 + sim::work(3)), '\x11');   // room behind the points, not always of whole 32-bit words
        }
        r.at = m.bytes.size(); be32(m.bytes, i + 1); be32(m.bytes, (uint32_t)c.size() / 2); m.bytes += c; r.end = m.bytes.size();
        m.lines += r.lines.size(); m.recs.push_back(r);
    }
    return m;
}
static NOTSAN bool same(const Line& a, const Line& b) { return a == b; }
static void s_coast() {
    Map m; std::string bytes; size_t intact; int fds; bool present, rshort, rerr, rewrite; unsigned how; int64_t heap0; int odd = -1;
    { Quiet z; m = make_map(); bytes = m.bytes; intact = bytes.size(); how = sim::cfg(7); present = sim::cfg(12) != 0; rshort = sim::cfg(2); rerr = sim::cfg(3) == 0; rewrite = sim::cfg(6) == 0;
      if (how == 1) { intact = sim::work((uint32_t)bytes.size() + 1); bytes.resize(intact); }                        // it ends early
      if (how == 2 || how == 3) { unsigned k = 1 + sim::work(how == 2 ? 1 : 6); for (unsigned i = 0; i < k; i++) { size_t at = sim::work((uint32_t)bytes.size()); if (sim::work(2) && !m.recs.empty()) { auto& r = m.recs[sim::work((uint32_t)m.recs.size())]; at = r.at + sim::work(60); if (at >= bytes.size()) at = bytes.size() - 1; } static const unsigned char v[5] = {0xff, 0x7f, 0, 1, 0x80}; bytes[at] = (char)v[sim::work(5)]; if (at < intact && bytes[at] != m.bytes[at]) intact = at; } }
      if (how == 6) {                                                                                                // one record's table of parts is inconsistent: past its points, or not ascending
          std::vector<size_t> can; for (size_t i = 0; i < m.recs.size(); i++) if (m.recs[i].parts) can.push_back(i);
          if (can.empty()) how = 0;
          else { odd = (int)can[sim::work((uint32_t)can.size())]; auto& r = m.recs[(size_t)odd]; intact = r.at; unsigned k = sim::work(3) ? r.parts - 1 : sim::work(r.parts); uint32_t v = r.pts + 1 + (sim::work(2) ? sim::work(6) : 0);
              switch (sim::work(6)) { case 4: v = 0xffffffffu - sim::work(2); break; case 3: case 5: v = r.pts - sim::work(r.pts + 1); break; } std::string t; le32(t, v); bytes.replace(r.at + 8 + 4 + 32 + 8 + 4 * k, 4, t); }
      }
      if (present) sim::fs_put(PATH, bytes);
      fds = sim::live_files(); heap0 = sim::live_heap_bytes();
      sim::set_heap_limit(heap0 + 40000 + 8 * (int64_t)m.bytes.size());
      sim::set_rate(sim::F_OPEN, sim::cfg(12) == 0 ? 512 : 0); sim::set_rate(sim::F_READ_SHORT, rshort ? 300 : 0); sim::set_rate(sim::F_READ_ERR, rerr ? 40 : 0);
      sim::set_step_limit(6000000, "hang");
      static const char* hn[7] = {"whole", "cut short", "one byte damaged", "damaged", "whole", "whole", "with an inconsistent table of parts"};
      sim::sample("map of %zu records, %zu polylines, %zu bytes, %s%s%s%s%s", m.recs.size(), m.lines, bytes.size(), hn[how], present ? "" : ", absent", rshort ? ", short reads" : "", rerr ? ", read errors" : "", rewrite ? ", rewritten meanwhile" : ""); }
    std::thread w; Map m2;
    if (rewrite && present) {
        { Quiet z; if (sim::work(3)) { m2 = make_map(); if (sim::work(2)) m2.bytes.resize(sim::work((uint32_t)m2.bytes.size() + 1)); } sim::set_heap_limit(heap0 + 40000 + 8 * (int64_t)(m.bytes.size() + m2.bytes.size())); }
        w = std::thread([&] { uint64_t d; { Quiet z; d = sim::work(120000); } sim::sleep_ns(d); int fd = open(PATH, O_WRONLY | O_TRUNC); if (fd < 0) return; for (size_t at = 0; at < m2.bytes.size();) { ssize_t n = write(fd, m2.bytes.data() + at, std::min<size_t>(512, m2.bytes.size() - at)); if (n <= 0) break; at += (size_t)n; } close(fd); });
    }
    uint64_t e0 = sim::fault_count(sim::F_READ_ERR);
    auto data = std::make_unique<CoastlineData>();
    bool ok = data->load_from_shapefile(PATH);
    if (w.joinable()) w.join();
    { Quiet z;
      bool eio = sim::fault_count(sim::F_READ_ERR) != e0, no_open = sim::fault_count(sim::F_OPEN) > 0, calm = !rewrite || !present;
      size_t got = data->polylines.size();
      if (ok != (got > 0)) sim::fail("wrong-answer", "loading says %s and there are %zu polylines", ok ? "yes" : "no", got);
      if (!present && got) sim::fail("invented", "a file that is not there gives %zu polylines", got);
      if (calm) {
          // what lies before the first missing, damaged or unreadable byte must be there, and nothing but the file's polylines, in order
          size_t k = 0;
          for (auto& r : m.recs) {
              if (odd >= 0 && &r == &m.recs[(size_t)odd]) {           // whatever is made of it, it is made of its own points, and the records behind it are not affected
                  if (eio || no_open) { k = got; break; }
                  size_t rest = 0; for (auto* q = &r + 1; q < m.recs.data() + m.recs.size(); q++) rest += q->lines.size();
                  size_t used = 0; std::vector<std::pair<float, float>> own; for (auto& l : r.lines) own.insert(own.end(), l.begin(), l.end());
                  for (; k + rest < got; k++)
                      for (auto& pt : data->polylines[k]) { used++; if (std::find(own.begin(), own.end(), pt) == own.end()) sim::fail("invented", "a record with an inconsistent table of parts gives a point that is not in it"); }
                  if (used > own.size()) sim::fail("invented", "a record of %zu points with an inconsistent table of parts gives %zu", own.size(), used);
                  continue;
              }
              bool whole = r.end <= intact && present;
              size_t k0 = k; bool all = true;
              for (auto& l : r.lines) if (k < got && same(l, data->polylines[k])) k++; else { all = false; break; }
              if (!all && whole && !eio && !no_open) sim::fail("lost-polylines", "polyline %zu of the file is missing or different (%zu loaded of %zu)", k, got, m.lines);
              if (!all) { k = k0; break; }
          }
          // a damaged record may give damaged polylines; anything else is exactly a record-wise prefix
          if (how != 2 && how != 3 && k != got) sim::fail("invented", "%zu polylines loaded, the first %zu are the file's (%zu in the file)", got, k, m.lines);
      }
      for (auto& l : data->polylines) { if (l.empty()) sim::fail("empty-line", "an empty polyline is kept"); }
      if (m.lines > 3 && present && !no_open) sim::nontrivial();
      if (eio) sim::probe("read-error-while-loading"); }
    data.reset();
    Quiet z; if (sim::live_files() != fds) sim::fail("leak", "the map file stays open");
}
static const sim::Scenario S[] = {{"coast", 1, s_coast}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
