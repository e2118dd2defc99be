// C26: the diagram tool, run over and over on files it can read, half read or not read, on a disk that fills up.
#include "sim.hpp"
#include "ts/mini.hpp"
using sim::Quiet;
static int live_trees, live_parsers;
static const TSNode NIL = {{0, 0, 0, 0}, nullptr, nullptr};
static MNode* N(TSNode n) { if (!n.id) sim::fail("parser-misuse", "a node that is not there is asked for its properties"); return (MNode*)n.id; }
static TSNode W(const TSTree* t, MNode* m) { TSNode n = NIL; if (m) { n.id = m; n.tree = t; } return n; }
extern "C" {
const TSLanguage* tree_sitter_cpp() { return (const TSLanguage*)"cpp"; }
TSParser* ts_parser_new() { Quiet z; live_parsers++; return new TSParser; } void ts_parser_delete(TSParser* p) { Quiet z; live_parsers--; delete p; } bool ts_parser_set_language(TSParser* p, const TSLanguage* l) { p->lang = l; return true; } void ts_parser_reset(TSParser*) {}
TSTree* ts_parser_parse_string(TSParser* p, const TSTree*, const char* s, uint32_t n) { Quiet z; if (!p->lang) return nullptr; live_trees++; auto* t = new TSTree; t->text.assign(s, n); MParse m(*t); t->root = m.mk("translation_unit", 0, 0); m.body(t->root, false); return t; }
void ts_tree_delete(TSTree* t) { Quiet z; live_trees--; delete t; } TSNode ts_tree_root_node(const TSTree* t) { return W(t, t->root); }
const char* ts_node_type(TSNode n) { return N(n)->type; } uint32_t ts_node_start_byte(TSNode n) { return N(n)->a; } uint32_t ts_node_end_byte(TSNode n) { return N(n)->b; }
static TSPoint pt(TSNode n, uint32_t at) { TSPoint r = {0, 0}; for (uint32_t i = 0; i < at; i++) if (n.tree->text[i] == '\n') { r.row++; r.column = 0; } else r.column++; return r; }
TSPoint ts_node_start_point(TSNode n) { Quiet z; return pt(n, N(n)->a); } TSPoint ts_node_end_point(TSNode n) { Quiet z; return pt(n, N(n)->b); }
bool ts_node_is_null(TSNode n) { return !n.id; } bool ts_node_is_named(TSNode n) { return N(n)->named; } bool ts_node_is_extra(TSNode n) { return !strcmp(N(n)->type, "comment"); } bool ts_node_is_missing(TSNode) { return false; } bool ts_node_eq(TSNode a, TSNode b) { return a.id == b.id; }
bool ts_node_has_error(TSNode n) { if (!strcmp(N(n)->type, "ERROR")) return true; for (auto* k : N(n)->kids) if (ts_node_has_error(W(n.tree, k))) return true; return false; }
uint32_t ts_node_child_count(TSNode n) { return (uint32_t)N(n)->kids.size(); } TSNode ts_node_child(TSNode n, uint32_t i) { return i < N(n)->kids.size() ? W(n.tree, N(n)->kids[i]) : NIL; }
uint32_t ts_node_named_child_count(TSNode n) { uint32_t c = 0; for (auto* k : N(n)->kids) c += k->named; return c; } TSNode ts_node_named_child(TSNode n, uint32_t i) { for (auto* k : N(n)->kids) if (k->named && !i--) return W(n.tree, k); return NIL; }
TSNode ts_node_parent(TSNode n) { return W(n.tree, N(n)->up); }
static TSNode sib(TSNode n, int d, bool named) { MNode* m = N(n); if (!m->up) return NIL; auto& k = m->up->kids; int i = 0; while (k[i] != m) i++; for (i += d; i >= 0 && i < (int)k.size(); i += d) if (!named || k[i]->named) return W(n.tree, k[i]); return NIL; }
TSNode ts_node_next_sibling(TSNode n) { return sib(n, 1, false); } TSNode ts_node_prev_sibling(TSNode n) { return sib(n, -1, false); } TSNode ts_node_next_named_sibling(TSNode n) { return sib(n, 1, true); }
TSNode ts_node_child_by_field_name(TSNode n, const char* f, uint32_t l) { for (auto* k : N(n)->kids) if (k->field.size() == l && !k->field.compare(0, l, f, l)) return W(n.tree, k); return NIL; }
static TSNode cur(const TSTreeCursor* c) { return W((const TSTree*)c->tree, (MNode*)c->id); }
TSTreeCursor ts_tree_cursor_new(TSNode n) { TSTreeCursor c = {n.tree, n.id, {0, 0, 0}}; return c; } void ts_tree_cursor_delete(TSTreeCursor*) {} TSNode ts_tree_cursor_current_node(const TSTreeCursor* c) { return cur(c); }
static bool go(TSTreeCursor* c, TSNode n) { if (!n.id) return false; c->id = n.id; return true; }
bool ts_tree_cursor_goto_first_child(TSTreeCursor* c) { return go(c, ts_node_child(cur(c), 0)); } bool ts_tree_cursor_goto_next_sibling(TSTreeCursor* c) { return go(c, ts_node_next_sibling(cur(c))); } bool ts_tree_cursor_goto_parent(TSTreeCursor* c) { return go(c, ts_node_parent(cur(c))); }
}
#define main mermaid_main
#include "tools/mermaid/src/main.cpp"
#undef main
#include <set>

// ---------------------------------------------------------------- sources and what their diagrams must show
struct MBlock { std::string var, type, tmpl; bool used = false; bool in = false, out = false; };
struct Model { std::vector<MBlock> blocks; std::vector<std::pair<std::string, std::string>> edges; std::string text; bool flow = true, bad = false; };
static const char* types[] = {"SourceCWBlock", "AddBlock", "GainBlock", "FanoutBlock", "SinkNullBlock", "PlotTimeSeriesBlock", "ThrottleBlock", "my_block"};
static const char* tmpls[] = {"", "float", "std::complex<float>", "Packet<int, 3>", "float, 2", "const Data&", "Both<&a, &b>"};
static std::string gap() { static const char* g[] = {" ", "", "\n        ", " /* left, right. */ ", " // the next one. See below\n        "}; return g[sim::work(5)]; }
static Model make_source(unsigned serial) {
    Model m; std::string& s = m.text; if (sim::work(7) == 1) { m.flow = false; s = "int main() {\n    int x = 3;\n    return 0;\n}\n"; return m; }
    unsigned n = 1 + sim::work(7), shared = sim::work(3); static const char* stem[4] = {"b", "receiver_chain_of_the_second_antenna_stage_", "Blk", "b_"}; const char* st = stem[sim::work(8) < 4 ? 0 : sim::work(4)];
    s = "#include \"cler.hpp\"\n"; if (unsigned w = sim::work(30); w > 22) for (unsigned i = w == 29 ? 2600 + sim::work(800) : sim::work(400); i > 0; i--) s += "// line " + std::to_string(i) + " of the licence\n";
    s += "int main() {\n";
    for (unsigned i = 0; i < n; i++) { MBlock b; b.var = shared ? "blk" + std::to_string(i) : st + std::to_string(serial) + "_" + std::to_string(i); b.type = types[sim::work(8)]; b.tmpl = tmpls[sim::work(7)]; s += "    " + b.type + (b.tmpl.empty() ? "" : "<" + b.tmpl + ">") + " " + b.var + "(\"" + b.var + "\"" + (sim::work(2) ? ", 1000, 2.5f" : "") + ");\n"; m.blocks.push_back(b); if (sim::work(5) == 1) s += "    int x" + std::to_string(i) + " = 4;\n"; }
    std::string fg; std::set<std::string> seen; unsigned runners = 0;
    for (unsigned i = 0; i < n; i++) {
        if (sim::work(8) == 1) continue;
        fg += (runners++ ? "," + gap() : gap()) + "cler::BlockRunner(&" + m.blocks[i].var; m.blocks[i].used = true;
        unsigned k = sim::work(4);
        for (unsigned c = 0; c < k && n > 1; c++) {
            unsigned to = sim::work(n); if (to == i) continue; std::string ch = sim::work(2) ? "in" : "in[" + std::to_string(sim::work(3)) + "]";
            fg += "," + gap() + "&" + m.blocks[to].var + "." + ch;
            if (!seen.insert(std::to_string(i) + ">" + std::to_string(to) + "." + ch).second) continue;
            m.edges.push_back({m.blocks[i].var, m.blocks[to].var}); m.blocks[i].out = true; m.blocks[to].in = true; m.blocks[to].used = true;
        }
        fg += ")";
    }
    if (sim::work(10) == 1 && runners) { fg += ",\n        cler::BlockRunner(&" + m.blocks[0].var + ", &missing.in)"; m.bad = true; }
    s += "    auto fg = cler::make_desktop_flowgraph(" + fg + "\n    );\n    fg.run();\n    return 0;\n}\n";
    return m;
}
// the figures of a diagram: nodes with their labels and styles, edges
static std::string label_text(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '&') { static const char* e[][2] = {{"&lt;", "<"}, {"&gt;", ">"}, {"&amp;", "&"}, {"&quot;", "\""}, {"&apos;", "'"}}; bool hit = false; for (auto& x : e) if (!s.compare(i, strlen(x[0]), x[0])) { r += x[1]; i += strlen(x[0]) - 1; hit = true; break; } if (hit) continue; return "text that is not escaped: " + s; } r += s[i]; } return r; }
static std::string trim(std::string s) { size_t a = s.find_first_not_of(" \t"); if (a == std::string::npos) return ""; return s.substr(a, s.find_last_not_of(" \t") - a + 1); }
static std::string wrong(const Model& m, const std::string& md) {
    std::map<std::string, std::string> node; std::multiset<std::string> edges, want; bool open = false, closed = false; std::string text = md; if (text.empty() || text.back() != '\n') return "it ends in the middle of a line";
    for (size_t at = 0; at < text.size();) {
        size_t e = text.find('\n', at); std::string l = trim(text.substr(at, e - at)); at = e + 1; if (l.empty()) continue;
        if (closed) return "text after its end";
        if (l == "```mermaid") { if (open) return "two diagrams"; open = true; continue; }
        if (l == "```") { closed = true; continue; }
        if (!open) return "text before its beginning";
        if (!l.compare(0, 9, "flowchart") || !l.compare(0, 6, "style ") || !l.compare(0, 5, "class") ) continue;
        size_t ar = l.find("-->"); if (ar != std::string::npos && l.find('"') == std::string::npos) { edges.insert(trim(l.substr(0, ar)) + ">" + trim(l.substr(ar + 3))); continue; }
        size_t q = l.find('"'), q2 = l.rfind('"'); if (q == std::string::npos || q2 == q) return "an unreadable line: " + l;
        size_t i = 0; while (i < l.size() && MParse::idc(l[i])) i++; if (!node.insert({l.substr(0, i), l.substr(i)}).second) return "two nodes of one name";
    }
    if (!open || !closed) return "it is not complete";
    std::set<std::string> ids; std::map<std::string, std::string> id_of;
    for (auto& b : m.blocks) {
        std::string id; for (auto& n : node) { size_t q = n.second.find('"'), e = n.second.find_first_of("<\"", q + 1); if (n.second.substr(q + 1, e - q - 1) == b.var) id = n.first; }
        if (b.used != !id.empty()) return b.used ? "block " + b.var + " is missing" : "block " + b.var + " is shown though it is not in the graph";
        if (!b.used) continue;
        std::string lab = label_text(node[id]), ty = b.type; size_t p = ty.find("Block"); if (p != std::string::npos) ty.erase(p, 5);
        if (lab.find(ty) == std::string::npos || (!b.tmpl.empty() && lab.find("<" + b.tmpl + ">") == std::string::npos)) return "block " + b.var + " is shown as " + lab;
        bool src = b.out && !b.in, snk = b.in && !b.out; char c0 = node[id].size() > 1 ? node[id][1] : 0, first = node[id][0];
        if ((first == '(') != src || (first == '[' && c0 == '/') != snk) return "block " + b.var + " has the shape of another kind: " + node[id];
        ids.insert(id); id_of[b.var] = id;
    }
    if (ids.size() != node.size()) return std::to_string(node.size()) + " nodes for " + std::to_string(ids.size()) + " blocks";
    for (auto& e : m.edges) want.insert(id_of[e.first] + ">" + id_of[e.second]);
    if (want != edges) return std::to_string(edges.size()) + " connections are shown, or between other blocks; the graph has " + std::to_string(want.size());
    return "";
}
static void s_diagram() {
    struct File { std::string path, stem; Model m; bool there; }; std::vector<File> files; unsigned runs; bool calm; std::vector<std::string>* names = nullptr; (void)names;
    { Quiet z; live_trees = live_parsers = 0; unsigned n = 1 + sim::work(5); static const char* dirs[] = {"", "/src/", "/src/my.graphs/", "/a.b/"}; static const char* ext[] = {".cpp", ".cpp", ".cc", ".gen.cpp", ""};
      for (unsigned i = 0; i < n; i++) { File f; f.stem = "graph" + std::to_string(i); std::string x = ext[sim::work(5)]; f.path = dirs[sim::work(4)] + f.stem + x; size_t d = x.rfind('.'); if (d != std::string::npos) f.stem += x.substr(0, d); f.m = make_source(i); f.there = sim::work(10) != 1; if (f.there) sim::fs_put(f.path, f.m.text); files.push_back(f); }
      runs = 1 + sim::cfg(3); calm = sim::cfg(4) == 0; sim::set_step_limit(30000000, "hang");
      sim::sample("%u source files, %u runs%s", n, runs, calm ? "" : ", faults");
      if (!calm) { sim::set_rate(sim::F_READ_SHORT, sim::cfg(2) ? 300 : 0); sim::set_rate(sim::F_WRITE_SHORT, sim::cfg(2) ? 300 : 0); sim::set_rate(sim::F_READ_ERR, sim::cfg(3) == 0 ? 150 : 0); sim::set_rate(sim::F_WRITE_ERR, sim::cfg(3) == 0 ? 150 : 0); sim::set_rate(sim::F_OPEN, sim::cfg(5) == 0 ? 100 : 0); sim::set_rate(sim::F_CLOSE, sim::cfg(6) == 0 ? 100 : 0); } }
    int fds; { Quiet z; fds = sim::live_files(); }
    for (unsigned r = 0; r < runs; r++) {
        std::vector<unsigned> order; std::vector<std::string> argv_s; std::vector<char*> argv; bool verbose, named; std::string out; std::ostringstream so, se; std::vector<std::string> old; uint64_t err0; int64_t budget = -1;
        { Quiet z; unsigned k = 1 + sim::work((uint32_t)files.size() + 1); for (unsigned i = 0; i < k; i++) order.push_back(sim::work((uint32_t)files.size()));
          named = k == 1 && sim::work(2); verbose = sim::work(3) == 1; if (named) out = sim::work(2) ? "/out/diagram" : "diagram.v2";
          if (!calm && sim::cfg(3) == 0) budget = sim::work(1500); sim::fs_disk_budget(budget);
          for (unsigned i = 0; i < files.size(); i++) { old.push_back(files[i].m.text); if (sim::work(3) == 1) { files[i].m = make_source(i); files[i].there = sim::work(12) != 1 || sim::fs_exists(files[i].path); if (files[i].there) sim::fs_put(files[i].path, files[i].m.text); } }
          for (auto& f : files) if (sim::fs_exists(f.path)) f.there = true;
          argv_s.push_back("cler-mermaid"); for (unsigned i : order) argv_s.push_back(files[i].path); if (named) { argv_s.push_back("-o"); argv_s.push_back(out); } if (verbose) argv_s.push_back(sim::work(2) ? "-v" : "--verbose");
          for (auto& a : argv_s) argv.push_back((char*)a.c_str()); argv.push_back(nullptr);
          err0 = sim::fault_count(sim::F_READ_ERR) + sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_OPEN) + sim::fault_count(sim::F_CLOSE) + sim::fault_count(sim::F_DISK_FULL); }
        std::streambuf *c0 = std::cout.rdbuf(so.rdbuf()), *c1 = std::cerr.rdbuf(se.rdbuf());
        int rc = mermaid_main((int)argv.size() - 1, argv.data());
        std::cout.rdbuf(c0); std::cerr.rdbuf(c1);
        Quiet z; std::string said = so.str(); if (sim::verbose()) sim::note("run %u: rc %d\n%s%s", r, rc, said.c_str(), se.str().c_str());
        bool hurt = err0 != sim::fault_count(sim::F_READ_ERR) + sim::fault_count(sim::F_WRITE_ERR) + sim::fault_count(sim::F_OPEN) + sim::fault_count(sim::F_CLOSE) + sim::fault_count(sim::F_DISK_FULL);
        unsigned bad_files = 0, good = 0; std::map<unsigned, unsigned> claims, uses;
        for (unsigned i : order) { auto& f = files[i]; uses[i]++; if (!f.there || (f.m.flow && (f.m.bad || f.m.blocks.empty()))) bad_files++; else if (f.m.flow) good++; }
        for (auto& u : uses) {
            auto& f = files[u.first]; std::string md = (named ? out : f.stem + "_flowgraph") + ".md"; unsigned claimed = 0;
            for (size_t at = 0; at < said.size();) { size_t e = said.find('\n', at); if (e == std::string::npos) e = said.size(); std::string l = said.substr(at, e - at); at = e + 1; if (l.size() > md.size() && !l.compare(l.size() - md.size(), md.size(), md) && !MParse::idc(l[l.size() - md.size() - 1]) && l[l.size() - md.size() - 1] != '/') claimed++; }
            bool can = f.there && f.m.flow && !f.m.bad;
            if (claimed > (can ? u.second : 0)) sim::fail("false-claim", "run %u: %s is said to be generated %u times%s", r, md.c_str(), claimed, can ? "" : ", and its source has no valid flowgraph");
            if (claimed == u.second && claimed) { if (!sim::fs_exists(md)) sim::fail("false-claim", "run %u: %s is said to be generated and is not there", r, md.c_str()); std::string w = wrong(f.m, sim::fs_get(md)); if (!w.empty()) sim::fail("wrong-diagram", "run %u: %s: %s", r, md.c_str(), w.c_str()); sim::nontrivial(); }
            if (!hurt && can && claimed != u.second) sim::fail("not-generated", "run %u: %s is generated %u times for %u requests", r, md.c_str(), claimed, u.second);
            if (rc == 0 && can && claimed != u.second) sim::fail("unreported", "run %u: %s is not generated and the exit status says all is well", r, md.c_str());
        }
        if (!hurt && (rc != 0) != (bad_files > 0)) sim::fail("exit-status", "run %u: exit status %d with %u files that cannot be drawn", r, rc, bad_files);
        if (bad_files && rc == 0) sim::fail("exit-status", "run %u: exit status 0 with %u files that cannot be drawn", r, bad_files);
        if (live_trees || live_parsers) sim::fail("leak", "run %u leaves %d trees and %d parsers behind", r, live_trees, live_parsers);
        if (sim::live_files() != fds) sim::fail("leak", "run %u leaves a file open", r);
        if (hurt) sim::probe("run-with-fault"); (void)good;
    }
}
static const sim::Scenario S[] = {{"diagram", 1, s_diagram}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
