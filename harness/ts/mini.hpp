// A small C++ grammar with tree-sitter-cpp's node types: declarations, calls and their arguments.
#pragma once
#include "tree_sitter/api.h"
#include <string>
#include <vector>
#include <memory>
#include <cstring>
struct MNode { const char* type; uint32_t a, b; bool named; MNode* up = nullptr; std::vector<MNode*> kids; std::string field; };
struct TSParser { const TSLanguage* lang = nullptr; };
struct TSTree { std::string text; std::vector<std::unique_ptr<MNode>> all; MNode* root = nullptr; };
struct MParse {
    TSTree& t; const std::string& s; size_t p = 0;
    MParse(TSTree& x) : t(x), s(x.text) {}
    MNode* mk(const char* type, size_t a, size_t b, bool named = true) { t.all.push_back(std::make_unique<MNode>()); MNode* n = t.all.back().get(); n->type = type; n->a = (uint32_t)a; n->b = (uint32_t)b; n->named = named; return n; }
    MNode* add(MNode* up, MNode* k, const char* field = "") { if (!k) return k; k->up = up; k->field = field; up->kids.push_back(k); if (k->b > up->b) up->b = k->b; if (k->a < up->a) up->a = k->a; return k; }
    static bool id0(char c) { return isalpha((unsigned char)c) || c == '_'; } static bool idc(char c) { return isalnum((unsigned char)c) || c == '_'; }
    void ws(MNode* up) {       // white space; comments become children of the node being parsed, as in tree-sitter
        for (;;) {
            while (p < s.size() && isspace((unsigned char)s[p])) p++;
            if (s.compare(p, 2, "//") == 0) { size_t a = p; while (p < s.size() && s[p] != '\n') p++; if (up) add(up, mk("comment", a, p)); }
            else if (s.compare(p, 2, "/*") == 0) { size_t a = p; p = s.find("*/", p + 2); p = p == std::string::npos ? s.size() : p + 2; if (up) add(up, mk("comment", a, p)); }
            else return;
        }
    }
    MNode* tok(MNode* up, const char* w) { size_t n = strlen(w); if (s.compare(p, n, w)) return nullptr; p += n; MNode* k = mk(w, p - n, p, false); return up ? add(up, k) : k; }
    MNode* ident(const char* type) { if (p >= s.size() || !id0(s[p])) return nullptr; size_t a = p; while (p < s.size() && idc(s[p])) p++; return mk(type, a, p); }
    bool args_angle(MNode* up) {           // <...>
        size_t a = p; if (p >= s.size() || s[p] != '<') return false; int d = 0; size_t q = p;
        for (; q < s.size() && s[q] != ';' && s[q] != '{'; q++) { if (s[q] == '<') d++; if (s[q] == '>' && --d == 0) break; }
        if (q >= s.size() || s[q] != '>') return false;
        MNode* l = mk("template_argument_list", a, q + 1); p = q + 1; add(up, l); return true;
    }
    MNode* path(const char* leaf) {        // a, a::b, a<..>, a::b<..>
        size_t a = p; MNode* n = ident(leaf); if (!n) return nullptr;
        if (s.compare(p, 2, "::") == 0) { MNode* q = mk("qualified_identifier", a, p); n->type = "namespace_identifier"; add(q, n); tok(q, "::"); MNode* r = path(leaf); if (!r) return q; add(q, r); q->b = (uint32_t)p; return q; }
        size_t save = p; if (p < s.size() && s[p] == '<') { MNode* q = mk(!strcmp(leaf, "type_identifier") ? "template_type" : "template_function", a, p); if (args_angle(q)) { q->kids.insert(q->kids.begin(), n); n->up = q; return q; } p = save; }
        return n;
    }
    MNode* expr() {
        size_t a = p; if (p >= s.size()) return nullptr;
        MNode* e = nullptr;
        if (s[p] == '&' || s[p] == '*') { MNode* u = mk("pointer_expression", a, p); tok(u, s[p] == '&' ? "&" : "*"); ws(u); MNode* x = expr(); if (!x) return nullptr; add(u, x); return u; }
        if (s[p] == '"') { size_t q = p + 1; while (q < s.size() && s[q] != '"') q += s[q] == '\\' ? 2 : 1; p = std::min(s.size(), q + 1); e = mk("string_literal", a, p); }
        else if (isdigit((unsigned char)s[p]) || s[p] == '-') { p++; while (p < s.size() && (idc(s[p]) || s[p] == '.')) p++; e = mk("number_literal", a, p); }
        else if (id0(s[p])) e = path("identifier");
        if (!e) return nullptr;
        for (;;) {
            if (p < s.size() && s[p] == '(') { MNode* c = mk("call_expression", a, p); add(c, e, "function"); MNode* l = list("argument_list", "(", ")"); add(c, l, "arguments"); e = c; }
            else if (p < s.size() && s[p] == '.' && p + 1 < s.size() && id0(s[p + 1])) { MNode* f = mk("field_expression", a, p); add(f, e, "argument"); tok(f, "."); add(f, ident("field_identifier"), "field"); e = f; }
            else if (p < s.size() && s[p] == '[') { MNode* f = mk("subscript_expression", a, p); add(f, e, "argument"); MNode* l = mk("subscript_argument_list", p, p); tok(l, "["); add(l, expr()); tok(l, "]"); add(f, l); e = f; }
            else return e;
        }
    }
    MNode* list(const char* type, const char* open, const char* close) {
        MNode* l = mk(type, p, p); tok(l, open);
        for (;;) { ws(l); if (p >= s.size()) return l; if (tok(l, close)) { l->b = (uint32_t)p; return l; } if (tok(l, ",")) continue; MNode* e = expr(); if (e) add(l, e); else { add(l, mk("ERROR", p, p + 1)); p++; } }
    }
    MNode* statement() {
        size_t a = p;
        if (s[p] == '#') { while (p < s.size() && s[p] != '\n') p++; return mk("preproc_include", a, p); }
        if (s[p] == '{') { MNode* c = mk("compound_statement", a, p); tok(c, "{"); body(c, true); return c; }
        if (!s.compare(p, 7, "return ")) { while (p < s.size() && s[p] != ';') p++; if (p < s.size()) p++; return mk("return_statement", a, p); }
        if (!s.compare(p, 4, "int ") || !s.compare(p, 6, "float ")) {
            MNode* ty = mk("primitive_type", p, p + (s[p] == 'i' ? 3 : 5)); p = ty->b; ws(nullptr); MNode* n = ident("identifier");
            if (n && p < s.size() && s[p] == '(') { MNode* f = mk("function_definition", a, p); add(f, ty, "type"); MNode* d = mk("function_declarator", n->a, p); add(d, n); add(d, list("parameter_list", "(", ")")); add(f, d, "declarator"); ws(f); if (p < s.size() && s[p] == '{') add(f, statement(), "body"); return f; }
            MNode* d = mk("declaration", a, p); add(d, ty, "type"); rest(d, n); return d;
        }
        // a declaration?  type name (...) ; or type name = ...
        { size_t save = p; size_t na = t.all.size(); MNode* ty = nullptr; bool aut = !s.compare(p, 5, "auto ");
          if (aut) { ty = mk("placeholder_type_specifier", p, p + 4); p += 4; } else ty = path("type_identifier");
          if (ty) { size_t w = p; ws(nullptr); MNode* n = p > w || aut ? ident("identifier") : nullptr; if (n && p < s.size()) { size_t q = p; while (q < s.size() && isspace((unsigned char)s[q])) q++; if (q < s.size() && strchr("(={;", s[q])) { MNode* d = mk("declaration", a, w); add(d, ty, "type"); rest(d, n); return d; } } }
          p = save; (void)na; }
        MNode* e = expr(); MNode* st = mk("expression_statement", a, p); if (e) add(st, e); ws(st);
        if (!tok(st, ";")) { if (!e && p < s.size()) { p++; } st->type = "ERROR"; } st->b = (uint32_t)std::max<size_t>(st->b, p); return st;
    }
    void rest(MNode* d, MNode* name) {      // after the declared name
        if (!name) return;
        ws(d); if (p < s.size() && s[p] == ';') { add(d, name, "declarator"); tok(d, ";"); return; }
        MNode* i = mk("init_declarator", name->a, name->b); add(i, name, "declarator");
        if (p < s.size() && s[p] == '(') add(i, list("argument_list", "(", ")"), "value");
        else if (p < s.size() && s[p] == '{') add(i, list("initializer_list", "{", "}"), "value");
        else if (tok(i, "=")) { ws(i); MNode* e = expr(); if (e) add(i, e, "value"); }
        add(d, i, "declarator"); ws(d); tok(d, ";"); d->b = (uint32_t)std::max<size_t>(d->b, p);
    }
    void body(MNode* up, bool braces) { for (;;) { ws(up); if (p >= s.size()) break; if (braces && tok(up, "}")) break; if (s[p] == ';') { p++; continue; } if (s[p] == '}') { p++; continue; } add(up, statement()); } up->b = (uint32_t)std::max<size_t>(up->b, p); }
};
