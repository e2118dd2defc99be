// Stand-in for tree-sitter: the reading part of its interface.
#pragma once
#include <cstdint>
#include <cstdbool>
extern "C" {
struct TSLanguage; struct TSParser; struct TSTree;
struct TSPoint { uint32_t row, column; };
struct TSNode { uint32_t context[4]; const void* id; const TSTree* tree; };
struct TSTreeCursor { const void* tree; const void* id; uint32_t context[3]; };
TSParser* ts_parser_new(void); void ts_parser_delete(TSParser* p); bool ts_parser_set_language(TSParser* p, const TSLanguage* l); void ts_parser_reset(TSParser* p);
TSTree* ts_parser_parse_string(TSParser* p, const TSTree* old, const char* s, uint32_t n); void ts_tree_delete(TSTree* t); TSNode ts_tree_root_node(const TSTree* t);
const char* ts_node_type(TSNode n); uint32_t ts_node_start_byte(TSNode n); uint32_t ts_node_end_byte(TSNode n); TSPoint ts_node_start_point(TSNode n); TSPoint ts_node_end_point(TSNode n);
bool ts_node_is_null(TSNode n); bool ts_node_is_named(TSNode n); bool ts_node_is_extra(TSNode n); bool ts_node_is_missing(TSNode n); bool ts_node_has_error(TSNode n); bool ts_node_eq(TSNode a, TSNode b);
uint32_t ts_node_child_count(TSNode n); TSNode ts_node_child(TSNode n, uint32_t i); uint32_t ts_node_named_child_count(TSNode n); TSNode ts_node_named_child(TSNode n, uint32_t i);
TSNode ts_node_parent(TSNode n); TSNode ts_node_next_sibling(TSNode n); TSNode ts_node_prev_sibling(TSNode n); TSNode ts_node_next_named_sibling(TSNode n); TSNode ts_node_child_by_field_name(TSNode n, const char* name, uint32_t len);
TSTreeCursor ts_tree_cursor_new(TSNode n); void ts_tree_cursor_delete(TSTreeCursor* c); TSNode ts_tree_cursor_current_node(const TSTreeCursor* c); bool ts_tree_cursor_goto_first_child(TSTreeCursor* c); bool ts_tree_cursor_goto_next_sibling(TSTreeCursor* c); bool ts_tree_cursor_goto_parent(TSTreeCursor* c);
}
