#include "astx.hpp"
#include <algorithm>
#include <cstring>

namespace ax {

#define A(x) cypher_ast_##x
static Fld one(const char *n, const char *t, CN *(*g)(CN *)) { Fld f; f.name = n; f.kind = ONE; f.types = t; f.get = g; return f; }
static Fld opt(const char *n, const char *t, CN *(*g)(CN *)) { Fld f; f.name = n; f.kind = OPT; f.types = t; f.get = g; return f; }
static Fld lst(const char *n, const char *t, unsigned min, unsigned (*c)(CN *), CN *(*a)(CN *, unsigned)) {
    Fld f; f.name = n; f.kind = LIST; f.types = t; f.min = min; f.n = c; f.at = a; return f; }
static Fld prs(const char *n, const char *t, const char *t2, unsigned min, unsigned (*c)(CN *), CN *(*a)(CN *, unsigned), CN *(*a2)(CN *, unsigned)) {
    Fld f; f.name = n; f.kind = PAIRS; f.types = t; f.types2 = t2; f.min = min; f.n = c; f.at = a; f.at2 = a2; return f; }
static Fld flg(const char *n, bool (*b)(CN *)) { Fld f; f.name = n; f.kind = BOOL; f.b = b; return f; }
static Fld txt(const char *n, const char *(*t)(CN *)) { Fld f; f.name = n; f.kind = TEXT; f.t = t; return f; }
static Fld opr(const char *n, const cypher_operator_t *(*o)(CN *)) { Fld f; f.name = n; f.kind = OP; f.op = o; return f; }

#define EXPR "EXPRESSION"
#define ID "IDENTIFIER"
#define TAIL a.ch, a.nch, a.r
#define MK [](const Args &a) -> N *
#define O(i) a.v[i].one
#define B(i) a.v[i].b
#define LN(i) a.L(i), a.n(i)
#define TXT(i) a.v[i].s.data(), a.v[i].s.size()

static unsigned cmp_nargs(CN *n) { return cypher_ast_comparison_get_length(n) + 1; }

const std::vector<Spec> &specs() {
    static std::vector<Spec> *s = nullptr;
    if (s) return *s;
    s = new std::vector<Spec>;
#define ADD(NAME, PAR, STR, TERM, FIELDS, MAKE) s->push_back(Spec{#NAME, CYPHER_AST_##NAME, PAR, STR, TERM, std::vector<Fld> FIELDS, MAKE})
#define F(...) {__VA_ARGS__}
    ADD(STATEMENT, "", "statement", false, F(lst("options", "STATEMENT_OPTION", 0, A(statement_noptions), A(statement_get_option)),
        one("body", "QUERY SCHEMA_COMMAND", A(statement_get_body))), MK { return A(statement)(LN(0), O(1), TAIL); });
    ADD(CYPHER_OPTION, "STATEMENT_OPTION", "CYPHER", false, F(opt("version", "STRING", A(cypher_option_get_version)),
        lst("params", "CYPHER_OPTION_PARAM", 0, A(cypher_option_nparams), A(cypher_option_get_param))), MK { return A(cypher_option)(O(0), LN(1), TAIL); });
    ADD(CYPHER_OPTION_PARAM, "", "cypher parameter", false, F(one("name", "STRING", A(cypher_option_param_get_name)),
        one("value", "STRING", A(cypher_option_param_get_value))), MK { return A(cypher_option_param)(O(0), O(1), TAIL); });
    ADD(EXPLAIN_OPTION, "STATEMENT_OPTION", "EXPLAIN", true, F(), MK { return A(explain_option)(a.r); });
    ADD(PROFILE_OPTION, "STATEMENT_OPTION", "PROFILE", true, F(), MK { return A(profile_option)(a.r); });
    ADD(CREATE_NODE_PROPS_INDEX, "SCHEMA_COMMAND", "CREATE INDEX", false, F(one("label", "LABEL", A(create_node_props_index_get_label)),
        lst("prop_names", "PROP_NAME", 1, A(create_node_props_index_nprops), A(create_node_props_index_get_prop_name))), MK { return A(create_node_props_index)(O(0), LN(1), TAIL); });
    ADD(DROP_NODE_PROPS_INDEX, "SCHEMA_COMMAND", "DROP INDEX", false, F(one("label", "LABEL", A(drop_node_props_index_get_label)),
        lst("prop_names", "PROP_NAME", 1, A(drop_node_props_index_nprops), A(drop_node_props_index_get_prop_name))), MK { return A(drop_node_props_index)(O(0), LN(1), TAIL); });
#define NPC(NAME, n, str) ADD(NAME, "SCHEMA_COMMAND", str, false, F(one("identifier", ID, A(n##_get_identifier)), one("label", "LABEL", A(n##_get_label)), \
        one("expression", EXPR, A(n##_get_expression)), flg("unique", A(n##_is_unique))), MK { return A(n)(O(0), O(1), O(2), B(3), TAIL); })
    NPC(CREATE_NODE_PROP_CONSTRAINT, create_node_prop_constraint, "create node prop constraint");
    NPC(DROP_NODE_PROP_CONSTRAINT, drop_node_prop_constraint, "drop node prop constraint");
#define RPC(NAME, n, str) ADD(NAME, "SCHEMA_COMMAND", str, false, F(one("identifier", ID, A(n##_get_identifier)), one("reltype", "RELTYPE", A(n##_get_reltype)), \
        one("expression", EXPR, A(n##_get_expression)), flg("unique", A(n##_is_unique))), MK { return A(n)(O(0), O(1), O(2), B(3), TAIL); })
    RPC(CREATE_REL_PROP_CONSTRAINT, create_rel_prop_constraint, "create rel prop constraint");
    RPC(DROP_REL_PROP_CONSTRAINT, drop_rel_prop_constraint, "drop rel prop constraint");
    ADD(QUERY, "", "query", false, F(lst("options", "QUERY_OPTION", 0, A(query_noptions), A(query_get_option)),
        lst("clauses", "QUERY_CLAUSE", 1, A(query_nclauses), A(query_get_clause))), MK { return A(query)(LN(0), LN(1), TAIL); });
    ADD(USING_PERIODIC_COMMIT, "QUERY_OPTION", "USING PERIODIC_COMMIT", false, F(opt("limit", "INTEGER", A(using_periodic_commit_get_limit))), MK { return A(using_periodic_commit)(O(0), TAIL); });
    ADD(LOAD_CSV, "QUERY_CLAUSE", "LOAD CSV", false, F(flg("with_headers", A(load_csv_has_with_headers)), one("url", EXPR, A(load_csv_get_url)),
        one("identifier", ID, A(load_csv_get_identifier)), opt("field_terminator", "STRING", A(load_csv_get_field_terminator))), MK { return A(load_csv)(B(0), O(1), O(2), O(3), TAIL); });
    ADD(START, "QUERY_CLAUSE", "START", false, F(lst("points", "START_POINT", 1, A(start_npoints), A(start_get_point)), opt("predicate", EXPR, A(start_get_predicate))), MK { return A(start)(LN(0), O(1), TAIL); });
#define IXL(NAME, n, str) ADD(NAME, "START_POINT", str, false, F(one("identifier", ID, A(n##_get_identifier)), one("index_name", "INDEX_NAME", A(n##_get_index_name)), \
        one("prop_name", "PROP_NAME", A(n##_get_prop_name)), one("lookup", "STRING PARAMETER", A(n##_get_lookup))), MK { return A(n)(O(0), O(1), O(2), O(3), TAIL); })
#define IXQ(NAME, n, str) ADD(NAME, "START_POINT", str, false, F(one("identifier", ID, A(n##_get_identifier)), one("index_name", "INDEX_NAME", A(n##_get_index_name)), \
        one("query", "STRING PARAMETER", A(n##_get_query))), MK { return A(n)(O(0), O(1), O(2), TAIL); })
#define IDL(NAME, n, str) ADD(NAME, "START_POINT", str, false, F(one("identifier", ID, A(n##_get_identifier)), lst("ids", "INTEGER", 1, A(n##_nids), A(n##_get_id))), \
        MK { return A(n)(O(0), LN(1), TAIL); })
#define SCN(NAME, n, str) ADD(NAME, "START_POINT", str, false, F(one("identifier", ID, A(n##_get_identifier))), MK { return A(n)(O(0), TAIL); })
    IXL(NODE_INDEX_LOOKUP, node_index_lookup, "node index lookup");
    IXQ(NODE_INDEX_QUERY, node_index_query, "node index query");
    IDL(NODE_ID_LOOKUP, node_id_lookup, "node id lookup");
    SCN(ALL_NODES_SCAN, all_nodes_scan, "all nodes scan");
    IXL(REL_INDEX_LOOKUP, rel_index_lookup, "rel index lookup");
    IXQ(REL_INDEX_QUERY, rel_index_query, "rel index query");
    IDL(REL_ID_LOOKUP, rel_id_lookup, "rel id lookup");
    SCN(ALL_RELS_SCAN, all_rels_scan, "all rels scan");
    ADD(MATCH, "QUERY_CLAUSE", "MATCH", false, F(flg("optional", A(match_is_optional)), one("pattern", "PATTERN", A(match_get_pattern)),
        lst("hints", "MATCH_HINT", 0, A(match_nhints), A(match_get_hint)), opt("predicate", EXPR, A(match_get_predicate))), MK { return A(match)(B(0), O(1), LN(2), O(3), TAIL); });
    ADD(USING_INDEX, "MATCH_HINT", "USING INDEX", false, F(one("identifier", ID, A(using_index_get_identifier)), one("label", "LABEL", A(using_index_get_label)),
        one("prop_name", "PROP_NAME", A(using_index_get_prop_name))), MK { return A(using_index)(O(0), O(1), O(2), TAIL); });
    ADD(USING_JOIN, "MATCH_HINT", "USING JOIN", false, F(lst("identifiers", ID, 1, A(using_join_nidentifiers), A(using_join_get_identifier))), MK { return A(using_join)(LN(0), TAIL); });
    ADD(USING_SCAN, "MATCH_HINT", "USING SCAN", false, F(one("identifier", ID, A(using_scan_get_identifier)), one("label", "LABEL", A(using_scan_get_label))), MK { return A(using_scan)(O(0), O(1), TAIL); });
    ADD(MERGE, "QUERY_CLAUSE", "MERGE", false, F(one("path", "PATTERN_PATH", A(merge_get_pattern_path)), lst("actions", "MERGE_ACTION", 0, A(merge_nactions), A(merge_get_action))),
        MK { return A(merge)(O(0), LN(1), TAIL); });
    ADD(ON_MATCH, "MERGE_ACTION", "ON MATCH", false, F(lst("items", "SET_ITEM", 1, A(on_match_nitems), A(on_match_get_item))), MK { return A(on_match)(LN(0), TAIL); });
    ADD(ON_CREATE, "MERGE_ACTION", "ON CREATE", false, F(lst("items", "SET_ITEM", 1, A(on_create_nitems), A(on_create_get_item))), MK { return A(on_create)(LN(0), TAIL); });
    ADD(CREATE, "QUERY_CLAUSE", "CREATE", false, F(flg("unique", A(create_is_unique)), one("pattern", "PATTERN", A(create_get_pattern))), MK { return A(create)(B(0), O(1), TAIL); });
    ADD(SET, "QUERY_CLAUSE", "SET", false, F(lst("items", "SET_ITEM", 1, A(set_nitems), A(set_get_item))), MK { return A(set)(LN(0), TAIL); });
    ADD(SET_PROPERTY, "SET_ITEM", "set property", false, F(one("property", "PROPERTY_OPERATOR", A(set_property_get_property)), one("expression", EXPR, A(set_property_get_expression))),
        MK { return A(set_property)(O(0), O(1), TAIL); });
    ADD(SET_ALL_PROPERTIES, "SET_ITEM", "set all properties", false, F(one("identifier", ID, A(set_all_properties_get_identifier)), one("expression", EXPR, A(set_all_properties_get_expression))),
        MK { return A(set_all_properties)(O(0), O(1), TAIL); });
    ADD(MERGE_PROPERTIES, "SET_ITEM", "merge properties", false, F(one("identifier", ID, A(merge_properties_get_identifier)), one("expression", EXPR, A(merge_properties_get_expression))),
        MK { return A(merge_properties)(O(0), O(1), TAIL); });
    ADD(SET_LABELS, "SET_ITEM", "set labels", false, F(one("identifier", ID, A(set_labels_get_identifier)), lst("labels", "LABEL", 1, A(set_labels_nlabels), A(set_labels_get_label))),
        MK { return A(set_labels)(O(0), LN(1), TAIL); });
    ADD(DELETE, "QUERY_CLAUSE", "DELETE", false, F(flg("detach", A(delete_has_detach)), lst("expressions", EXPR, 1, A(delete_nexpressions), A(delete_get_expression))), MK { return A(delete)(B(0), LN(1), TAIL); });
    ADD(REMOVE, "QUERY_CLAUSE", "REMOVE", false, F(lst("items", "REMOVE_ITEM", 1, A(remove_nitems), A(remove_get_item))), MK { return A(remove)(LN(0), TAIL); });
    ADD(REMOVE_LABELS, "REMOVE_ITEM", "remove labels", false, F(one("identifier", ID, A(remove_labels_get_identifier)), lst("labels", "LABEL", 1, A(remove_labels_nlabels), A(remove_labels_get_label))),
        MK { return A(remove_labels)(O(0), LN(1), TAIL); });
    ADD(REMOVE_PROPERTY, "REMOVE_ITEM", "remove property", false, F(one("property", "PROPERTY_OPERATOR", A(remove_property_get_property))), MK { return A(remove_property)(O(0), TAIL); });
    ADD(FOREACH, "QUERY_CLAUSE", "FOREACH", false, F(one("identifier", ID, A(foreach_get_identifier)), one("expression", EXPR, A(foreach_get_expression)),
        lst("clauses", "QUERY_CLAUSE", 1, A(foreach_nclauses), A(foreach_get_clause))), MK { return A(foreach)(O(0), O(1), LN(2), TAIL); });
    ADD(WITH, "QUERY_CLAUSE", "WITH", false, F(flg("distinct", A(with_is_distinct)), flg("include_existing", A(with_has_include_existing)),
        lst("projections", "PROJECTION", 0, A(with_nprojections), A(with_get_projection)), opt("order_by", "ORDER_BY", A(with_get_order_by)), opt("skip", EXPR, A(with_get_skip)),
        opt("limit", EXPR, A(with_get_limit)), opt("predicate", EXPR, A(with_get_predicate))), MK { return A(with)(B(0), B(1), LN(2), O(3), O(4), O(5), O(6), TAIL); });
    ADD(UNWIND, "QUERY_CLAUSE", "UNWIND", false, F(one("expression", EXPR, A(unwind_get_expression)), one("alias", ID, A(unwind_get_alias))), MK { return A(unwind)(O(0), O(1), TAIL); });
    ADD(CALL, "QUERY_CLAUSE", "CALL", false, F(one("proc_name", "PROC_NAME", A(call_get_proc_name)), lst("arguments", EXPR, 0, A(call_narguments), A(call_get_argument)),
        lst("projections", "PROJECTION", 0, A(call_nprojections), A(call_get_projection)), opt("predicate", EXPR, A(call_get_predicate))), MK { return A(call)(O(0), LN(1), LN(2), O(3), TAIL); });
    ADD(RETURN, "QUERY_CLAUSE", "RETURN", false, F(flg("distinct", A(return_is_distinct)), flg("include_existing", A(return_has_include_existing)),
        lst("projections", "PROJECTION", 0, A(return_nprojections), A(return_get_projection)), opt("order_by", "ORDER_BY", A(return_get_order_by)), opt("skip", EXPR, A(return_get_skip)),
        opt("limit", EXPR, A(return_get_limit))), MK { return A(return)(B(0), B(1), LN(2), O(3), O(4), O(5), TAIL); });
    ADD(PROJECTION, "", "projection", false, F(one("expression", EXPR, A(projection_get_expression)), opt("alias", ID, A(projection_get_alias))), MK { return A(projection)(O(0), O(1), TAIL); });
    ADD(ORDER_BY, "", "ORDER BY", false, F(lst("items", "SORT_ITEM", 1, A(order_by_nitems), A(order_by_get_item))), MK { return A(order_by)(LN(0), TAIL); });
    ADD(SORT_ITEM, "", "sort item", false, F(one("expression", EXPR, A(sort_item_get_expression)), flg("ascending", A(sort_item_is_ascending))), MK { return A(sort_item)(O(0), B(1), TAIL); });
    ADD(UNION, "QUERY_CLAUSE", "UNION", false, F(flg("all", A(union_has_all))), MK { return A(union)(B(0), TAIL); });
    ADD(UNARY_OPERATOR, EXPR, "unary operator", false, F(opr("operator", A(unary_operator_get_operator)), one("argument", EXPR, A(unary_operator_get_argument))), MK { return A(unary_operator)(a.v[0].op, O(1), TAIL); });
    ADD(BINARY_OPERATOR, EXPR, "binary operator", false, F(opr("operator", A(binary_operator_get_operator)), one("argument1", EXPR, A(binary_operator_get_argument1)),
        one("argument2", EXPR, A(binary_operator_get_argument2))), MK { return A(binary_operator)(a.v[0].op, O(1), O(2), TAIL); });
    {
        Fld ops; ops.name = "operators"; ops.kind = OPS; ops.n = A(comparison_get_length); ops.ops = A(comparison_get_operator);
        ADD(COMPARISON, EXPR, "comparison", false, F(ops, lst("arguments", EXPR, 2, cmp_nargs, A(comparison_get_argument))),
            MK { return A(comparison)((unsigned)a.v[0].ops.size(), a.v[0].ops.empty() ? nullptr : a.v[0].ops.data(), a.L(1), TAIL); });
    }
    ADD(APPLY_OPERATOR, EXPR, "apply", false, F(one("func_name", "FUNCTION_NAME", A(apply_operator_get_func_name)), flg("distinct", A(apply_operator_get_distinct)),
        lst("arguments", EXPR, 0, A(apply_operator_narguments), A(apply_operator_get_argument))), MK { return A(apply_operator)(O(0), B(1), LN(2), TAIL); });
    ADD(APPLY_ALL_OPERATOR, EXPR, "apply all", false, F(one("func_name", "FUNCTION_NAME", A(apply_all_operator_get_func_name)), flg("distinct", A(apply_all_operator_get_distinct))),
        MK { return A(apply_all_operator)(O(0), B(1), TAIL); });
    ADD(PROPERTY_OPERATOR, EXPR, "property", false, F(one("expression", EXPR, A(property_operator_get_expression)), one("prop_name", "PROP_NAME", A(property_operator_get_prop_name))),
        MK { return A(property_operator)(O(0), O(1), TAIL); });
    ADD(SUBSCRIPT_OPERATOR, EXPR, "subscript", false, F(one("expression", EXPR, A(subscript_operator_get_expression)), one("subscript", EXPR, A(subscript_operator_get_subscript))),
        MK { return A(subscript_operator)(O(0), O(1), TAIL); });
    ADD(SLICE_OPERATOR, EXPR, "slice", false, F(one("expression", EXPR, A(slice_operator_get_expression)), opt("start", EXPR, A(slice_operator_get_start)), opt("end", EXPR, A(slice_operator_get_end))),
        MK { return A(slice_operator)(O(0), O(1), O(2), TAIL); });
    {
        Fld sel = lst("selectors", "MAP_PROJECTION_SELECTOR", 0, A(map_projection_nselectors), A(map_projection_get_selector));
        sel.unchecked = true;
        ADD(MAP_PROJECTION, EXPR, "map projection", false, F(one("expression", EXPR, A(map_projection_get_expression)), sel), MK { return A(map_projection)(O(0), LN(1), TAIL); });
    }
    ADD(MAP_PROJECTION_LITERAL, "MAP_PROJECTION_SELECTOR", "literal projection", false, F(one("prop_name", "PROP_NAME", A(map_projection_literal_get_prop_name)),
        one("expression", EXPR, A(map_projection_literal_get_expression))), MK { return A(map_projection_literal)(O(0), O(1), TAIL); });
    ADD(MAP_PROJECTION_PROPERTY, "MAP_PROJECTION_SELECTOR", "property projection", false, F(one("prop_name", "PROP_NAME", A(map_projection_property_get_prop_name))), MK { return A(map_projection_property)(O(0), TAIL); });
    ADD(MAP_PROJECTION_IDENTIFIER, "MAP_PROJECTION_SELECTOR", "identifier projection", false, F(one("identifier", ID, A(map_projection_identifier_get_identifier))), MK { return A(map_projection_identifier)(O(0), TAIL); });
    ADD(MAP_PROJECTION_ALL_PROPERTIES, "MAP_PROJECTION_SELECTOR", "all properties projection", false, F(), MK { return A(map_projection_all_properties)(TAIL); });
    ADD(LABELS_OPERATOR, EXPR, "has labels", false, F(one("expression", EXPR, A(labels_operator_get_expression)), lst("labels", "LABEL", 1, A(labels_operator_nlabels), A(labels_operator_get_label))),
        MK { return A(labels_operator)(O(0), LN(1), TAIL); });
    ADD(LIST_COMPREHENSION, EXPR, "list comprehension", false, F(one("identifier", ID, A(list_comprehension_get_identifier)), one("expression", EXPR, A(list_comprehension_get_expression)),
        opt("predicate", EXPR, A(list_comprehension_get_predicate)), opt("eval", EXPR, A(list_comprehension_get_eval))), MK { return A(list_comprehension)(O(0), O(1), O(2), O(3), TAIL); });
    ADD(PATTERN_COMPREHENSION, EXPR, "pattern comprehension", false, F(opt("identifier", ID, A(pattern_comprehension_get_identifier)), one("pattern", "PATTERN_PATH", A(pattern_comprehension_get_pattern)),
        opt("predicate", EXPR, A(pattern_comprehension_get_predicate)), one("eval", EXPR, A(pattern_comprehension_get_eval))), MK { return A(pattern_comprehension)(O(0), O(1), O(2), O(3), TAIL); });
    ADD(CASE, EXPR, "case", false, F(opt("expression", EXPR, A(case_get_expression)), prs("alternatives", EXPR, EXPR, 0, A(case_nalternatives), A(case_get_predicate), A(case_get_value)),
        opt("default", EXPR, A(case_get_default))), MK {
            std::vector<N *> alt; for (size_t i = 0; i < a.v[1].list.size(); i++) { alt.push_back(a.v[1].list[i]); alt.push_back(a.v[1].list2[i]); }
            return A(case)(O(0), alt.empty() ? nullptr : alt.data(), a.n(1), O(2), TAIL); });
#define LCP(NAME, n, str, x) ADD(NAME, "LIST_COMPREHENSION", str, false, F(one("identifier", ID, A(list_comprehension_get_identifier)), one("expression", EXPR, A(list_comprehension_get_expression)), \
        opt(#x, EXPR, A(list_comprehension_get_##x))), MK { return A(n)(O(0), O(1), O(2), TAIL); })
    LCP(FILTER, filter, "filter", predicate);
    LCP(EXTRACT, extract, "extract", eval);
    ADD(REDUCE, EXPR, "reduce", false, F(one("accumulator", ID, A(reduce_get_accumulator)), one("init", EXPR, A(reduce_get_init)), one("identifier", ID, A(reduce_get_identifier)),
        one("expression", EXPR, A(reduce_get_expression)), opt("eval", EXPR, A(reduce_get_eval))), MK { return A(reduce)(O(0), O(1), O(2), O(3), O(4), TAIL); });
    LCP(ALL, all, "all", predicate);
    LCP(ANY, any, "any", predicate);
    LCP(SINGLE, single, "single", predicate);
    LCP(NONE, none, "none", predicate);
    ADD(COLLECTION, EXPR, "collection", false, F(lst("elements", EXPR, 0, A(collection_length), A(collection_get))), MK { return A(collection)(LN(0), TAIL); });
    ADD(MAP, EXPR, "map", false, F(prs("entries", "PROP_NAME", EXPR, 0, A(map_nentries), A(map_get_key), A(map_get_value))), MK {
        // the two ways to make a map, in turn (by an accident of its range)
        if ((a.r.start.offset ^ a.r.end.column) & 1) return A(map)(a.L(0), a.L2(0), a.n(0), TAIL);
        std::vector<N *> pairs; for (unsigned i = 0; i < a.n(0); i++) { pairs.push_back(a.v[0].list[i]); pairs.push_back(a.v[0].list2[i]); }
        return A(pair_map)(pairs.empty() ? nullptr : pairs.data(), a.n(0), TAIL); });
#define TX(NAME, n, PAR, str, g) ADD(NAME, PAR, str, true, F(txt("text", A(n##_get_##g))), MK { return A(n)(TXT(0), a.r); })
    TX(IDENTIFIER, identifier, EXPR, "identifier", name);
    TX(PARAMETER, parameter, EXPR, "parameter", name);
    TX(STRING, string, EXPR, "string", value);
    TX(INTEGER, integer, EXPR, "integer", valuestr);
    TX(FLOAT, float, EXPR, "float", valuestr);
    ADD(TRUE, "BOOLEAN", "TRUE", true, F(), MK { return A(true)(a.r); });
    ADD(FALSE, "BOOLEAN", "FALSE", true, F(), MK { return A(false)(a.r); });
    ADD(NULL, EXPR, "NULL", true, F(), MK { return A(null)(a.r); });
    TX(LABEL, label, "", "label", name);
    TX(RELTYPE, reltype, "", "rel type", name);
    TX(PROP_NAME, prop_name, "", "prop name", value);
    TX(FUNCTION_NAME, function_name, "", "function name", value);
    TX(INDEX_NAME, index_name, "", "index name", value);
    TX(PROC_NAME, proc_name, "", "proc name", value);
    ADD(PATTERN, "", "pattern", false, F(lst("paths", "PATTERN_PATH", 1, A(pattern_npaths), A(pattern_get_path))), MK { return A(pattern)(LN(0), TAIL); });
    ADD(NAMED_PATH, "PATTERN_PATH", "named path", false, F(one("identifier", ID, A(named_path_get_identifier)), one("path", "PATTERN_PATH", A(named_path_get_path))), MK { return A(named_path)(O(0), O(1), TAIL); });
    ADD(SHORTEST_PATH, "EXPRESSION PATTERN_PATH", "shortestPath", false, F(flg("single", A(shortest_path_is_single)), one("path", "PATTERN_PATH", A(shortest_path_get_path))), MK { return A(shortest_path)(B(0), O(1), TAIL); });
    ADD(PATTERN_PATH, EXPR, "pattern path", false, F(lst("elements", "NODE_PATTERN REL_PATTERN", 1, A(pattern_path_nelements), A(pattern_path_get_element))), MK { return A(pattern_path)(LN(0), TAIL); });
    ADD(NODE_PATTERN, "", "node pattern", false, F(opt("identifier", ID, A(node_pattern_get_identifier)), lst("labels", "LABEL", 0, A(node_pattern_nlabels), A(node_pattern_get_label)),
        opt("properties", "MAP PARAMETER", A(node_pattern_get_properties))), MK { return A(node_pattern)(O(0), LN(1), O(2), TAIL); });
    {
        Fld d; d.name = "direction"; d.kind = DIR; d.dir = A(rel_pattern_get_direction);
        ADD(REL_PATTERN, "", "rel pattern", false, F(d, opt("identifier", ID, A(rel_pattern_get_identifier)), lst("reltypes", "RELTYPE", 0, A(rel_pattern_nreltypes), A(rel_pattern_get_reltype)),
            opt("varlength", "RANGE", A(rel_pattern_get_varlength)), opt("properties", "MAP PARAMETER", A(rel_pattern_get_properties))),
            MK { return A(rel_pattern)((enum cypher_rel_direction)a.v[0].dir, O(1), LN(2), O(4), O(3), TAIL); });
    }
    ADD(RANGE, "", "range", false, F(opt("start", "INTEGER", A(range_get_start)), opt("end", "INTEGER", A(range_get_end))), MK { return A(range)(O(0), O(1), TAIL); });
    ADD(COMMAND, "", "command", false, F(one("name", "STRING", A(command_get_name)), lst("arguments", "STRING", 0, A(command_narguments), A(command_get_argument))), MK { return A(command)(O(0), LN(1), TAIL); });
    TX(LINE_COMMENT, line_comment, "COMMENT", "line_comment", value);
    TX(BLOCK_COMMENT, block_comment, "COMMENT", "block_comment", value);
    TX(ERROR, error, "", "error", value);
    return *s;
}

const std::vector<TypeName> &all_types() {
    static std::vector<TypeName> *v = nullptr;
    if (v) return *v;
    v = new std::vector<TypeName>;
    for (auto &s : specs()) v->push_back({s.name, s.type});
#define AB(x) v->push_back({#x, CYPHER_AST_##x})
    AB(STATEMENT_OPTION); AB(SCHEMA_COMMAND); AB(QUERY_OPTION); AB(QUERY_CLAUSE); AB(START_POINT); AB(MATCH_HINT); AB(MERGE_ACTION);
    AB(SET_ITEM); AB(REMOVE_ITEM); AB(EXPRESSION); AB(MAP_PROJECTION_SELECTOR); AB(BOOLEAN); AB(COMMENT);
    return *v;
}

int find(const std::string &name) {
    static std::map<std::string, int> *m = nullptr;
    if (!m) { m = new std::map<std::string, int>; int i = 0; for (auto &s : specs()) (*m)[s.name] = i++; }
    auto it = m->find(name);
    return it == m->end() ? -1 : it->second;
}
int find_type(cypher_astnode_type_t t) {
    static std::map<int, int> *m = nullptr;
    if (!m) { m = new std::map<int, int>; int i = 0; for (auto &s : specs()) (*m)[(int)s.type] = i++; }
    auto it = m->find((int)t);
    return it == m->end() ? -1 : it->second;
}

static std::vector<std::string> words(const char *s) {
    std::vector<std::string> r; std::string c;
    for (; ; s++) { if (*s == ' ' || !*s) { if (!c.empty()) r.push_back(c); c.clear(); if (!*s) break; } else c += *s; }
    return r;
}
std::vector<std::string> ancestors(int spec) {
    std::vector<std::string> r{specs()[spec].name};
    for (size_t i = 0; i < r.size(); i++) {
        int k = find(r[i]);
        const char *p = k >= 0 ? specs()[k].parents : r[i] == "BOOLEAN" ? "EXPRESSION" : "";
        for (auto &w : words(p)) if (std::find(r.begin(), r.end(), w) == r.end()) r.push_back(w);
    }
    return r;
}
bool is_a(int spec, const std::string &type) {
    static std::map<int, std::set<std::string>> *m = nullptr;
    if (!m) { m = new std::map<int, std::set<std::string>>; for (size_t i = 0; i < specs().size(); i++) for (auto &a : ancestors((int)i)) (*m)[(int)i].insert(a); }
    return (*m)[spec].count(type) > 0;
}
bool is_a_any(int spec, const char *types) { for (auto &w : words(types)) if (is_a(spec, w)) return true; return false; }

const std::vector<OpName> &operators() {
    static std::vector<OpName> *v = nullptr;
    if (v) return *v;
    v = new std::vector<OpName>;
#define OPN(x) v->push_back({#x, CYPHER_OP_##x})
    OPN(OR); OPN(XOR); OPN(AND); OPN(NOT); OPN(EQUAL); OPN(NEQUAL); OPN(LT); OPN(GT); OPN(LTE); OPN(GTE); OPN(PLUS); OPN(MINUS); OPN(MULT); OPN(DIV); OPN(MOD); OPN(POW);
    OPN(UNARY_PLUS); OPN(UNARY_MINUS); OPN(SUBSCRIPT); OPN(MAP_PROJECTION); OPN(REGEX); OPN(IN); OPN(STARTS_WITH); OPN(ENDS_WITH); OPN(CONTAINS); OPN(IS_NULL); OPN(IS_NOT_NULL); OPN(PROPERTY); OPN(LABEL);
    return *v;
}
const cypher_operator_t *op_by_name(const std::string &n) { for (auto &o : operators()) if (n == o.name) return o.op; return nullptr; }
std::string op_name(const cypher_operator_t *p) { for (auto &o : operators()) if (p == o.op) return o.name; return p ? "?" : "(null)"; }
const char *dir_name(int d) { return d == CYPHER_REL_INBOUND ? "in" : d == CYPHER_REL_OUTBOUND ? "out" : d == CYPHER_REL_BIDIRECTIONAL ? "both" : "?"; }
int dir_by_name(const std::string &s) { return s == "in" ? CYPHER_REL_INBOUND : s == "out" ? CYPHER_REL_OUTBOUND : CYPHER_REL_BIDIRECTIONAL; }

TP mk(const char *type) {
    int i = find(type);
    if (i < 0) { fprintf(stderr, "no type %s\n", type); abort(); }
    TP t = std::make_shared<Tree>();
    t->spec = i;
    t->v.resize(specs()[i].f.size());
    for (size_t k = 0; k < t->v.size(); k++) {
        Kind kd = specs()[i].f[k].kind;
        if (kd == ONE || kd == OPT) t->v[k].k.assign(1, nullptr);
        else if (kd == BOOL) t->v[k].s = "0";
        else if (kd == DIR) t->v[k].s = "both";
    }
    return t;
}
Val &fv(const TP &t, const char *field) {
    const Spec &s = specs()[t->spec];
    for (size_t i = 0; i < s.f.size(); i++) if (!strcmp(s.f[i].name, field)) return t->v[i];
    fprintf(stderr, "no field %s in %s\n", field, s.name);
    abort();
}

static void prob(Problems *p, const std::string &m) { if (p && p->size() < 50) p->push_back(m); }

static TP extract_(CN *n, Problems *pr, std::map<CN *, TP> &seen, int depth) {
    auto it = seen.find(n);
    if (it != seen.end()) { prob(pr, "a node occurs twice in the tree"); return it->second; }
    int si = find_type(cypher_astnode_type(n));
    TP t = std::make_shared<Tree>();
    t->node = n;
    seen[n] = t;
    t->range = cypher_astnode_range(n);
    t->spec = si;
    if (si < 0) { prob(pr, pbt::strf("node of unknown type code %d", (int)cypher_astnode_type(n))); return t; }
    const Spec &s = specs()[si];
    unsigned nc = cypher_astnode_nchildren(n);
    std::map<CN *, TP> mine;
    for (unsigned i = 0; i < nc; i++) {
        CN *c = cypher_astnode_get_child(n, i);
        if (!c) { prob(pr, std::string(s.name) + ": child is null"); continue; }
        TP ct = extract_(c, pr, seen, depth + 1);
        t->children.push_back(ct);
        mine[c] = ct;
    }
    if (cypher_astnode_get_child(n, nc)) prob(pr, std::string(s.name) + ": child past the end is not null");
    auto part = [&](CN *c, const Fld &f, const char *types, bool optional) -> TP {
        if (!c) { if (!optional) prob(pr, std::string(s.name) + "." + f.name + ": mandatory part is missing"); return nullptr; }
        auto m = mine.find(c);
        if (m == mine.end()) { prob(pr, std::string(s.name) + "." + f.name + ": part is not among the children"); return nullptr; }
        if (m->second->spec >= 0 && !is_a_any(m->second->spec, types))
            prob(pr, std::string(s.name) + "." + f.name + ": part of type " + specs()[m->second->spec].name);
        return m->second;
    };
    t->v.resize(s.f.size());
    for (size_t i = 0; i < s.f.size(); i++) {
        const Fld &f = s.f[i];
        Val &v = t->v[i];
        switch (f.kind) {
        case ONE: case OPT: v.k.push_back(part(f.get(n), f, f.types, f.kind == OPT)); break;
        case LIST: {
            unsigned c = f.n(n);
            if (c < f.min) prob(pr, std::string(s.name) + "." + f.name + ": list too short");
            if (c > 1000000) { prob(pr, std::string(s.name) + "." + f.name + ": absurd list length"); break; }
            for (unsigned k = 0; k < c; k++) v.k.push_back(part(f.at(n, k), f, f.types, false));
            if (f.at(n, c)) prob(pr, std::string(s.name) + "." + f.name + ": element past the end is not null");
            break; }
        case PAIRS: {
            unsigned c = f.n(n);
            if (c > 1000000) { prob(pr, std::string(s.name) + "." + f.name + ": absurd list length"); break; }
            for (unsigned k = 0; k < c; k++) { v.k.push_back(part(f.at(n, k), f, f.types, false)); v.k.push_back(part(f.at2(n, k), f, f.types2, false)); }
            if (f.at(n, c) || f.at2(n, c)) prob(pr, std::string(s.name) + "." + f.name + ": element past the end is not null");
            break; }
        case BOOL: v.s = f.b(n) ? "1" : "0"; break;
        case TEXT: { const char *x = f.t(n); if (!x) prob(pr, std::string(s.name) + "." + f.name + ": text is null"); v.s = x ? x : ""; break; }
        case OP: v.s = op_name(f.op(n)); if (v.s[0] == '?' || v.s[0] == '(') prob(pr, std::string(s.name) + ": unknown operator"); break;
        case OPS: {
            unsigned c = f.n(n);
            for (unsigned k = 0; k < c && k < 1000000; k++) { if (k) v.s += ' '; v.s += op_name(f.ops(n, k)); }
            if (c == 0) prob(pr, "COMPARISON: no operators");
            if (f.ops(n, c)) prob(pr, "COMPARISON: operator past the end is not null");
            break; }
        case DIR: v.s = dir_name(f.dir(n)); break;
        }
    }
    return t;
}
TP extract(CN *n, Problems *pr) {
    if (!n) return nullptr;
    std::map<CN *, TP> seen;
    return extract_(n, pr, seen, 0);
}

std::string range_str(const Rng &r) {
    return pbt::strf("%u:%u:%zu-%u:%u:%zu", r.start.line, r.start.column, r.start.offset, r.end.line, r.end.column, r.end.offset);
}

static void dump_(const Tree *t, int fl, std::string &o, int depth) {
    if (!t) { o += "-"; return; }
    if (t->spec < 0) { o += "(UNKNOWN)"; return; }
    const Spec &s = specs()[t->spec];
    o += "("; o += s.name;
    if (fl & D_RANGE) { o += " @"; o += range_str(t->range); }
    for (size_t i = 0; i < s.f.size() && i < t->v.size(); i++) {
        const Fld &f = s.f[i]; const Val &v = t->v[i];
        switch (f.kind) {
        case ONE: case OPT:
            if (v.k.empty() || !v.k[0]) { if (f.kind == ONE) { o += " "; o += f.name; o += "=MISSING"; } break; }
            o += " "; o += f.name; o += "="; dump_(v.k[0].get(), fl, o, depth + 1); break;
        case LIST: case PAIRS:
            o += " "; o += f.name; o += "=[";
            for (size_t k = 0; k < v.k.size(); k++) { if (k) o += " "; dump_(v.k[k].get(), fl, o, depth + 1); }
            o += "]"; break;
        case BOOL: if (v.s == "1") { o += " "; o += f.name; } break;
        case TEXT: o += " "; o += pbt::quote(v.s, 100000); break;
        default: o += " "; o += f.name; o += "="; o += v.s; break;
        }
    }
    if (fl & D_CHILDREN) {
        // which children, by type; parts are written above, so only the order and the others matter
        o += " {";
        auto ps = std::set<const Tree *>();
        for (auto &v : t->v) for (auto &k : v.k) ps.insert(k.get());
        bool first = true;
        for (auto &c : t->children) {
            if (!first) o += " ";
            first = false;
            if (ps.count(c.get()) && c->spec >= 0) { o += "."; o += specs()[c->spec].name; }
            else dump_(c.get(), fl, o, depth + 1);
        }
        o += "}";
    }
    o += ")";
}
std::string dump(const TP &t, int fl) { std::string o; dump_(t.get(), fl, o, 0); return o; }
std::string Tree::key() const { std::string o; dump_(this, 0, o, 0); return o; }

std::string first_diff(const std::string &a, const std::string &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i > 120 ? i - 120 : 0;
    return pbt::strf("differ at %zu\n   expected: ...", i) + a.substr(s, 400) + "\n   actual:   ..." + b.substr(s, 400);
}

std::vector<TP> parts(const TP &t) {
    std::vector<TP> r;
    for (auto &v : t->v) for (auto &k : v.k) if (k && std::find(r.begin(), r.end(), k) == r.end()) r.push_back(k);
    return r;
}
size_t count(const TP &t) { size_t n = 1; for (auto &c : t->children) n += count(c); return n; }

N *build(const TP &t, std::map<const Tree *, N *> &at) {
    auto it = at.find(t.get());
    if (it != at.end()) return it->second;
    const Spec &s = specs()[t->spec];
    std::vector<TP> ch = t->children.empty() ? parts(t) : t->children;
    std::vector<N *> nodes;
    for (auto &c : ch) { N *n = build(c, at); if (!n) return nullptr; nodes.push_back(n); }
    Args a;
    a.r = t->range;
    a.ch = nodes.empty() ? nullptr : nodes.data();
    a.nch = (unsigned)nodes.size();
    for (size_t i = 0; i < s.f.size(); i++) {
        RArg r; const Val &v = t->v[i];
        switch (s.f[i].kind) {
        case ONE: case OPT: r.one = !v.k.empty() && v.k[0] ? at[v.k[0].get()] : nullptr; break;
        case LIST: for (auto &k : v.k) r.list.push_back(at[k.get()]); break;
        case PAIRS: for (size_t k = 0; k + 1 < v.k.size(); k += 2) { r.list.push_back(at[v.k[k].get()]); r.list2.push_back(at[v.k[k + 1].get()]); } break;
        case BOOL: r.b = v.s == "1"; break;
        case TEXT: r.s = v.s; break;
        case OP: r.op = op_by_name(v.s); break;
        case OPS: for (auto &w : words(v.s.c_str())) r.ops.push_back(op_by_name(w)); break;
        case DIR: r.dir = dir_by_name(v.s); break;
        }
        a.v.push_back(r);
    }
    N *n = s.make(a);
    at[t.get()] = n;
    return n;
}

Err get_err(const cypher_parse_error_t *e) {
    Err r;
    r.pos = cypher_parse_error_position(e);
    const char *m = cypher_parse_error_message(e);
    r.msg = m ? m : "(null)";
    const char *c = cypher_parse_error_context(e);
    r.has_ctx = c != nullptr;
    r.ctx = c ? c : "";
    r.ctx_off = cypher_parse_error_context_offset(e);
    return r;
}
std::string dump_err(const Err &e, bool ctx) {
    std::string o = pbt::strf("error %u:%u:%zu ", e.pos.line, e.pos.column, e.pos.offset) + pbt::quote(e.msg);
    if (ctx) o += (e.has_ctx ? pbt::quote(e.ctx) : "(none)") + pbt::strf("+%zu", e.ctx_off);
    return o;
}
Seg get_seg(const cypher_parse_segment_t *s, Problems *p) {
    Seg g;
    g.range = cypher_parse_segment_get_range(s);
    g.eof = cypher_parse_segment_is_eof(s);
    g.nnodes = cypher_parse_segment_nnodes(s);
    unsigned n = cypher_parse_segment_nroots(s);
    CN *d = cypher_parse_segment_get_directive(s);
    for (unsigned i = 0; i < n; i++) {
        CN *r = cypher_parse_segment_get_root(s, i);
        if (!r) { prob(p, "segment root is null"); continue; }
        g.roots.push_back(extract(r, p));
        if (r == d) { g.directive = g.roots.back(); g.directive_index = (int)i; }
    }
    if (cypher_parse_segment_get_root(s, n)) prob(p, "segment root past the end is not null");
    if (d && !g.directive) prob(p, "segment directive is not among its roots");
    unsigned ne = cypher_parse_segment_nerrors(s);
    for (unsigned i = 0; i < ne; i++) {
        const cypher_parse_error_t *e = cypher_parse_segment_get_error(s, i);
        if (!e) { prob(p, "segment error is null"); continue; }
        g.errs.push_back(get_err(e));
    }
    if (cypher_parse_segment_get_error(s, ne)) prob(p, "segment error past the end is not null");
    return g;
}
std::string dump_seg(const Seg &s, int fl, bool ctx) {
    std::string o = "segment";
    if (fl & D_RANGE) o += " @" + range_str(s.range);
    o += pbt::strf(" directive=%d nnodes=%u\n", s.directive_index, s.nnodes);
    for (auto &r : s.roots) o += "  " + dump(r, fl) + "\n";
    for (auto &e : s.errs) o += "  " + dump_err(e, ctx) + "\n";
    return o;
}
struct EachData { Parse *p; Problems *pr; };
static int each_cb(void *d, cypher_parse_segment_t *s) {
    EachData *e = (EachData *)d;
    e->p->segs.push_back(get_seg(s, e->pr));
    return 0;
}
Parse parse_each(const std::string &in, unsigned flags, cypher_parser_config_t *cfg, Problems *pr) {
    Parse p; EachData d{&p, pr};
    p.last = cypher_input_position_zero;
    errno = 0;
    p.rc = cypher_uparse_each(in.data(), in.size(), each_cb, &d, &p.last, cfg, flags);
    p.err = errno;
    return p;
}
ResultView get_result(const cypher_parse_result_t *r, Problems *p) {
    ResultView v;
    if (!r) { v.null = true; return v; }
    v.eof = cypher_parse_result_eof(r);
    v.nnodes = cypher_parse_result_nnodes(r);
    unsigned n = cypher_parse_result_nroots(r);
    std::map<CN *, TP> m;
    for (unsigned i = 0; i < n; i++) {
        CN *x = cypher_parse_result_get_root(r, i);
        if (!x) { prob(p, "result root is null"); continue; }
        v.roots.push_back(extract(x, p)); m[x] = v.roots.back();
    }
    if (cypher_parse_result_get_root(r, n)) prob(p, "result root past the end is not null");
    unsigned nd = cypher_parse_result_ndirectives(r);
    for (unsigned i = 0; i < nd; i++) {
        CN *x = cypher_parse_result_get_directive(r, i);
        if (!x || !m.count(x)) { prob(p, "result directive is not among its roots"); continue; }
        v.directives.push_back(m[x]);
    }
    if (cypher_parse_result_get_directive(r, nd)) prob(p, "result directive past the end is not null");
    unsigned ne = cypher_parse_result_nerrors(r);
    for (unsigned i = 0; i < ne; i++) {
        const cypher_parse_error_t *e = cypher_parse_result_get_error(r, i);
        if (!e) { prob(p, "result error is null"); continue; }
        v.errs.push_back(get_err(e));
    }
    if (cypher_parse_result_get_error(r, ne)) prob(p, "result error past the end is not null");
    return v;
}
std::string dump_result(const ResultView &v, int fl, bool ctx) {
    if (v.null) return "(null result)";
    std::string o = pbt::strf("nnodes=%u\n", v.nnodes);
    for (auto &r : v.roots) o += "  root " + dump(r, fl) + "\n";
    for (auto &r : v.directives) o += "  directive " + dump(r, fl) + "\n";
    for (auto &e : v.errs) o += "  " + dump_err(e, ctx) + "\n";
    return o;
}
struct cypher_input_position shifted(struct cypher_input_position p, struct cypher_input_position base) {
    if (p.line == 1) p.column += base.column - 1;
    p.line += base.line - 1;
    p.offset += base.offset;
    return p;
}
void shift(const TP &t, struct cypher_input_position base) {
    if (!t) return;
    t->range.start = shifted(t->range.start, base);
    t->range.end = shifted(t->range.end, base);
    for (auto &c : t->children) shift(c, base);
}
std::string slurp(FILE *f) {
    std::string o; char b[4096]; size_t n;
    rewind(f);
    while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
    return o;
}
std::string render(CN *n, unsigned width, const struct cypher_parser_colorization *c) {
    char *buf = nullptr; size_t len = 0;
    FILE *f = open_memstream(&buf, &len);
    int rc = cypher_ast_fprint(n, f, width, c, 0);
    fclose(f);
    std::string o(buf, len);
    free(buf);
    if (rc) o = pbt::strf("(fprint failed: %d)", rc);
    return o;
}
}
