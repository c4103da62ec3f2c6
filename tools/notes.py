T = "contract-based deductive verification: contracts on functions extracted from /repo by clang on every run, obligations by Why3, discharged by z3 and cvc5; bounded native run searches for a failing input"
NOTES = {}
NA = {}
NOTES["C01"] = ("proof", T, "every public operation of symbol_set and range<int>, over the ordered-set theory for std::set (assumed contract of the library); unbounded", [])
NOTES["C07"] = ("proof", T, "position, position_tracker and lexeme::final_pos for every symbol sequence; int arithmetic of the counters assumed not to overflow beyond the stated precondition", [])
NOTES["C09"] = ("proof", T, "ranges, character sets, transitions, accept actions, positions, lexemes and containers proved for all values; grammar items, rules, LR items, states and syntax nodes by the bounded harness", [])
NOTES["C10"] = ("proof", T, "symbol_map, terminal_dictionary and the item, rule and nonterminal registries of grammar proved for every history, over item and rule values ordered as C09 says; the identifier a rule caches for itself by the bounded harness", [])
NOTES["C11"] = ("proof", T, "every operation of item_set (construction, copy, assignment, insert, erase, merge, contains, size, ==, iteration) proved over its words as bit vectors for every set; identifiers from the grammar as C10 gives them; the order operators by the bounded harness", [])
NOTES["C03"] = ("proof", T, "construction, add_range and lookup of every level (8, 16, 24 and 31 bit tables), the flattened lookup of every width and the flattening of 8 and 16 bit tables proved for every table and character; the flattening of wider tables, table copies and the translator constructor by the bounded harness", [])
NOTES["C04"] = ("proof", T, "row fill and lookup of flat and compact tables, the state machine constructor, run_unsafe_set, run_unsafe and run for int and wchar_t with both row types, and the pre-built tables of generated lexers, for every deterministic automaton; the character to class step is C03's lookup (used by its contract); std::sort and std::lower_bound by assumed contract; that a generator writes the rows it should is not covered", [])
NOTES["C08"] = ("proof", T, "utf8reader construction, get and good for every byte sequence, and a client that reads whole streams: the UTF-16 form of exactly the characters before the end or the malformed sequence; std::istream by an assumed contract; encoded surrogates pass through", [])
NOTES["C15"] = ("proof", T, "every query of the tables (find_terminal, find_nonterminal, rule, counts, has_end_of_guard, strong_for_weak), the action order, copying and assigning proved for all tables; that the constructor from a builder fills the rows from the builder's actions by the bounded harness; std::sort, lower_bound, binary_search and find by assumed contract", [])
NOTES["C06"] = ("proof", T, "reading symbols from byte and wide streams, the tracker and lexemes, dfa_stream::operator>> with and without a newline state, set_initial_state, the lexer constructor with its table of accept actions (fill_accept, the action order), character_lexer, and a client that reads a whole input: for every automaton and every input; the automaton's steps are C04's contract; std::istream by an assumed contract; inputs of at most 2^31-2 symbols", [])
NOTES["C13"] = ("proof", T, "lr_state<lr0_item> and lalr_state (construction, copy, add, find_identifier, comparison), the machine's add_state, add_transition and add_lookahead, and lr1_item_set::insert proved for every history, over dotted rules ordered as C09 says and lookahead sets with C11's contracts; a container is modelled as the value it holds (sharing of states between handles is not); the map and set of the library by the ordered-map theory", [])
NOTES["C02"] = ("proof", T, "deduplicate, add_set and split (the partition), symbol_map and remapped_symbol_map (identifiers, the map from old to new sets, has_duplicates) proved for every collection of sets; the orders of sets used as map keys are assumed to be strict total orders, and fewer than 2^31 new sets are assumed", [])
NOTES["C14"] = ("proof", T, "ignored_symbols::rewrite_actions and add_item, weak_symbols::rewrite_actions and add_symbols, lr_action's constructors and order proved for every action set, map and item set, over item and rule values ordered as C09 says and item sets with C11's contracts; a goto or divert on a weak terminal (which the builder never makes) is dropped; the discovery of weak equivalents from a lexer by the bounded harness", [])
NOTES["C12"] = ("proof", T, "FIRST: grammar::first with its pending sets and fixpoint, first_for_rule and the first() of every kind of item proved to give exactly the least relation closed under the rules, for every grammar and every history of queries; that the dynamic dispatch of item::first meets the contract shown for each kind is assumed, termination of the fixpoint is not shown; FOLLOW by the bounded harness", [])
