tu
#include "/repo/TameParse/Dfa/symbol_map.cpp"
#include "/repo/TameParse/ContextFree/terminal_dictionary.cpp"
endtu
mlw
  (* a character set, as a value: two sets are the same value exactly when they have the same symbols (C01),
     and operator< orders them totally (C09) *)
  type cs
  predicate cs_lt (a b: cs)
  axiom cs_irrefl: forall a. not cs_lt a a
  axiom cs_trans: forall a b c. cs_lt a b -> cs_lt b c -> cs_lt a c
  axiom cs_total: forall a b. cs_lt a b \/ a = b \/ cs_lt b a
  val constant nosyms : cs
  (* a name *)
  type str
  predicate str_lt (a b: str)
  axiom str_irrefl: forall a. not str_lt a a
  axiom str_trans: forall a b c. str_lt a b -> str_lt b c -> str_lt a c
  axiom str_total: forall a b. str_lt a b \/ a = b \/ str_lt b a
  val constant str_empty : str
endmlw
abstract cs "dfa::symbol_set" ctor0=nosyms
handle cs "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>" "dfa::symbol_set"
alias "symbol_set_container" "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>"
alias "dfa::symbol_set_container" "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>"
alias "util::container<dfa::symbol_set>" "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>"
alias "std::wstring" "std::basic_string<wchar_t>"
alias "wstring" "std::basic_string<wchar_t>"
abstract str "std::basic_string<wchar_t>" ctor0=str_empty
global nosyms "nosymbols" "dfa::symbol_set"
vec cs "std::vector<util::container<dfa::symbol_set>>" "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>"
omap SI "std::map<util::container<dfa::symbol_set>, int>" key cs elt int eltty "int" map yes keyty "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>" lt cs_lt
record smap "dfa::symbol_map"
omap N2S "std::map<std::basic_string<wchar_t>, int>" key str elt int eltty "int" map yes keyty "std::basic_string<wchar_t>" lt str_lt default 0
omap S2N "std::map<int, std::basic_string<wchar_t>>" key int elt str eltty "std::basic_string<wchar_t>" map yes default str_empty
omap S2P "std::map<int, int>" key int elt int eltty "int" map yes default 0
omap IS "std::set<int>" key int elt int eltty "int" keyonly yes
omap S2C "std::map<int, std::set<int>>" key int elt IS.t eltty "std::set<int>" map yes default IS.empty
record td "contextfree::terminal_dictionary"
mlw
  (* ------------- symbol_map ------------- *)
  (* the two directions agree: identifiers are exactly 0 .. n-1, one per set *)
  predicate sm_ok (m: smap) =
    (forall k. SI.mem m.smap_IdForSymbols k -> 0 <= SI.get m.smap_IdForSymbols k < length m.smap_SymbolsForId
        /\ m.smap_SymbolsForId[SI.get m.smap_IdForSymbols k] = k)
    /\ (forall i. 0 <= i < length m.smap_SymbolsForId -> SI.mem m.smap_IdForSymbols m.smap_SymbolsForId[i]
        /\ SI.get m.smap_IdForSymbols m.smap_SymbolsForId[i] = i)
  (* every identifier given out before still means the same *)
  predicate sm_extends (a b: smap) =
    length a.smap_SymbolsForId <= length b.smap_SymbolsForId
    /\ (forall i. 0 <= i < length a.smap_SymbolsForId -> b.smap_SymbolsForId[i] = a.smap_SymbolsForId[i])
    /\ (forall k. SI.mem a.smap_IdForSymbols k -> SI.mem b.smap_IdForSymbols k /\ SI.get b.smap_IdForSymbols k = SI.get a.smap_IdForSymbols k)
  lemma different_sets_have_different_ids: forall m j k. sm_ok m -> SI.mem m.smap_IdForSymbols j -> SI.mem m.smap_IdForSymbols k ->
    SI.get m.smap_IdForSymbols j = SI.get m.smap_IdForSymbols k -> j = k
  lemma extends_trans: forall a b c. sm_extends a b -> sm_extends b c -> sm_extends a c
endmlw
fn sm_ctor
  cxx dfa::symbol_map::symbol_map()
  ensures sm_ok result /\ length result.smap_SymbolsForId = 0
end
fn sm_copy
  cxx dfa::symbol_map::symbol_map(const dfa::symbol_map&)
  requires sm_ok copyFrom
  ensures copy answers identically:: sm_ok result /\ result = copyFrom
end
fn sm_id
  cxx dfa::symbol_map::identifier_for_symbols
  requires sm_ok this /\ length this.smap_SymbolsForId <= 2147483647
  ensures consistent:: sm_ok this
  ensures earlier identifiers unchanged:: sm_extends (old this) this
  ensures the identifier means these symbols:: 0 <= result < length this.smap_SymbolsForId /\ this.smap_SymbolsForId[result] = symbols /\ SI.mem this.smap_IdForSymbols symbols /\ SI.get this.smap_IdForSymbols symbols = result
  ensures same identifier if already known:: SI.mem (old this).smap_IdForSymbols symbols -> this = old this
  ensures dense:: not SI.mem (old this).smap_IdForSymbols symbols -> result = length (old this).smap_SymbolsForId /\ length this.smap_SymbolsForId = result + 1
end
fn sm_find
  cxx dfa::symbol_map::find_identifier_for_symbols
  requires sm_ok this
  ensures found exactly if registered:: if SI.mem this.smap_IdForSymbols symbols then result = SI.get this.smap_IdForSymbols symbols /\ result >= 0 else result = -1
  ensures map not modified:: this = old this
end
fn sm_count
  cxx dfa::symbol_map::count_sets
  requires length this.smap_SymbolsForId <= 2147483647
  ensures number of identifiers:: result = length this.smap_SymbolsForId
end
fn sm_index
  cxx dfa::symbol_map::operator[]
  requires sm_ok this /\ length this.smap_SymbolsForId <= 2147483647
  ensures symbols of the identifier:: if 0 <= identifier < length this.smap_SymbolsForId then result = this.smap_SymbolsForId[identifier] else result = nosyms
  ensures map not modified:: this = old this
end
mlw
  (* ------------- terminal_dictionary ------------- *)
  predicate td_ok (d: td) =
    d.td_MaxSymbol >= 0
    (* nothing at or above m_MaxSymbol has been given out *)
    /\ (forall n. N2S.mem d.td_NameToSymbol n -> N2S.get d.td_NameToSymbol n < d.td_MaxSymbol)
    /\ (forall s. S2N.mem d.td_SymbolToName s -> s < d.td_MaxSymbol)
    /\ (forall s. S2P.mem d.td_ParentFor s -> s < d.td_MaxSymbol /\ 0 <= s)
    (* split symbols have an unsplit parent, and are exactly the children of it *)
    /\ (forall s. S2P.mem d.td_ParentFor s -> 0 <= S2P.get d.td_ParentFor s < d.td_MaxSymbol /\ not S2P.mem d.td_ParentFor (S2P.get d.td_ParentFor s))
    /\ (forall s. S2P.mem d.td_ParentFor s -> S2C.mem d.td_ChildrenFor (S2P.get d.td_ParentFor s) /\ IS.mem (S2C.get d.td_ChildrenFor (S2P.get d.td_ParentFor s)) s)
    /\ (forall p c. S2C.mem d.td_ChildrenFor p -> IS.mem (S2C.get d.td_ChildrenFor p) c -> S2P.mem d.td_ParentFor c /\ S2P.get d.td_ParentFor c = p)
  (* each name has one symbol and each named symbol one name *)
  predicate td_names (d: td) =
    (forall n. N2S.mem d.td_NameToSymbol n -> S2N.mem d.td_SymbolToName (N2S.get d.td_NameToSymbol n) /\ S2N.get d.td_SymbolToName (N2S.get d.td_NameToSymbol n) = n)
    /\ (forall s. S2N.mem d.td_SymbolToName s -> N2S.mem d.td_NameToSymbol (S2N.get d.td_SymbolToName s) /\ N2S.get d.td_NameToSymbol (S2N.get d.td_SymbolToName s) = s)
endmlw
fn td_ctor
  cxx contextfree::terminal_dictionary::terminal_dictionary()
  ensures td_ok result /\ td_names result /\ result.td_MaxSymbol = 0
end
fn td_add
  cxx contextfree::terminal_dictionary::add_symbol()
  opt overflow
  requires td_ok this /\ this.td_MaxSymbol < 2147483647
  ensures fresh symbol:: result = (old this).td_MaxSymbol /\ this.td_MaxSymbol = result + 1
  ensures td_ok this
  ensures nothing else changes:: this.td_NameToSymbol = (old this).td_NameToSymbol /\ this.td_SymbolToName = (old this).td_SymbolToName /\ this.td_ParentFor = (old this).td_ParentFor /\ this.td_ChildrenFor = (old this).td_ChildrenFor
end
fn td_add_named
  cxx contextfree::terminal_dictionary::add_symbol(const std::wstring&)
  requires td_ok this /\ this.td_MaxSymbol < 2147483647
  ensures td_ok this
  ensures fresh symbol:: result = (old this).td_MaxSymbol /\ this.td_MaxSymbol = result + 1
  ensures name refers to the symbol:: N2S.mem this.td_NameToSymbol name /\ N2S.get this.td_NameToSymbol name = result
  ensures symbol has the name:: S2N.mem this.td_SymbolToName result /\ S2N.get this.td_SymbolToName result = name
  ensures other names unchanged:: forall n. n <> name -> (N2S.mem this.td_NameToSymbol n <-> N2S.mem (old this).td_NameToSymbol n) /\ (N2S.mem this.td_NameToSymbol n -> N2S.get this.td_NameToSymbol n = N2S.get (old this).td_NameToSymbol n)
  ensures other symbols unchanged:: forall s. s <> result -> (S2N.mem this.td_SymbolToName s <-> S2N.mem (old this).td_SymbolToName s) /\ (S2N.mem this.td_SymbolToName s -> S2N.get this.td_SymbolToName s = S2N.get (old this).td_SymbolToName s)
  ensures names stay one to one:: td_names (old this) -> not N2S.mem (old this).td_NameToSymbol name -> td_names this
  ensures splits unchanged:: this.td_ParentFor = (old this).td_ParentFor /\ this.td_ChildrenFor = (old this).td_ChildrenFor
end
fn td_add_value
  cxx contextfree::terminal_dictionary::add_symbol(const std::wstring&, int)
  opt overflow
  requires td_ok this /\ 0 <= value < 2147483647
  ensures td_ok this
  ensures later symbols do not reuse the number:: this.td_MaxSymbol = max (old this).td_MaxSymbol (value + 1)
  ensures name refers to the symbol:: N2S.mem this.td_NameToSymbol name /\ N2S.get this.td_NameToSymbol name = value
  ensures symbol has the name:: S2N.mem this.td_SymbolToName value /\ S2N.get this.td_SymbolToName value = name
  ensures other names unchanged:: forall n. n <> name -> (N2S.mem this.td_NameToSymbol n <-> N2S.mem (old this).td_NameToSymbol n) /\ (N2S.mem this.td_NameToSymbol n -> N2S.get this.td_NameToSymbol n = N2S.get (old this).td_NameToSymbol n)
  ensures other symbols unchanged:: forall s. s <> value -> (S2N.mem this.td_SymbolToName s <-> S2N.mem (old this).td_SymbolToName s) /\ (S2N.mem this.td_SymbolToName s -> S2N.get this.td_SymbolToName s = S2N.get (old this).td_SymbolToName s)
  ensures names stay one to one:: td_names (old this) -> not N2S.mem (old this).td_NameToSymbol name -> not S2N.mem (old this).td_SymbolToName value -> td_names this
  ensures splits unchanged:: this.td_ParentFor = (old this).td_ParentFor /\ this.td_ChildrenFor = (old this).td_ChildrenFor
end
fn td_parent
  cxx contextfree::terminal_dictionary::parent_of
  ensures unsplit symbols are their own parent:: result = if S2P.mem this.td_ParentFor symbol then S2P.get this.td_ParentFor symbol else symbol
  ensures this = old this
end
fn td_children
  cxx contextfree::terminal_dictionary::children_of
  ensures children of the symbol:: forall c. IS.mem result c <-> (S2C.mem this.td_ChildrenFor symbol /\ IS.mem (S2C.get this.td_ChildrenFor symbol) c)
  ensures this = old this
end
fn td_split
  cxx contextfree::terminal_dictionary::split
  requires td_ok this /\ this.td_MaxSymbol < 2147483647 /\ 0 <= symbol < this.td_MaxSymbol
  ensures td_ok this
  ensures fresh symbol:: result = (old this).td_MaxSymbol /\ this.td_MaxSymbol = result + 1
  ensures parent is the original unsplit symbol:: S2P.mem this.td_ParentFor result /\ S2P.get this.td_ParentFor result = (if S2P.mem (old this).td_ParentFor symbol then S2P.get (old this).td_ParentFor symbol else symbol)
  ensures parent was not split:: not S2P.mem this.td_ParentFor (S2P.get this.td_ParentFor result)
  ensures listed among the children:: S2C.mem this.td_ChildrenFor (S2P.get this.td_ParentFor result) /\ IS.mem (S2C.get this.td_ChildrenFor (S2P.get this.td_ParentFor result)) result
  ensures other parents unchanged:: forall s. s <> result -> (S2P.mem this.td_ParentFor s <-> S2P.mem (old this).td_ParentFor s) /\ (S2P.mem this.td_ParentFor s -> S2P.get this.td_ParentFor s = S2P.get (old this).td_ParentFor s)
  ensures names unchanged:: this.td_NameToSymbol = (old this).td_NameToSymbol /\ this.td_SymbolToName = (old this).td_SymbolToName
end
fn td_symbol_for_name
  cxx contextfree::terminal_dictionary::symbol_for_name
  ensures symbol registered under the name:: result = if N2S.mem this.td_NameToSymbol name then N2S.get this.td_NameToSymbol name else -1
  ensures this = old this
end
fn td_name_for_symbol
  cxx contextfree::terminal_dictionary::name_for_symbol
  rec
  variant if S2P.mem this.td_ParentFor symbol then 1 else 0
  requires td_ok this
  ensures name of the symbol or of the one it was split from:: result = if S2N.mem this.td_SymbolToName symbol then S2N.get this.td_SymbolToName symbol else
     if S2P.mem this.td_ParentFor symbol /\ S2N.mem this.td_SymbolToName (S2P.get this.td_ParentFor symbol) then S2N.get this.td_SymbolToName (S2P.get this.td_ParentFor symbol) else str_empty
  ensures this = old this
end
fn td_count
  cxx contextfree::terminal_dictionary::count_symbols
  requires S2N.size this.td_SymbolToName <= 2147483647
  ensures result = S2N.size this.td_SymbolToName
  ensures this = old this
end
