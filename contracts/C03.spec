tu
#include "/repo/TameParse/Dfa/symbol_table.h"
#include "/repo/TameParse/Dfa/symbol_translator.h"
#include "/repo/TameParse/Dfa/hard_coded_symbol_table.h"
namespace vtu {
int use1(dfa::symbol_table<char>& t, const dfa::range<int>& r, size_t& sz) { t.add_range(r, 1); t.table.to_hard_coded_table(sz); return t.lookup(1); }
int use2(dfa::symbol_table<wchar_t>& t, const dfa::range<int>& r, size_t& sz) { t.add_range(r, 1); t.table.to_hard_coded_table(sz); return t.lookup(1); }
int use4(const dfa::range<int>& r, size_t& sz) { dfa::symbol_table<int> t; t.add_range(r, 1); t.table.to_hard_coded_table(sz); return t.lookup(1); }
int useh(const int* p) { dfa::hard_coded_symbol_table<wchar_t, 2> t(p); dfa::hard_coded_symbol_table<int, 4> t4(p); dfa::hard_coded_symbol_table<unsigned char, 1> t1(p); return t.lookup(1) + t4.lookup(1) + t1.lookup(1); }
int uset(const dfa::symbol_map& m) { dfa::symbol_translator<wchar_t> t(m); return t.set_for_symbol(1); }
}
endtu
#use bits.
alias "dfa::symbol_level_for<char>" "dfa::symbol_level<int, 255, 0>"
alias "dfa::symbol_level_for<wchar_t>" "dfa::symbol_level<dfa::symbol_level<int, 255, 0>, 65280, 8>"
alias "dfa::symbol_level_for<int>" "dfa::symbol_level<dfa::symbol_level<dfa::symbol_level<dfa::symbol_level<int, 255, 0>, 65280, 8>, 16711680, 16>, 2130706432, 24>"
harr int "int *" "int"
record rng "dfa::range<int>"
record lv0 "dfa::symbol_level<int, 255, 0>"
mlw
  use int.EuclideanDivision as ED
  function pos0 (v: int) : int = ED.mod v 256
  predicate al0 (b: int) = ED.mod b 256 = 0
  lemma pos0_rel: forall b v [pos0 v, al0 b]. al0 b -> b <= v < b + 256 -> pos0 v = v - b
  lemma pos0_range: forall v [pos0 v]. 0 <= pos0 v < 256
  function lk0 (t: lv0) (v: int) : int = match t.lv0_Symbols with HNull -> t.lv0_DefaultSymbol | HArr s -> s[pos0 v] end
  predicate hit0 (t: lv0) (v: int) = lk0 t v <> -1
  predicate sh0 (t: lv0) = match t.lv0_Symbols with HNull -> true | HArr s -> length s = 256 /\ t.lv0_DefaultSymbol = -1 end
  predicate some0 (t: lv0) (b: int) = exists v. b <= v < b + 256 /\ hit0 t v
  predicate wf0 (t: lv0) (b: int) = sh0 t /\ (t.lv0_Symbols = HNull \/ some0 t b)
  predicate wfx0 (t: lv0) = exists b. wf0 t b
  predicate fresh0 (t: lv0) = t.lv0_DefaultSymbol = -1 /\ t.lv0_Symbols = HNull
  predicate inr (r: rng) (v: int) = r.rng_Lower <= v < r.rng_Upper
  predicate rok (r: rng) = 0 <= r.rng_Lower < r.rng_Upper <= 2147483647
endmlw
fn level0_new
  cxx dfa::symbol_level<int, 255, 0>::symbol_level()
  ensures a new page assigns no class:: fresh0 result
end
fn add_range0
  cxx dfa::symbol_level<int, 255, 0>::add_range
  opt overflow
  requires wf0 this base /\ rok v_range /\ 0 <= symbol /\ 0 <= base <= 2147483392 /\ al0 base
  requires classes are disjoint:: forall v. base <= v < base + 256 -> inr v_range v -> lk0 this v = -1
  ensures representation:: wf0 this base
  ensures the range gets the class:: forall v. base <= v < base + 256 -> lk0 this v = if inr v_range v then symbol else lk0 (old this) v
  ensures class present:: forall v. base <= v < base + 256 -> inr v_range v -> hit0 this v
  loop 0
    before assert { inr v_range (base + startIndex) /\ base <= base + startIndex < base + 256 /\ lk0 (old this) (base + startIndex) = -1 }
    invariant this.lv0_DefaultSymbol = -1 /\ this.lv0_Symbols = HArr (hs this.lv0_Symbols) /\ length (hs this.lv0_Symbols) = 256 /\ 0 <= index <= 256
    invariant forall i. 0 <= i < index -> (hs this.lv0_Symbols)[i] = -1
    variant 256 - index
  loop 1
    before assert { inr v_range (base + startIndex) /\ base <= base + startIndex < base + 256 /\ lk0 (old this) (base + startIndex) = -1 }
    after assert { hit0 this (base + startIndex) }
    invariant this.lv0_DefaultSymbol = -1 /\ this.lv0_Symbols = HArr (hs this.lv0_Symbols) /\ length (hs this.lv0_Symbols) = 256 /\ startIndex <= index_2 <= endIndex
    invariant forall v. base <= v < base + 256 -> lk0 this v = if inr v_range v /\ v - base < index_2 then symbol else lk0 (old this) v
    variant endIndex - index_2
end
fn lookup0
  cxx dfa::symbol_level<int, 255, 0>::lookup
  opt overflow
  requires sh0 this /\ 0 <= v_val
  ensures lookup:: result = lk0 this v_val
end
macro LEVEL k c P NE PS MAXB child cxx
ptr lv$c "$child" own=yes
harr "ptr lv$c" "$child **" "$child *"
record lv$k "$cxx"
mlw
  function pos$k (v: int) : int = ED.mod (ED.div v $P) $NE
  predicate al$k (b: int) = ED.mod b $PS = 0
  lemma pos$k_rel: forall b v [pos$k v, al$k b]. al$k b -> b <= v < b + $PS -> pos$k v = ED.div (v - b) $P
  lemma pos$k_range: forall v [pos$k v]. 0 <= pos$k v < $NE
  predicate inchild$k (b i v: int) = b + i * $P <= v < b + i * $P + $P
  lemma pos$k_page: forall b v i [pos$k v, inchild$k b i v]. al$k b -> b <= v < b + $PS -> 0 <= i < $NE -> (pos$k v = i <-> inchild$k b i v)
  lemma al$k_child: forall b i [al$c (b + i * $P), al$k b]. al$k b -> al$c (b + i * $P)
  function lk$k (t: lv$k) (v: int) : int =
    match t.lv$k_Symbols with HNull -> t.lv$k_DefaultSymbol | HArr s -> match s[pos$k v] with Null -> t.lv$k_DefaultSymbol | Ptr n -> lk$c n v end end
  predicate hit$k (t: lv$k) (v: int) = lk$k t v <> -1
  predicate sh$k (t: lv$k) = match t.lv$k_Symbols with HNull -> true
    | HArr s -> length s = $NE /\ t.lv$k_DefaultSymbol = -1 /\ forall i n. 0 <= i < $NE -> s[i] = Ptr n -> sh$c n end
  predicate some$k (t: lv$k) (b: int) = exists v. b <= v < b + $PS /\ hit$k t v
  predicate children$k (s: seq (ptr lv$c)) (b: int) = length s = $NE /\ forall i. 0 <= i < $NE -> (forall n. s[i] = Ptr n -> wf$c n (b + i * $P))
  predicate wf$k (t: lv$k) (b: int) = match t.lv$k_Symbols with HNull -> true
    | HArr s -> t.lv$k_DefaultSymbol = -1 /\ some$k t b /\ children$k s b end
  predicate wfx$k (t: lv$k) = exists b. wf$k t b
  predicate fresh$k (t: lv$k) = t.lv$k_DefaultSymbol = -1 /\ t.lv$k_Symbols = HNull
  lemma wf$k_children: forall s b i n. children$k s b -> 0 <= i < $NE -> s[i] = Ptr n -> wf$c n (b + i * $P)
  let lemma wf$k_sh (t: lv$k) (b: int)
    requires { wf$k t b } ensures { sh$k t }
  = match t.lv$k_Symbols with HNull -> () | HArr s -> assert { forall i n. 0 <= i < $NE -> s[i] = Ptr n -> sh$c n by wf$c n (b + i * $P) } end
endmlw
fn level$k_new
  cxx $cxx::symbol_level()
  ensures a new page assigns no class:: fresh$k result
end
fn add_range$k
  cxx $cxx::add_range
  opt overflow oldthis
  entry assert { v_range.rng_Lower <= base -> base + $PS <= v_range.rng_Upper -> this.lv$k_Symbols = HNull by forall v. base <= v < base + $PS -> not hit$k this v }
  requires wf$k this base /\ rok v_range /\ 0 <= symbol /\ 0 <= base <= $MAXB /\ al$k base
  requires classes are disjoint:: forall v. base <= v < base + $PS -> inr v_range v -> lk$k this v = -1
  ensures representation:: wf$k this base
  ensures the range gets the class:: forall v. base <= v < base + $PS -> lk$k this v = if inr v_range v then symbol else lk$k (old this) v
  ensures class present:: forall v. base <= v < base + $PS -> inr v_range v -> hit$k this v
  loop 0
    before let ghost wit = if v_range.rng_Lower > base then v_range.rng_Lower else base in assert { [@expl:witness in page] base <= wit < base + $PS }; assert { [@expl:witness in range] inr v_range wit }; assert { [@expl:witness free] lk$k old_this wit = -1 }
    invariant this.lv$k_DefaultSymbol = -1 /\ this.lv$k_Symbols = HArr (hs this.lv$k_Symbols) /\ length (hs this.lv$k_Symbols) = $NE /\ 0 <= index <= $NE
    invariant forall i. 0 <= i < index -> (hs this.lv$k_Symbols)[i] = Null
    variant $NE - index
  loop 1
    before let ghost wit = if v_range.rng_Lower > base then v_range.rng_Lower else base in assert { [@expl:witness in page] base <= wit < base + $PS }; assert { [@expl:witness in range] inr v_range wit }; assert { [@expl:witness free] lk$k old_this wit = -1 }
    invariant this.lv$k_DefaultSymbol = -1 /\ this.lv$k_Symbols = HArr (hs this.lv$k_Symbols) /\ startIndex <= index_2 <= endIndex + 1
    invariant children$k (hs this.lv$k_Symbols) base
    invariant forall v. base <= v < base + $PS -> lk$k this v = if inr v_range v /\ pos$k v < index_2 then symbol else lk$k old_this v
    variant endIndex - index_2
    after assert { [@expl:last page] forall v. base <= v < base + $PS -> inr v_range v -> pos$k v <= endIndex by ED.div (v - base) $P <= ED.div (v_range.rng_Upper - 1 - base) $P }; assert { [@expl:witness] hit$k this wit }
end
fn lookup$k
  cxx $cxx::lookup
  opt overflow
  requires sh$k this /\ 0 <= v_val
  ensures lookup:: result = lk$k this v_val
end
endmacro
expand LEVEL 1 0 256 256 65536 2147418112 "dfa::symbol_level<int, 255, 0>" "dfa::symbol_level<dfa::symbol_level<int, 255, 0>, 65280, 8>"
expand LEVEL 2 1 65536 256 16777216 2130706432 "dfa::symbol_level<dfa::symbol_level<int, 255, 0>, 65280, 8>" "dfa::symbol_level<dfa::symbol_level<dfa::symbol_level<int, 255, 0>, 65280, 8>, 16711680, 16>"
expand LEVEL 3 2 16777216 128 2147483648 0 "dfa::symbol_level<dfa::symbol_level<dfa::symbol_level<int, 255, 0>, 65280, 8>, 16711680, 16>" "dfa::symbol_level<dfa::symbol_level<dfa::symbol_level<dfa::symbol_level<int, 255, 0>, 65280, 8>, 16711680, 16>, 2130706432, 24>"
mlw
  (* the flattened form: a page at offset o of the array t *)
  function lo (t: seq int) (o: int) : int = ED.mod t[o + 1] 256
  function hi (t: seq int) (o: int) : int = ED.div t[o + 1] 256
  predicate hdr (t: seq int) (o: int) = 0 <= o /\ o + 2 <= length t /\ 0 <= t[o + 1] /\ o + 2 + hi t o - lo t o <= length t
  predicate used (t: seq int) (o p: int) = lo t o <= p < hi t o
  function ent (t: seq int) (o p: int) : int = t[o + 2 + (p - lo t o)]
  function hl0 (t: seq int) (o: int) (v: int) : int = let p = ED.mod v 256 in if used t o p /\ ent t o p <> -1 then ent t o p else t[o]
  predicate hok0 (t: seq int) (o: int) = hdr t o
  (* the array r stands at offset o in t *)
  predicate part (t: seq int) (o: int) (r: seq int) = 0 <= o /\ o + length r <= length t /\ forall i. 0 <= i < length r -> t[o + i] = r[i]
  lemma part_hdr: forall t o r q [part t o r, hdr r q]. part t o r -> hdr r q -> hdr t (o + q) /\ lo t (o + q) = lo r q /\ hi t (o + q) = hi r q /\ t[o + q] = r[q]
  lemma part_ent: forall t o r q p. part t o r -> hdr r q -> used r q p -> ent t (o + q) p = ent r q p
  lemma move0: forall t o r q [part t o r, hok0 r q]. part t o r -> hok0 r q -> hok0 t (o + q) /\ forall v. hl0 t (o + q) v = hl0 r q v
  predicate enc0 (r: seq int) (c: lv0) = hok0 r 0 /\ forall v. 0 <= v <= 2147483647 -> hl0 r 0 v = lk0 c v
endmlw
fn hcst0
  cxx dfa::hcst_lookup_sym<0>
  opt wrapcast
  requires table <> HNull /\ hok0 (hs table) offset /\ 0 <= symbol
  ensures flattened lookup:: result = hl0 (hs table) offset symbol
end
macro HLEVEL k c P
mlw
  function hl$k (t: seq int) (o: int) (v: int) : int = let p = ED.mod (ED.div v $P) 256 in
    if used t o p /\ ent t o p <> -1 then hl$c t (o + ent t o p) v else t[o]
  predicate hok$k (t: seq int) (o: int) = hdr t o /\ forall p. used t o p -> ent t o p <> -1 -> ent t o p >= 0 /\ hok$c t (o + ent t o p)
  let lemma move$k (t: seq int) (o: int) (r: seq int) (q: int)
    requires { part t o r /\ hok$k r q }
    ensures { hok$k t (o + q) } ensures { forall v. hl$k t (o + q) v = hl$k r q v }
  = assert { forall p. used r q p -> ent t (o + q) p = ent r q p };
    assert { forall p. used r q p -> ent r q p <> -1 -> hok$c t (o + (q + ent r q p)) /\ forall v. hl$c t (o + (q + ent r q p)) v = hl$c r (q + ent r q p) v };
    assert { forall p. o + q + ent r q p = o + (q + ent r q p) }
  predicate enc$k (r: seq int) (c: lv$k) = hok$k r 0 /\ forall v. 0 <= v <= 2147483647 -> hl$k r 0 v = lk$k c v
endmlw
fn hcst$k
  cxx dfa::hcst_lookup_sym<$k>
  opt wrapcast
  entry assert { let t = hs table in let p = ED.mod (ED.div symbol $P) 256 in used t offset p -> ent t offset p <> -1 -> ent t offset p >= 0 /\ hok$c t (offset + ent t offset p) }
  requires table <> HNull /\ hok$k (hs table) offset /\ 0 <= symbol
  ensures flattened lookup:: result = hl$k (hs table) offset symbol
end
endmacro
expand HLEVEL 1 0 256
expand HLEVEL 2 1 65536
expand HLEVEL 3 2 16777216

mlw
  let rec ghost function total (s: seq (harr int)) (n: int) : int
    variant { n }
  = if n <= 0 then 0 else total s (n - 1) + length (hs s[n - 1])
  let rec ghost total_le (s: seq (harr int)) (n m k: int)
    requires { 0 <= n <= m } requires { forall i. 0 <= i < m -> 0 <= length (hs s[i]) <= k }
    ensures { 0 <= total s n <= total s m <= total s n + k * (m - n) }
    variant { m }
  = if m > n then total_le s n (m - 1) k else if n > 0 then total_le s (n - 1) (n - 1) k
  let rec ghost total_same (s r: seq (harr int)) (n: int)
    requires { forall i. 0 <= i < n -> s[i] = r[i] } ensures { total s n = total r n } variant { n }
  = if n > 0 then total_same s r (n - 1)
  let rec ghost total_null (s: seq (harr int)) (n m: int)
    requires { 0 <= n <= m } requires { forall i. n <= i < m -> s[i] = HNull } ensures { total s n = total s m } variant { m }
  = if n < m then begin total_null s n (m - 1); assert { hs s[m - 1] = empty } end
endmlw
fn flat0
  cxx dfa::symbol_level<int, 255, 0>::to_hard_coded_table
  opt overflow
  entry assert { this.lv0_Symbols = HNull \/ exists i. 0 <= i < 256 /\ (hs this.lv0_Symbols)[i] <> -1 }
  requires wfx0 this
  ensures the page is left alone:: this = old this
  ensures flattened page agrees with the page:: result <> HNull /\ enc0 (hs result) this
  ensures size:: size = length (hs result) /\ 2 <= size <= 258
  loop 0
    invariant 0 <= symbolId <= 256 /\ 0 <= lowestUsed <= 256 /\ 0 <= highestUsed <= 256
    invariant (lowestUsed < highestUsed \/ lowestUsed = 256 /\ highestUsed = 0) /\ highestUsed <= symbolId
    invariant forall i. 0 <= i < symbolId -> (hs this.lv0_Symbols)[i] <> -1 -> lowestUsed <= i < highestUsed
    variant 256 - symbolId
  loop 1
    invariant newTable <> HNull /\ length (hs newTable) = size /\ lowestUsed <= symbolId_2 <= highestUsed
    invariant (hs newTable)[0] = -1 /\ (hs newTable)[1] = lowestUsed + 256 * highestUsed
    invariant forall i. lowestUsed <= i < symbolId_2 -> (hs newTable)[2 + (i - lowestUsed)] = (hs this.lv0_Symbols)[i]
    variant highestUsed - symbolId_2
end
mlw
  lemma set_same: forall s: seq 'a, i: int, v: 'a [set s i v]. 0 <= i < length s -> v = s[i] -> set s i v = s by set s i v == s
  let rec lemma total_set (s: seq (harr int)) (n i: int) (v: harr int)
    requires { 0 <= n <= i < length s } ensures { total (set s i v) n = total s n } variant { n }
  = if n > 0 then total_set s (n - 1) i v
  lemma part_same: forall t t' o r [part t o r, part t' o r]. part t o r -> length t' = length t -> (forall j. o <= j < o + length r -> t'[j] = t[j]) -> part t' o r
endmlw
arr int "unsigned long[256]" "unsigned long"
arr int "size_t[256]" "unsigned long"
arr "(harr int)" "int *[256]" "int *"
macro FLAT k c P NE CB BOUND cxx
fn flat$k
  cxx $cxx::to_hard_coded_table
  opt overflow
  entry assert { [@expl:pages are well formed] forall i n. 0 <= i < $NE -> this.lv$k_Symbols <> HNull -> (hs this.lv$k_Symbols)[i] = Ptr n -> wfx$c n }
  entry assert { [@expl:some page is used] this.lv$k_Symbols = HNull \/ exists i. 0 <= i < $NE /\ (hs this.lv$k_Symbols)[i] <> Null }
  requires wfx$k this
  ensures the page is left alone:: this = old this
  ensures flattened page agrees with the page:: result <> HNull /\ enc$k (hs result) this
  ensures size:: size = length (hs result) /\ 2 <= size <= $BOUND
  loop 0
    invariant this = old this /\ 0 <= subtableId <= $NE /\ 0 <= lowestUsed <= $NE /\ 0 <= highestUsed <= $NE
    invariant (lowestUsed < highestUsed \/ lowestUsed = $NE /\ highestUsed = 0) /\ highestUsed <= subtableId
    invariant forall i. 0 <= i < subtableId -> (hs this.lv$k_Symbols)[i] <> Null -> lowestUsed <= i < highestUsed
    invariant length subTables = $NE /\ length tableSizes = $NE
    invariant forall i. 0 <= i < subtableId -> match (hs this.lv$k_Symbols)[i] with Null -> subTables[i] = HNull
      | Ptr n -> subTables[i] <> HNull /\ enc$c (hs subTables[i]) n /\ tableSizes[i] = length (hs subTables[i]) /\ 2 <= tableSizes[i] <= $CB end
    invariant totalSize = total subTables subtableId /\ 0 <= totalSize <= $CB * subtableId
    variant $NE - subtableId
  loop 1
    before let ghost sub0 = subTables in assert { [@expl:a used page] lowestUsed < highestUsed by exists i. 0 <= i < $NE /\ (hs this.lv$k_Symbols)[i] <> Null }
    after assert { [@expl:header] let t = hs newTable in hdr t 0 /\ lo t 0 = lowestUsed /\ hi t 0 = highestUsed /\ t[0] = -1 }
    after assert { [@expl:unused entries] forall p. used (hs newTable) 0 p -> (hs this.lv$k_Symbols)[p] = Null -> ent (hs newTable) 0 p = -1 }
    after assert { [@expl:used entries] forall p n. used (hs newTable) 0 p -> (hs this.lv$k_Symbols)[p] = Ptr n -> let q = ent (hs newTable) 0 p in q > 0 /\ part (hs newTable) q (hs sub0[p]) /\ enc$c (hs sub0[p]) n }
    after assert { [@expl:pages copied] forall p n. used (hs newTable) 0 p -> (hs this.lv$k_Symbols)[p] = Ptr n -> let q = ent (hs newTable) 0 p in (hok$c (hs newTable) q /\ forall v. hl$c (hs newTable) q v = hl$c (hs sub0[p]) 0 v) by hok$c (hs newTable) (q + 0) }
    after assert { [@expl:table well formed] hok$k (hs newTable) 0 }
    after assert { [@expl:table looked up] forall v. 0 <= v <= 2147483647 -> hl$k (hs newTable) 0 v = lk$k this v by let p = ED.mod (ED.div v $P) $NE in p = pos$k v /\ p = ED.mod (ED.div v $P) 256 /\ match (hs this.lv$k_Symbols)[p] with Null -> hl$k (hs newTable) 0 v = -1 | Ptr n -> used (hs newTable) 0 p /\ hl$c (hs newTable) (ent (hs newTable) 0 p) v = lk$c n v end }
    before ghost (total_null sub0 0 lowestUsed); ghost (total_null sub0 highestUsed $NE); ghost (total_le sub0 0 lowestUsed $CB)
    invariant lowestUsed <= subtableId_2 <= highestUsed /\ this = old this
    invariant newTable <> HNull /\ length (hs newTable) = size /\ length subTables = $NE
    invariant (hs newTable)[0] = -1 /\ (hs newTable)[1] = lowestUsed + 256 * highestUsed
    invariant copyPos = 2 + (highestUsed - lowestUsed) + total sub0 subtableId_2
    invariant forall i. subtableId_2 <= i < $NE -> subTables[i] = sub0[i]
    invariant forall i. lowestUsed <= i < subtableId_2 -> sub0[i] = HNull -> (hs newTable)[2 + (i - lowestUsed)] = -1
    invariant forall i. lowestUsed <= i < subtableId_2 -> sub0[i] <> HNull -> let q = (hs newTable)[2 + (i - lowestUsed)] in 2 + (highestUsed - lowestUsed) <= q /\ q + length (hs sub0[i]) <= copyPos /\ part (hs newTable) q (hs sub0[i])
    variant highestUsed - subtableId_2
    end assert { [@expl:rest of the table unchanged] forall j. 0 <= j < cp0 -> j <> 2 + (subtableId_2 - lowestUsed) -> (hs newTable)[j] = (hs nt0)[j] }
    end assert { [@expl:earlier pages kept] forall i. lowestUsed <= i < subtableId_2 -> sub0[i] <> HNull -> let q = (hs newTable)[2 + (i - lowestUsed)] in q = (hs nt0)[2 + (i - lowestUsed)] /\ part (hs nt0) q (hs sub0[i]) /\ part (hs newTable) q (hs sub0[i]) }
    end assert { [@expl:offset in range] 2 <= 2 + (subtableId_2 - lowestUsed) < cp0 < 2147483647 /\ length (hs nt0) = length (hs newTable) /\ 2 + (subtableId_2 - lowestUsed) < length (hs nt0) }
    end assert { [@expl:offset stored] sub0[subtableId_2] <> HNull -> (hs newTable)[2 + (subtableId_2 - lowestUsed)] = cp0 }
    end assert { [@expl:page fits] sub0[subtableId_2] <> HNull -> cp0 + length (hs sub0[subtableId_2]) <= length (hs newTable) /\ cp0 >= 0 }
    end assert { [@expl:page copied] sub0[subtableId_2] <> HNull -> part (hs newTable) cp0 (hs sub0[subtableId_2]) by forall j. 0 <= j < length (hs sub0[subtableId_2]) -> (hs newTable)[cp0 + j] = (hs sub0[subtableId_2])[j] }
    begin let ghost nt0 = newTable in let ghost cp0 = copyPos in assert { [@expl:size of the page] subTables[subtableId_2] = sub0[subtableId_2] /\ (sub0[subtableId_2] <> HNull -> tableSizes[subtableId_2] = length (hs sub0[subtableId_2])) }
    begin ghost (total_le sub0 subtableId_2 (subtableId_2 + 1) $CB); ghost (total_le sub0 (subtableId_2 + 1) $NE $CB); ghost (total_le sub0 0 subtableId_2 $CB)
end
endmacro
expand FLAT 1 0 256 256 258 66306 "dfa::symbol_level<dfa::symbol_level<int, 255, 0>, 65280, 8>"
macro TABLE k PS ty
record st$k "dfa::symbol_table<$ty, dfa::symbol_level_for<$ty>>"
fn table$k_add_range
  cxx dfa::symbol_table<$ty, dfa::symbol_level_for<$ty>>::add_range
  opt overflow
  requires wf$k this.st$k_table 0 /\ rok v_range /\ 0 <= symbol
  requires classes are disjoint:: forall v. 0 <= v < $PS -> inr v_range v -> lk$k this.st$k_table v = -1
  ensures representation:: wf$k this.st$k_table 0
  ensures the range gets the class:: forall v. 0 <= v < $PS -> lk$k this.st$k_table v = if inr v_range v then symbol else lk$k (old this).st$k_table v
end
fn table$k_lookup
  cxx dfa::symbol_table<$ty, dfa::symbol_level_for<$ty>>::lookup
  opt overflow
  requires sh$k this.st$k_table /\ 0 <= v_val
  ensures lookup:: result = lk$k this.st$k_table v_val
end
endmacro
expand TABLE 0 256 "char"
expand TABLE 1 65536 "wchar_t"
expand TABLE 3 2147483648 "int"
macro HARD k ty sz
record hct$k "dfa::hard_coded_symbol_table<$ty, $sz>"
fn hard$k_lookup
  cxx dfa::hard_coded_symbol_table<$ty, $sz>::lookup
  requires this.hct$k_Table <> HNull /\ hok$k (hs this.hct$k_Table) 0 /\ 0 <= symbol <= 2147483647
  ensures flattened lookup:: result = hl$k (hs this.hct$k_Table) 0 symbol
end
endmacro
expand HARD 0 "unsigned char" 1
expand HARD 1 "wchar_t" 2
expand HARD 3 "int" 4
