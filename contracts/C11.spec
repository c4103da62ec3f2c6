tu
#include "/repo/TameParse/ContextFree/grammar.cpp"
#include "/repo/TameParse/ContextFree/item_set.cpp"
endtu
mlw
  use bits.Bits
  use int.NumOf
  use int.EuclideanDivision as ED
  type item
  type grammar
  (* the identifier a grammar gives an item (C10: the same one every time, not negative) *)
  val function ident (g: grammar) (i: item) : int
    ensures { result >= 0 }
  val function item_with (g: grammar) (i: int) : item
endmlw
alias "contextfree::item_container" "util::container<contextfree::item, contextfree::empty_item_constructor>"
abstract item "contextfree::item"
abstract grammar "contextfree::grammar"
handle item "util::container<contextfree::item, contextfree::empty_item_constructor>" "contextfree::item"
ptr grammar "contextfree::grammar"
xfn ident "contextfree::grammar::identifier_for_item"
xfn item_with "contextfree::grammar::item_with_identifier"
arr int "heap unsigned int" "unsigned int" own=yes
record is "contextfree::item_set" field "m_Items:heap unsigned int"
record iter_ "contextfree::item_set::const_iterator"
mlw
  predicate wbit (w i: int) = bit w i
  (* item number x is in the words *)
  predicate hasw (w: seq int) (n: int) (x: int) = 0 <= x /\ ED.div x 32 < n /\ bit (w[ED.div x 32]) (ED.mod x 32)
  function inw (w: seq int) (n: int) : int -> bool = fun x -> hasw w n x
  predicate has (s: is) (x: int) = hasw s.is_Items s.is_MaxItem x
  function card (w: seq int) (n: int) : int = numof (inw w n) 0 (32 * n)
  predicate words (w: seq int) (n: int) = 0 <= n <= 67108863 /\ n <= length w /\ forall i. 0 <= i < n -> word w[i]
  (* the representation: words in range, the number of members, no empty word at the end *)
  predicate wf (s: is) = words s.is_Items s.is_MaxItem /\ s.is_Size = card s.is_Items s.is_MaxItem /\ (s.is_MaxItem > 0 -> s.is_Items[s.is_MaxItem - 1] <> 0)
  let ghost word_number (i b: int)
    requires { 0 <= b < 32 }
    ensures { ED.div (32 * i + b) 32 = i /\ ED.mod (32 * i + b) 32 = b }
  = ()
  let ghost word_number_all ()
    ensures { forall i b. 0 <= b < 32 -> ED.div (32 * i + b) 32 = i /\ ED.mod (32 * i + b) 32 = b }
  = ()
  let rec ghost numof_ext (p q: int -> bool) (a b: int)
    requires { forall x. a <= x < b -> (p x <-> q x) }
    ensures { numof p a b = numof q a b }
    variant { b - a }
  = if a < b then numof_ext p q a (b - 1)
  let ghost numof_one_more (p q: int -> bool) (a b k: int)
    requires { a <= k < b /\ not p k /\ q k /\ forall x. a <= x < b -> x <> k -> (p x <-> q x) }
    ensures { numof q a b = numof p a b + 1 }
  = numof_ext p q a k; numof_ext p q (k + 1) b;
    assert { numof p a b = numof p a k + numof p k b /\ numof p k b = numof p k (k + 1) + numof p (k + 1) b };
    assert { numof q a b = numof q a k + numof q k b /\ numof q k b = numof q k (k + 1) + numof q (k + 1) b }
  let ghost word_split (x: int)
    ensures { x = 32 * ED.div x 32 + ED.mod x 32 /\ 0 <= ED.mod x 32 < 32 }
  = ()
  let ghost same_word_same_bit (x y: int)
    requires { ED.div x 32 = ED.div y 32 /\ ED.mod x 32 = ED.mod y 32 }
    ensures { x = y }
  = word_split x; word_split y
  let lemma word_of_member (w: seq int) (n x: int)
    requires { words w n /\ hasw w n x }
    ensures { 0 <= x < 32 * n }
  = word_split x
  lemma hasw_shrink: forall w n x [hasw w (n - 1) x]. words w n -> 0 < n -> w[n - 1] = 0 -> (hasw w (n - 1) x <-> hasw w n x)
  lemma words_set: forall w n i v [words (set w i v) n]. words w n -> 0 <= i < n -> word v -> words (set w i v) n
  lemma words_pad: forall w v n m [words w n, words v m]. words w n -> n <= m <= 67108863 -> m <= length v -> (forall i. 0 <= i < n -> v[i] = w[i]) -> (forall i. n <= i < m -> v[i] = 0) -> words v m
  let lemma hasw_set (w: seq int) (n i v x: int)
    requires { words w n /\ 0 <= i < n }
    ensures { hasw (set w i v) n x <-> if ED.div x 32 = i then 0 <= x /\ bit v (ED.mod x 32) else hasw w n x }
  = ()
  (* the number of members depends on the members alone *)
  let ghost card_ge (w: seq int) (n m: int)
    requires { words w n /\ n <= m }
    ensures { numof (inw w n) 0 (32 * m) = card w n }
  = assert { forall x. 32 * n <= x < 32 * m -> not (inw w n) x by hasw w n x -> x < 32 * n };
    assert { numof (inw w n) 0 (32 * m) = numof (inw w n) 0 (32 * n) + numof (inw w n) (32 * n) (32 * m) }
  let ghost card_same (w v: seq int) (n m: int)
    requires { words w n /\ words v m }
    requires { forall x. hasw v m x <-> hasw w n x }
    ensures { card v m = card w n }
  = let k = if n < m then m else n in
    card_ge w n k; card_ge v m k;
    numof_ext (inw w n) (inw v m) 0 (32 * k)
  let ghost card_one_more (w v: seq int) (n m k: int)
    requires { words w n /\ words v m }
    requires { not hasw w n k /\ forall x. hasw v m x <-> (hasw w n x \/ x = k) }
    ensures { card v m = card w n + 1 }
  = assert { hasw v m k };
    word_of_member v m k;
    let l = if n < m then m else n in
    card_ge w n l; card_ge v m l;
    numof_one_more (inw w n) (inw v m) 0 (32 * l) k
  let ghost card_positive (w: seq int) (n k: int)
    requires { words w n /\ hasw w n k }
    ensures { card w n > 0 }
  = assert { ED.div k 32 < n so k < 32 * n };
    assert { numof (inw w n) 0 (32 * n) = numof (inw w n) 0 k + numof (inw w n) k (32 * n)
         /\ numof (inw w n) k (32 * n) = numof (inw w n) k (k + 1) + numof (inw w n) (k + 1) (32 * n) }
  (* the last word of a set holds a member *)
  let ghost last_member (s: is)
    requires { wf s /\ s.is_MaxItem > 0 }
    ensures { exists x. 32 * (s.is_MaxItem - 1) <= x < 32 * s.is_MaxItem /\ has s x }
  = let l = s.is_MaxItem - 1 in
    assert { word s.is_Items[l] };
    let ghost r = any int ensures { 0 <= result < 32 /\ bit s.is_Items[l] result } in
    word_number l r;
    assert { has s (32 * l + r) }
  function word_at (s: is) (i: int) : int = if i < s.is_MaxItem then s.is_Items[i] else 0
  (* sets with the same members have the same words *)
  let lemma members_determine_words (a b: is)
    requires { wf a /\ wf b } requires { forall x. has a x <-> has b x }
    ensures { a.is_MaxItem = b.is_MaxItem }
    ensures { forall i. 0 <= i < a.is_MaxItem -> a.is_Items[i] = b.is_Items[i] by same_bits a.is_Items[i] b.is_Items[i] }
  = if a.is_MaxItem > b.is_MaxItem then begin last_member a; assert { forall x. has b x -> x < 32 * b.is_MaxItem } end
    else if b.is_MaxItem > a.is_MaxItem then begin last_member b; assert { forall x. has a x -> x < 32 * a.is_MaxItem } end
    else begin
      let rec ghost f (i j: int) : unit
        requires { 0 <= i < a.is_MaxItem /\ 0 <= j <= 32 } ensures { forall l. 0 <= l < j -> (bit a.is_Items[i] l <-> bit b.is_Items[i] l) } variant { j }
      = if j > 0 then begin f i (j - 1); word_number i (j - 1); assert { has a (32 * i + (j - 1)) <-> has b (32 * i + (j - 1)) } end in
      let rec ghost g (k: int) : unit
        requires { 0 <= k <= a.is_MaxItem } ensures { forall i. 0 <= i < k -> a.is_Items[i] = b.is_Items[i] } variant { k }
      = if k > 0 then begin g (k - 1); f (k - 1) 32; assert { same_bits a.is_Items[k - 1] b.is_Items[k - 1] } end in
      g a.is_MaxItem
    end
endmlw
fn ctor_empty
  cxx contextfree::item_set::item_set()
  ensures wf result /\ forall x. not has result x
end
fn ctor_ref
  cxx contextfree::item_set::item_set(const contextfree::grammar&)
  ensures wf result /\ forall x. not has result x
end
fn ctor_ptr
  cxx contextfree::item_set::item_set(const contextfree::grammar*)
  ensures wf result /\ forall x. not has result x
end
fn ctor_copy
  opt oldthis
  cxx contextfree::item_set::item_set(const contextfree::item_set&)
  requires wf copyFrom
  ensures wf result
  ensures copy has the same members:: forall x. has result x <-> has copyFrom x
  exit assert { words this.is_Items this.is_MaxItem }
  exit assert { forall x. has this x <-> has copyFrom x }
  exit ghost (card_same copyFrom.is_Items this.is_Items copyFrom.is_MaxItem this.is_MaxItem)
  loop 0
    invariant 0 <= item /\ item <= copyFrom.is_MaxItem /\ this.is_MaxItem = copyFrom.is_MaxItem /\ this.is_Size = copyFrom.is_Size /\ length this.is_Items = this.is_MaxItem
    invariant forall i. 0 <= i < item -> this.is_Items[i] = copyFrom.is_Items[i]
    variant copyFrom.is_MaxItem - item
end
fn assign
  opt oldthis
  cxx contextfree::item_set::operator=
  exit assert { forall x. has this x <-> has assignFrom x }
  exit assert { words this.is_Items this.is_MaxItem }
  exit assert { this.is_MaxItem > 0 -> this.is_Items[this.is_MaxItem - 1] <> 0 }
  exit ghost (card_same assignFrom.is_Items this.is_Items assignFrom.is_MaxItem this.is_MaxItem)
  requires wf this /\ wf assignFrom
  ensures wf this
  ensures same members:: forall x. has this x <-> has assignFrom x
  loop 0
    invariant 0 <= item /\ item <= assignFrom.is_MaxItem /\ this.is_MaxItem = assignFrom.is_MaxItem /\ this.is_Size = assignFrom.is_Size /\ length this.is_Items = this.is_MaxItem
    invariant forall i. 0 <= i < item -> this.is_Items[i] = assignFrom.is_Items[i]
    variant assignFrom.is_MaxItem - item
end
fn insert_id
  opt oldthis
  cxx contextfree::item_set::insert(int)
  opt bits
  opt wrapcast
  requires wf this /\ 0 <= itemId < 2147483616
  ensures canonical form kept:: wf this
  ensures adds exactly the item:: forall x. has this x <-> (has (old this) x \/ x = itemId)
  ensures reports whether it changed the set:: result <-> not has (old this) itemId
  ensures size:: this.is_Size = (old this).is_Size + (if has (old this) itemId then 0 else 1)
  loop 0
    invariant (old this).is_MaxItem <= item <= this.is_MaxItem /\ this.is_MaxItem <= length this.is_Items /\ this.is_Size = (old this).is_Size
    invariant forall i. 0 <= i < (old this).is_MaxItem -> this.is_Items[i] = (old this).is_Items[i]
    invariant forall i. (old this).is_MaxItem <= i < item -> this.is_Items[i] = 0
    invariant this.is_MaxItem = setId + 1
    variant this.is_MaxItem - item
  exit assert { words this.is_Items this.is_MaxItem }
  exit assert { forall i. 0 <= i < this.is_MaxItem -> i <> ED.div itemId 32 -> this.is_Items[i] = (if i < old_this.is_MaxItem then old_this.is_Items[i] else 0) }
  exit assert { old_this.is_MaxItem <= this.is_MaxItem /\ ED.div itemId 32 < this.is_MaxItem }
  exit assert { forall j. 0 <= j < 32 -> (wbit this.is_Items[ED.div itemId 32] j <-> ((ED.div itemId 32 < old_this.is_MaxItem /\ wbit old_this.is_Items[ED.div itemId 32] j) \/ j = ED.mod itemId 32)) }
  exit assert { forall x. 0 <= x -> (has this x <-> (has old_this x \/ x = itemId))
     by if ED.div x 32 = ED.div itemId 32 then (ED.mod x 32 = ED.mod itemId 32 -> x = itemId) else x <> itemId }
  exit assert { forall x. has this x <-> (has old_this x \/ x = itemId) }
  exit ghost (if pure { has old_this itemId } then card_same old_this.is_Items this.is_Items old_this.is_MaxItem this.is_MaxItem else card_one_more old_this.is_Items this.is_Items old_this.is_MaxItem this.is_MaxItem itemId)
end
fn erase_id
  opt oldthis
  cxx contextfree::item_set::erase(int)
  opt bits
  opt wrapcast
  requires wf this /\ 0 <= itemId
  entry ghost (if pure { has this itemId } then card_positive this.is_Items this.is_MaxItem itemId)
  ensures canonical form kept:: wf this
  ensures removes exactly the item:: forall x. has this x <-> (has (old this) x /\ x <> itemId)
  ensures reports whether it changed the set:: result <-> has (old this) itemId
  ensures size:: this.is_Size = (old this).is_Size - (if has (old this) itemId then 1 else 0)
  loop 0
    invariant 0 <= this.is_MaxItem <= (old this).is_MaxItem
    invariant forall x. has this x <-> (has (old this) x /\ x <> itemId)
    invariant words this.is_Items this.is_MaxItem
    invariant this.is_Size = (old this).is_Size - 1
    invariant this.is_Size = card this.is_Items this.is_MaxItem
    before ghost (if pure { has old_this itemId } then card_one_more this.is_Items old_this.is_Items this.is_MaxItem old_this.is_MaxItem itemId)
    end assert { forall x. has this x <-> (has old_this x /\ x <> itemId) }
    end ghost (card_one_more this.is_Items old_this.is_Items this.is_MaxItem old_this.is_MaxItem itemId)
    variant this.is_MaxItem
end
fn contains_id
  cxx contextfree::item_set::contains(int)
  opt bits
  opt wrapcast
  requires wf this
  ensures membership:: result <-> has this itemId
end
fn contains_item
  cxx contextfree::item_set::contains(const util::container<contextfree::item, contextfree::empty_item_constructor>&)
  requires wf this /\ this.is_Grammar <> Null
  ensures membership:: forall g. this.is_Grammar = Ptr g -> (result <-> has this (ident g newItem))
end
fn insert_item
  cxx contextfree::item_set::insert(const util::container<contextfree::item, contextfree::empty_item_constructor>&)
  requires wf this /\ this.is_Grammar <> Null
  requires forall g. this.is_Grammar = Ptr g -> ident g newItem < 2147483616
  ensures canonical form kept:: wf this
  ensures adds exactly the item:: forall g. (old this).is_Grammar = Ptr g -> forall x. has this x <-> (has (old this) x \/ x = ident g newItem)
  ensures reports whether it changed the set:: forall g. (old this).is_Grammar = Ptr g -> (result <-> not has (old this) (ident g newItem))
end
fn erase_item
  cxx contextfree::item_set::erase(const util::container<contextfree::item, contextfree::empty_item_constructor>&)
  requires wf this /\ this.is_Grammar <> Null
  ensures canonical form kept:: wf this
  ensures removes exactly the item:: forall g. (old this).is_Grammar = Ptr g -> forall x. has this x <-> (has (old this) x /\ x <> ident g oldItem)
  ensures reports whether it changed the set:: forall g. (old this).is_Grammar = Ptr g -> (result <-> has (old this) (ident g oldItem))
end
mlw
  (* number of bits set in a word *)
  predicate wb (w: int) (i: int) = bit w i
  let ghost drop_lowest (w c: int)
    requires { word w /\ w <> 0 /\ c = band32 w (w - 1) }
    ensures { word c /\ numof (wb c) 0 32 = numof (wb w) 0 32 - 1 }
  = let ghost l = any int ensures { 0 <= result < 32 /\ bit w result /\ not bit (w - 1) result
      /\ (forall i. 0 <= i < result -> not bit w i) /\ (forall i. result < i -> (bit (w - 1) i <-> bit w i)) } in
    assert { forall i. 0 <= i < 32 -> (wb c i <-> wb w i /\ i <> l) };
    numof_one_more (wb c) (wb w) 0 32 l
  let ghost no_bits (w: int)
    requires { w = 0 }
    ensures { numof (wb w) 0 32 = 0 }
  = ()
  let rec ghost numof_word (w: seq int) (n i j: int)
    requires { words w n /\ 0 <= i < n /\ 0 <= j <= 32 }
    ensures { numof (inw w n) (32 * i) (32 * i + j) = numof (wb w[i]) 0 j }
    variant { j }
  = if j > 0 then begin
      numof_word w n i (j - 1);
      word_number i (j - 1);
      assert { (inw w n) (32 * i + (j - 1)) <-> wb w[i] (j - 1) }
    end
  let ghost card_next_word (w: seq int) (n i: int)
    requires { words w n /\ 0 <= i < n }
    ensures { numof (inw w n) 0 (32 * (i + 1)) = numof (inw w n) 0 (32 * i) + numof (wb w[i]) 0 32 }
  = numof_word w n i 32;
    assert { numof (inw w n) 0 (32 * (i + 1)) = numof (inw w n) 0 (32 * i) + numof (inw w n) (32 * i) (32 * i + 32) }
endmlw
fn count_size
  cxx contextfree::item_set::count_size
  opt bits
  opt oldthis
  requires words this.is_Items this.is_MaxItem
  ensures counts the members:: this.is_Size = card this.is_Items this.is_MaxItem
  ensures this.is_Items = (old this).is_Items /\ this.is_MaxItem = (old this).is_MaxItem /\ this.is_Grammar = (old this).is_Grammar
  loop 0
    invariant 0 <= item <= this.is_MaxItem /\ this.is_Items = (old this).is_Items /\ this.is_MaxItem = (old this).is_MaxItem /\ this.is_Grammar = (old this).is_Grammar
    invariant this.is_Size = numof (inw this.is_Items this.is_MaxItem) 0 (32 * item)
    variant this.is_MaxItem - item
    begin ghost (card_next_word this.is_Items this.is_MaxItem item)
  loop 1
    invariant this.is_Items = (old this).is_Items /\ this.is_MaxItem = (old this).is_MaxItem /\ this.is_Grammar = (old this).is_Grammar
    invariant word bits
    invariant this.is_Size + numof (wb bits) 0 32 = numof (inw this.is_Items this.is_MaxItem) 0 (32 * item) + numof (wb this.is_Items[item]) 0 32
    variant numof (wb bits) 0 32
    begin ghost (drop_lowest bits (pure { band32 bits (bits - 1) }))
end
fn merge_set
  cxx contextfree::item_set::merge
  opt bits
  opt oldthis
  requires wf this /\ wf mergeWith
  ensures canonical form kept:: wf this
  ensures merge is the union:: forall x. has this x <-> (has (old this) x \/ has mergeWith x)
  ensures reports whether it changed the set:: result <-> exists x. has mergeWith x /\ not has (old this) x
  exit assert { words this.is_Items this.is_MaxItem }
  exit assert { forall i. 0 <= i < this.is_MaxItem -> word (word_at old_this i) }
  exit assert { forall i j. 0 <= i < this.is_MaxItem -> 0 <= j < 32 -> (wbit this.is_Items[i] j <-> wbit (word_at old_this i) j \/ (i < mergeWith.is_MaxItem /\ wbit mergeWith.is_Items[i] j)) }
  exit assert { this.is_MaxItem > 0 -> this.is_Items[this.is_MaxItem - 1] <> 0 by
     let l = this.is_MaxItem - 1 in if mergeWith.is_MaxItem > old_this.is_MaxItem then exists j. 0 <= j < 32 /\ wbit mergeWith.is_Items[l] j by word mergeWith.is_Items[l] else exists j. 0 <= j < 32 /\ wbit old_this.is_Items[l] j by word old_this.is_Items[l] }
  exit assert { forall x. has this x <-> (has old_this x \/ has mergeWith x) by 0 <= ED.mod x 32 < 32 }
  exit assert { sizeChanged -> exists i j. 0 <= i < mergeWith.is_MaxItem /\ 0 <= j < 32 /\ wbit mergeWith.is_Items[i] j /\ not wbit (word_at old_this i) j
     by exists i. 0 <= i < mergeWith.is_MaxItem /\ this.is_Items[i] <> word_at old_this i so not same_bits this.is_Items[i] (word_at old_this i)  }
  exit ghost (word_number_all ())
  exit assert { forall i j. 0 <= i < mergeWith.is_MaxItem -> 0 <= j < 32 -> wbit mergeWith.is_Items[i] j -> not wbit (word_at old_this i) j -> has mergeWith (32 * i + j) /\ not has old_this (32 * i + j) }
  exit assert { sizeChanged -> exists x. has mergeWith x /\ not has old_this x
     by exists i j. 0 <= i < mergeWith.is_MaxItem /\ 0 <= j < 32 /\ wbit mergeWith.is_Items[i] j /\ not wbit (word_at old_this i) j so has mergeWith (32 * i + j) /\ not has old_this (32 * i + j) }
  exit ghost (if not sizeChanged then card_same old_this.is_Items this.is_Items old_this.is_MaxItem this.is_MaxItem)
  loop 0
    invariant old_this.is_MaxItem <= item /\ item <= this.is_MaxItem /\ this.is_MaxItem = mergeWith.is_MaxItem /\ this.is_MaxItem = length this.is_Items /\ this.is_Size = old_this.is_Size /\ this.is_Grammar = old_this.is_Grammar
    invariant forall i. 0 <= i < old_this.is_MaxItem -> this.is_Items[i] = old_this.is_Items[i]
    invariant forall i. old_this.is_MaxItem <= i < item -> this.is_Items[i] = 0
    variant this.is_MaxItem - item
  loop 1
    invariant 0 <= item_2 <= mergeWith.is_MaxItem /\ this.is_MaxItem = (if mergeWith.is_MaxItem > old_this.is_MaxItem then mergeWith.is_MaxItem else old_this.is_MaxItem)
    invariant words this.is_Items this.is_MaxItem
    invariant this.is_Size = old_this.is_Size /\ this.is_Grammar = old_this.is_Grammar
    invariant forall i. item_2 <= i < this.is_MaxItem -> this.is_Items[i] = word_at old_this i
    invariant forall i. 0 <= i < item_2 -> i < mergeWith.is_MaxItem -> forall j. 0 <= j < 32 -> (wbit this.is_Items[i] j <-> wbit (word_at old_this i) j \/ wbit mergeWith.is_Items[i] j)
    invariant not sizeChanged -> forall i. 0 <= i < item_2 -> this.is_Items[i] = word_at old_this i
    invariant sizeChanged -> exists i. 0 <= i < item_2 /\ i < mergeWith.is_MaxItem /\ this.is_Items[i] <> word_at old_this i
    variant mergeWith.is_MaxItem - item_2
end
fn equals
  cxx contextfree::item_set::operator==
  requires wf this /\ wf compareTo
  ensures equal exactly when the members are the same:: result <-> forall x. has this x <-> has compareTo x
  exit assert { (forall x. has this x <-> has compareTo x) -> this.is_MaxItem = compareTo.is_MaxItem /\ forall i. 0 <= i < this.is_MaxItem -> this.is_Items[i] = compareTo.is_Items[i] }
  loop 0
    invariant 0 <= item <= this.is_MaxItem /\ this.is_MaxItem = compareTo.is_MaxItem
    invariant forall i. 0 <= i < item -> this.is_Items[i] = compareTo.is_Items[i]
    variant this.is_MaxItem - item
end
fn next_item_id
  cxx contextfree::item_set::next_item_id
  opt bits
  opt wrapcast
  requires wf this /\ 0 <= itemId
  ensures after the given item:: result > itemId \/ result = 32 * this.is_MaxItem
  ensures nothing in between:: forall x. itemId < x < result -> not has this x
  ensures a member or the end:: has this result \/ result = 32 * this.is_MaxItem
  loop 0
    invariant 0 <= set /\ 0 <= bit < 32 /\ mask = p2 bit
    invariant itemId <= 32 * set + bit
    invariant forall x. itemId < x <= 32 * set + bit -> not has this x
    variant 32 * this.is_MaxItem + 32 - (32 * set + bit)
    begin ghost (word_number set bit; if bit < 31 then word_number set (bit + 1) else word_number (set + 1) 0; word_number (set + 1) 0)
end
fn begin_
  cxx contextfree::item_set::begin
  requires wf this
  ensures first member or the end:: result.iter__ItemSet = this /\ (has this result.iter__CurItemId \/ result.iter__CurItemId = 32 * this.is_MaxItem) /\ forall x. has this x -> x >= result.iter__CurItemId
end
fn end_
  cxx contextfree::item_set::end
  requires wf this
  ensures past every member:: result.iter__ItemSet = this /\ result.iter__CurItemId = 32 * this.is_MaxItem /\ forall x. has this x -> x < result.iter__CurItemId
end
fn iter_next
  cxx contextfree::item_set::const_iterator::operator++
  requires wf this.iter__ItemSet /\ has this.iter__ItemSet this.iter__CurItemId
  ensures next member in order or the end:: this.iter__ItemSet = (old this).iter__ItemSet /\ this.iter__CurItemId > (old this).iter__CurItemId
    /\ (has this.iter__ItemSet this.iter__CurItemId \/ this.iter__CurItemId = 32 * this.iter__ItemSet.is_MaxItem)
    /\ forall x. has this.iter__ItemSet x -> x <= (old this).iter__CurItemId \/ x >= this.iter__CurItemId
end
fn iter_item
  cxx contextfree::item_set::const_iterator::operator*
  requires this.iter__ItemSet.is_Grammar <> Null
  ensures the item with that identifier:: forall g. this.iter__ItemSet.is_Grammar = Ptr g -> result = item_with g this.iter__CurItemId
end
fn iter_eq
  cxx contextfree::item_set::const_iterator::operator==
  ensures result <-> this.iter__CurItemId = compareTo.iter__CurItemId
end
