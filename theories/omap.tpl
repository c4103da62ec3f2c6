  (* ordered container @N: keys @K, elements @E *)
  scope @N
    type t
    predicate mem (m: t) (k: @K)
    function get (m: t) (k: @K) : @E
    (* number of elements at or after a position *)
    function rank (m: t) (i: iter @K) : int
    function size (m: t) : int
    axiom size_nonneg: forall m. size m >= 0
    axiom rank_end: forall m. rank m End = 0
    axiom rank_at: forall m k. mem m k -> 1 <= rank m (At k) <= size m
    axiom rank_mono: forall m j k. mem m j -> mem m k -> @LT(j,k) -> rank m (At j) > rank m (At k)
    axiom size_pos: forall m k. mem m k -> size m >= 1
    predicate same (a b: t) = (forall k. mem a k <-> mem b k) /\ (forall k. mem a k -> get a k = get b k)
    axiom same_eq: forall a b. same a b -> a = b
    predicate valid (m: t) (i: iter @K) = match i with End -> true | At k -> mem m k end
    (* position order *)
    predicate before (i: iter @K) (k: @K) = match i with End -> false | At j -> @LT(j,k) end
    predicate at_or_after (k: @K) (i: iter @K) = match i with End -> false | At j -> not @LT(k,j) end
    predicate is_first (m: t) (i: iter @K) = valid m i /\ (forall k. mem m k -> at_or_after k i)
    predicate is_next (m: t) (k: @K) (i: iter @K) =
      match i with
      | End -> forall j. mem m j -> not @LT(k,j)
      | At h -> mem m h /\ @LT(k,h) /\ forall j. mem m j -> @LT(k,j) -> not @LT(j,h)
      end

    val constant empty : t
      ensures { forall k. not mem result k }
      ensures { size result = 0 }

    val function has (m: t) (k: @K) : bool
      ensures { result <-> mem m k }
    val function elt_at (m: t) (k: @K) : @E
      requires { [@expl:element exists in container] mem m k }
      ensures { result = get m k }
    val it_eq (a b: iter @K) : bool
      ensures { result <-> a = b }
    val begin_ (m: t) : iter @K
      ensures { is_first m result }
      ensures { rank m result = size m }
      ensures { result = End <-> size m = 0 }
    val end_ (m: t) : iter @K
      ensures { result = End }
    val size_ (m: t) : int
      ensures { result = size m }
      ensures { result = 0 <-> forall k. not mem m k }
    val is_empty (m: t) : bool
      ensures { result <-> size m = 0 }
      ensures { result <-> forall k. not mem m k }
    val next (m: t) (i: iter @K) : iter @K
      requires { [@expl:increment of a valid iterator] i <> End /\ valid m i }
      ensures { match i with End -> true | At k -> is_next m k result end }
      ensures { rank m result = rank m i - 1 }
    val prev (m: t) (i: iter @K) : iter @K
      requires { [@expl:decrement of an iterator that is not begin()] valid m i /\ match i with End -> exists k. mem m k | At h -> exists k. mem m k /\ @LT(k,h) end }
      ensures { match result with End -> false | At k -> mem m k /\ (match i with End -> forall j. mem m j -> not @LT(k,j) | At h -> @LT(k,h) /\ is_next m k i end) end }
      ensures { rank m result = rank m i + 1 }
    val lower_bound (m: t) (k: @K) : iter @K
      ensures { match result with End -> forall j. mem m j -> @LT(j,k) | At h -> mem m h /\ not @LT(h,k) /\ forall j. mem m j -> @LT(j,h) -> @LT(j,k) end }
    val upper_bound (m: t) (k: @K) : iter @K
      ensures { match result with End -> forall j. mem m j -> not @LT(k,j) | At h -> mem m h /\ @LT(k,h) /\ forall j. mem m j -> @LT(j,h) -> not @LT(k,j) end }
    val find (m: t) (k: @K) : iter @K
      ensures { if mem m k then result = At k else result = End }
    val count (m: t) (k: @K) : int
      ensures { result = if mem m k then 1 else 0 }
    val insert_kv (m: t) (k: @K) (x: @E) : t
      ensures { forall j. mem result j <-> (mem m j \/ j = k) }
      ensures { forall j. mem result j -> get result j = if mem m j then get m j else x }
      ensures { size result = size m + (if mem m k then 0 else 1) }
    val put (m: t) (k: @K) (x: @E) : t
      requires { [@expl:element exists in container] mem m k }
      ensures { forall j. mem result j <-> mem m j }
      ensures { forall j. mem m j -> get result j = if j = k then x else get m j }
      ensures { size result = size m }
      ensures { forall i. rank result i = rank m i }
    val erase_key (m: t) (k: @K) : t
      ensures { forall j. mem result j <-> (mem m j /\ j <> k) }
      ensures { forall j. mem result j -> get result j = get m j }
      ensures { size result = size m - (if mem m k then 1 else 0) }
    val erase_at (m: t) (i: iter @K) : t
      requires { [@expl:erase of a valid iterator] i <> End /\ valid m i }
      ensures { forall j. mem result j <-> (mem m j /\ At j <> i) }
      ensures { forall j. mem result j -> get result j = get m j }
      ensures { size result = size m - 1 }
    val erase_range (m: t) (a b: iter @K) : t
      requires { [@expl:erase of a valid range] valid m a /\ valid m b /\ (match a, b with _, End -> true | End, At _ -> false | At x, At y -> not @LT(y,x) end) }
      ensures { forall j. mem result j <-> (mem m j /\ not (at_or_after j a /\ (match b with End -> true | At y -> @LT(j,y) end))) }
      ensures { forall j. mem result j -> get result j = get m j }
      ensures { size result <= size m }
@INSERT
  end
